"""C27-C29, C36, C37: observations, map filtering, array operations, geometry
(Scene.tla, TraceScene.tla)."""
import numpy as np
import wx, scen
from wx import fx, q
D, S = 10000, 1000000
N, T, L, P, M, Q = 4, 6, 2, 9, 2, 5


def chunked(ev, n=12):
    return [dict(ev=ev[i:i + n]) for i in range(0, len(ev), n)]


def scenario(r, N=N, T=T, L=L, P=P, M=M, Q=Q, sdc=None):
    """Scene on a 1/4 lattice of positions (exact squared distances in float32)."""
    sc = scen.rand_scenario(r, N, T, L=L, P=P, M=M, Q=Q, sdc=sdc)
    sim = scen.rand_traj(r, N, T)
    span = [160, 30, 8][r.randint(3)]
    for tr in (sim, sc['log']):
        for f in ('x', 'y'):
            tr[f] = (r.randint(-span, span + 1, (N, T)) / 4).astype(np.float32)
        if r.rand() < 0.3:
            tr['yaw'] = r.choice([0.0, np.pi / 2, np.pi, -np.pi / 2, 4.0, -3.5], (N, T)).astype(np.float32)
    rg = sc['rg']
    for f in ('x', 'y'):
        rg[f] = (r.randint(-span, span + 1, P) / 4).astype(np.float32)
    rg['z'] = (np.arange(P) / 4).astype(np.float32)          # unique tag of a point
    rg['ids'] = (r.permutation(P) + r.choice([0, 7, 16777216 + 1, 900000000])).astype(np.int32)
    rg['valid'] = r.rand(P) < r.choice([0.3, 0.8, 1.0])
    t = int(r.randint(3, T - 1)) if r.rand() < 0.7 else int(r.choice([3, T - 1]))
    t = t if T < 12 else int(r.randint(10, T))
    sdc = int(np.argmax(sc['meta']['is_sdc']))
    if r.rand() < 0.8:
        sim['valid'][:, t] |= r.rand(N) < 0.8
        sim['valid'][sdc, t] = True
    return dict(sc=sc, sim=sim, t=t, sdc=sdc)


def big_scenario(r):
    """More objects, steps, lights and map points than the small scenes, later."""
    return scenario(r, 9, 16, 5, 40, 4, 9)


def wide_scenario(r):
    """More of everything than a byte can number."""
    s = scenario(r, 133, 140, 131, 150, 2, 3, sdc=int(r.randint(128, 133)))
    s['t'] = int(r.randint(128, 140))
    s['sim']['valid'][s['sdc'], s['t']] = True
    return s


def dims(s):
    return s['sim']['x'].shape + (len(s['sc']['tl']['x']), len(s['sc']['rg']['x']))


def build(scs, mode):
    import jax, jax.numpy as jnp
    ts = np.array([s['t'] for s in scs], np.int32)
    if mode == 'clock':
        for s in scs:
            s['t'] = scs[0]['t']
        return scen.to_state(scen.stack([s['sc'] for s in scs]), sim=scen.stack([s['sim'] for s in scs]), timestep=0).replace(timestep=jnp.int32(scs[0]['t']))
    return scen.to_state(scen.stack([s['sc'] for s in scs]), sim=scen.stack([s['sim'] for s in scs]), timestep=ts)


def observe(c, scs, mode, variant, frame, h, k):
    import jax
    from waymax import datatypes as dt, config as wc
    fn = dt.observation_from_state if variant == 'multi' else dt.sdc_observation_from_state
    f = lambda s: fn(s, obs_num_steps=h, roadgraph_top_k=k, coordinate_frame=wc.CoordinateFrame(frame))
    st = build(scs, mode)
    if mode == 'vmap':
        g = jax.jit(jax.vmap(f))
    elif mode == 'eager':
        g = f
    else:
        g = jax.jit(f)
    return st, scen.host(c.guard(f'observation {variant} {frame}', g, st))


FRAMES = ('GLOBAL', 'OBJECT', 'SDC')


def frame_name(frame):
    from waymax import config as wc
    return getattr(wc.CoordinateFrame, frame)


def rec_traj(tr, j, k):
    rest = wx.digest([np.asarray(getattr(tr, f))[j, k] for f in ('z', 'length', 'width', 'height', 'timestamp_micros')])
    return [fx(tr.x[j, k], D), fx(tr.y[j, k], D), fx(tr.vel_x[j, k], D), fx(tr.vel_y[j, k], D), fx(tr.yaw[j, k], S), int(tr.valid[j, k]), rest]


def view_events(scs, st, ob, variant, frame, h):
    from waymax import datatypes as dt
    ev = []
    N, T, L, P = dims(scs[0])
    H = scen.host(st)
    for b, s in enumerate(scs):
        t = s['t']
        ob_b = scen.idx(ob, b)
        stb = scen.idx(H.sim_trajectory, b)
        cur = [[fx(stb.x[i, t], D), fx(stb.y[i, t], D), fx(stb.yaw[i, t], S), int(stb.valid[i, t])] for i in range(N)]
        rg, tl = scen.idx(H.roadgraph_points, b), scen.idx(H.log_traffic_light, b)
        gp = [dict(id=int(rg.ids[p]), p=[fx(rg.x[p], D), fx(rg.y[p], D)], d=[fx(rg.dir_x[p], S), fx(rg.dir_y[p], S)], valid=int(rg.valid[p]),
                   rest=wx.digest([rg.z[p], rg.dir_z[p], rg.types[p]])) for p in range(P)]
        w = list(range(t - h + 1, t + 1))
        for i in range(N if variant == 'multi' else 1):
            o = scen.idx(ob_b, i)
            tr, org, otl, pose = o.trajectory, o.roadgraph_static_points, o.traffic_lights, o.pose2d
            e = dict(op='view', variant=variant, frame='SDC' if (variant == 'sdc' and frame != 'GLOBAL') else frame, cur=cur, who=i + 1 if variant == 'multi' else s['sdc'] + 1, sdc=s['sdc'] + 1,
                     gtraj=[[rec_traj(stb, j, k) for k in w] for j in range(N)],
                     otraj=[[rec_traj(tr, j, k) for k in range(tr.x.shape[1])] for j in range(tr.x.shape[0])],
                     gexact=[wx.digest([np.asarray(x)[j, w] for x in (stb.x, stb.y, stb.yaw, stb.vel_x, stb.vel_y)]) for j in range(N)],
                     oexact=[wx.digest([np.asarray(x)[j] for x in (tr.x, tr.y, tr.yaw, tr.vel_x, tr.vel_y)]) for j in range(N)],
                     gpts=gp, opts=[dict(id=int(org.ids[p]), p=[fx(org.x[p], D), fx(org.y[p], D)], d=[fx(org.dir_x[p], S), fx(org.dir_y[p], S)], valid=int(org.valid[p]),
                                         rest=wx.digest([org.z[p], org.dir_z[p], org.types[p]])) for p in range(org.x.shape[0])],
                     glights=[dict(p=[fx(tl.x[j, k], D), fx(tl.y[j, k], D)], valid=int(tl.valid[j, k]), rest=wx.digest([tl.z[j, k], tl.state[j, k], tl.lane_ids[j, k]])) for j in range(L) for k in w],
                     olights=[dict(p=[fx(otl.x[j, k], D), fx(otl.y[j, k], D)], valid=int(otl.valid[j, k]), rest=wx.digest([otl.z[j, k], otl.state[j, k], otl.lane_ids[j, k]])) for j in range(L) for k in range(otl.x.shape[1])],
                     pose=dict(xy=fx(pose.original_xy, D), yaw=fx(pose.original_yaw, S), delta=fx(pose.delta_yaw, S), valid=int(pose.valid),
                               rot1=fx(pose.matrix[0, :2], S), rot2=fx(pose.matrix[1, :2], S), trans=fx(pose.matrix[:2, 2], D)))
            ev.append(e)
    return ev


def meta_rows(m, i=None):
    f = lambda a: np.asarray(a if i is None else np.asarray(a)[i])
    cols = [f(getattr(m, k)).astype(int) for k in ('ids', 'object_types', 'is_sdc', 'is_modeled', 'is_valid', 'objects_of_interest', 'is_controlled')]
    return np.stack(cols, -1).tolist()


def window_events(scs, st, ob, variant, h):
    ev = []
    N, T, L, P = dims(scs[0])
    H = scen.host(st)
    for b, s in enumerate(scs):
        t = s['t']
        sim, tl, meta = scen.idx(H.sim_trajectory, b), scen.idx(H.log_traffic_light, b), scen.idx(H.object_metadata, b)
        lightrow = lambda x, j: [[q(x.x[j, k], 64), q(x.y[j, k], 64), q(x.z[j, k], 64), int(x.state[j, k]), int(x.lane_ids[j, k]), int(x.valid[j, k])] for k in range(x.x.shape[1])]
        gs = scen.slots(sim)
        for i in range(N if variant == 'multi' else 1):
            o = scen.idx(scen.idx(ob, b), i)
            ev.append(dict(op='window', variant=variant, t=t, h=h, who=(i if variant == 'multi' else s['sdc']) + 1,
                           sim=gs, otraj=scen.slots(o.trajectory), tl=[lightrow(tl, j) for j in range(L)], otl=[lightrow(o.traffic_lights, j) for j in range(L)],
                           ego=np.asarray(o.is_ego).astype(int).tolist(), meta=meta_rows(meta), ometa=meta_rows(o.metadata),
                           route=int(variant == 'sdc'), groute=wx.digest(scen.idx(H.sdc_paths, b)), oroute=wx.digest(o.sdc_paths)))
    return ev


def topk_obs_events(scs, st, ob, variant, k):
    ev = []
    N = dims(scs[0])[0]
    H = scen.host(st)
    for b, s in enumerate(scs):
        t, sim = s['t'], scen.idx(H.sim_trajectory, b)
        for i in range(N if variant == 'multi' else 1):
            who = i if variant == 'multi' else s['sdc']
            o = scen.idx(scen.idx(ob, b), i)
            ev.append(topk_event([q(sim.x[who, t], 4), q(sim.y[who, t], 4)], scen.idx(H.roadgraph_points, b), o.roadgraph_static_points, k))
    return ev


def point(rg, p):
    return dict(p=[q(rg.x[p], 4), q(rg.y[p], 4)], z=q(rg.z[p], 64), d=[q(rg.dir_x[p], 64), q(rg.dir_y[p], 64), q(rg.dir_z[p], 64)], type=int(rg.types[p]), id=int(rg.ids[p]), valid=int(rg.valid[p]))


def dtypes(rg):
    return [str(np.asarray(getattr(rg, f)).dtype) for f in ('x', 'y', 'z', 'dir_x', 'dir_y', 'dir_z', 'types', 'ids', 'valid')]


def topk_event(ref, rg, out, k, off=(0, 0)):
    near = lambda g: g.replace(x=np.asarray(g.x, float) - off[0], y=np.asarray(g.y, float) - off[1])
    a, b = near(rg), near(out)
    return dict(op='topk', ref=ref, pts=[point(a, p) for p in range(len(rg.x))], out=[point(b, p) for p in range(len(out.x))], k=k, dtypes=dtypes(out), indtypes=dtypes(rg))


COMBOS = [('multi', 'OBJECT', 'vmap', 3), ('multi', 'SDC', 'batch', 1), ('sdc', 'SDC', 'vmap', 3), ('multi', 'GLOBAL', 'clock', 2),
          ('sdc', 'OBJECT', 'batch', 2), ('sdc', 'GLOBAL', 'batch', 1), ('multi', 'OBJECT', 'batch', 2), ('multi', 'SDC', 'clock', 3)]


def run_c27(c):
    r = c.rng()
    c.model_check('MCScene')
    ev = []
    B = 10 if not c.thorough else 60
    for _ in range(1 if not c.thorough else 3):
        for n, (variant, frame, mode, h) in enumerate(COMBOS):
            scs = [scenario(r) for _ in range(B)]
            k = [P, 5, 1][n % 3]
            st, ob = observe(c, scs, mode, variant, frame_name(frame), h, k)
            ev += view_events(scs, st, ob, variant, frame, h)
        for variant, frame, mode in (('multi', 'OBJECT', 'vmap'), ('sdc', 'SDC', 'batch')):
            scs = [big_scenario(r) for _ in range(2)]
            st, ob = observe(c, scs, mode, variant, frame_name(frame), 11, 17)
            ev += view_events(scs, st, ob, variant, frame, 11)
        scs = [wide_scenario(r)]
        st, ob = observe(c, scs, 'vmap', 'sdc', frame_name('SDC'), 2, 140)
        ev += view_events(scs, st, ob, 'sdc', 'SDC', 2)
    # transforming an observation twice / between frames is one rigid motion
    c.judge('TraceScene', chunked(ev), only=['frame'])
    c.judge('TraceScene', chunked(pose_events(c, r), 4), only=['geom.combine', 'geom.from_transformation'], label='poses')


def pose_events(c, r):
    import jax.numpy as jnp
    from waymax import datatypes as dt
    from waymax.datatypes import observation as wobs
    from waymax.utils import geometry
    ev = []
    for shape in ((3,), (2, 3), (4, 1)):
        def rp():
            return dict(xy=r.uniform(-40, 40, shape + (2,)).astype(np.float32), yaw=r.uniform(-6, 6, shape).astype(np.float32), valid=r.rand(*shape) < 0.7)
        a, b = rp(), rp()
        pts = r.uniform(-40, 40, shape + (4, 2)).astype(np.float32)
        mk = lambda p: wobs.ObjectPose2D.from_center_and_yaw(xy=jnp.asarray(p['xy']), yaw=jnp.asarray(p['yaw']), valid=jnp.asarray(p['valid']))
        cm = c.guard('combine', lambda: wobs.combine_two_object_pose_2d(src_pose=mk(a), dst_pose=mk(b)))
        out = np.asarray(c.guard('transform_points', geometry.transform_points, cm.matrix, jnp.asarray(pts)))
        f = []
        for ix in np.ndindex(*shape):
            pr = lambda p: [fx(p['xy'][ix][0], D), fx(p['xy'][ix][1], D), fx(p['yaw'][ix], S), int(p['valid'][ix])]
            f.append(dict(src=pr(a), dst=pr(b), pts=fx(pts[ix], D), out=fx(out[ix], D), valid=int(np.asarray(cm.valid)[ix]), delta=fx(np.asarray(cm.delta_yaw)[ix], S),
                          xy=fx(np.asarray(cm.original_xy)[ix], D), yaw=fx(np.asarray(cm.original_yaw)[ix], S)))
        ev.append(dict(op='combine', f=f))
    return ev


def run_c28(c):
    import jax
    r = c.rng()
    ev, tk = [], []
    B = 8 if not c.thorough else 50
    for n, (variant, mode, h) in enumerate([('multi', 'batch', 3), ('sdc', 'vmap', 2), ('multi', 'clock', 1), ('sdc', 'clock', 4), ('multi', 'vmap', 2), ('sdc', 'batch', 1)]):
        scs = [scenario(r) for _ in range(B)]
        k = [P, 5, 1][n % 3]
        st, ob = observe(c, scs, mode, variant, frame_name('GLOBAL'), h, k)
        ev += window_events(scs, st, ob, variant, h)
        tk += topk_obs_events(scs, st, ob, variant, k)
        if n < 2:
            big = [big_scenario(r) for _ in range(2)]
            st2, ob2 = observe(c, big, mode, variant, frame_name('GLOBAL'), 11, 17)
            ev += window_events(big, st2, ob2, variant, 11)
            tk += topk_obs_events(big, st2, ob2, variant, 17)
            scs2 = [wide_scenario(r)]
            st2, ob2 = observe(c, scs2, mode, 'sdc', frame_name('GLOBAL'), 3 if n else 1, 140)
            ev += window_events(scs2, st2, ob2, 'sdc', 3 if n else 1)
            tk += topk_obs_events(scs2, st2, ob2, 'sdc', 140)
        # selecting one observer
        if variant == 'multi':
            o0 = jax.tree_util.tree_map(lambda x: jax.numpy.asarray(x), ob)
            for i in (0, N - 1):
                got = c.guard('for_obj', o0.for_obj, i)
                ev.append(dict(op='for_obj', got=wx.digest(got), want=wx.digest(jax.tree_util.tree_map(lambda x: x[:, i:i + 1], ob))))
    # changing slots outside the window changes nothing; inside it does
    for n, (variant, frame, mode, h) in enumerate(COMBOS if c.thorough else COMBOS[:6]):
        scs = [scenario(r) for _ in range(B)]
        st, ob = observe(c, scs, mode, variant, frame_name(frame), h, 5)
        chg, ins = [], []
        for s in scs:
            t, w = s['t'], slice(s['t'] - h + 1, s['t'] + 1)
            out = np.ones(T, bool)
            out[w] = False
            g1, g2 = scen.rand_traj(r, N, T), scen.rand_traj(r, N, T)
            sim = {f: np.where(out[None], g1[f], s['sim'][f]).astype(s['sim'][f].dtype) for f in s['sim']}
            tl2 = scen.rand_tl(r, L, T)
            tl = {f: np.where(out[None], tl2[f], s['sc']['tl'][f]).astype(s['sc']['tl'][f].dtype) for f in s['sc']['tl']}
            chg.append(dict(s, sim=sim, sc=dict(s['sc'], log=g2, tl=tl)))
            sim3 = {f: np.array(v) for f, v in s['sim'].items()}
            sim3['height'][r.randint(N), r.randint(t - h + 1, t + 1)] += 1
            ins.append(dict(s, sim=sim3))
        _, ob2 = observe(c, chg, mode, variant, frame_name(frame), h, 5)
        _, ob3 = observe(c, ins, mode, variant, frame_name(frame), h, 5)
        for b in range(B):
            ev.append(dict(op='perturb', variant=variant, frame=frame, before=wx.digest(scen.idx(ob, b)), after=wx.digest(scen.idx(ob2, b)), inside=wx.digest(scen.idx(ob3, b))))
    c.judge('TraceScene', chunked(ev), only=['window'])
    c.judge('TraceScene', chunked(tk), only=['topk'], label='road points')


def run_c29(c):
    import jax, jax.numpy as jnp
    from waymax import datatypes as dt
    from waymax.datatypes import roadgraph
    r = c.rng()
    ev = []
    rounds = 60 if c.thorough else 8
    for n in range(rounds + 2):
        Pn = [9, 14, 30, 70][n % 4] if n < rounds else 300
        # a map whose points of interest come after more unused ones than 16
        # bits can number; these are left out of what the specification is told
        pad = 33000 if n == rounds + 1 else 0
        for k in sorted({1, 3, Pn // 2, Pn - 1, Pn}) if n < rounds else [9] if pad else [150]:
            lead = [(), (3,), (2, 3)][r.randint(3)]
            cnt = int(np.prod(lead)) if lead else 1
            rgs, refs = [], []
            for _ in range(cnt):
                rg = scen.rand_rg(r, Pn)
                span = [6, 40, 400, 2000][r.randint(4)]
                for f in ('x', 'y'):
                    rg[f] = (r.randint(-span, span + 1, Pn) / 4).astype(np.float32)
                rg['z'] = (r.permutation(Pn) / 4 - 3).astype(np.float32)
                rg['ids'] = (r.choice([0, 16777216, 2 ** 30], Pn) + r.randint(0, 1000, Pn)).astype(np.int32)
                rg['types'] = r.choice([1, 15, 16, 18, 20, 16777217], Pn).astype(np.int32)
                rg['valid'] = r.rand(Pn) < (0.9 if pad else r.choice([0.1, 0.5, 1.0, 1.0]))
                if r.rand() < 0.3:   # stale padding
                    for f in ('x', 'y'):
                        rg[f] = np.where(rg['valid'], rg[f], np.float32(r.choice([0.0, -1.0, 0.25]))).astype(np.float32)
                rgs.append(rg)
                refs.append(r.randint(-span, span + 1, 2) / 4)
            # the same map kilometres away (exact; judged relative to that place)
            off = r.randint(-9000, 9000, 2).astype(float) if r.rand() < 0.5 else np.zeros(2)
            full = {f: np.stack([g[f] for g in rgs]).reshape(lead + (Pn,)) for f in rgs[0]}
            full.update({f: (full[f] + o).astype(np.float32) for f, o in zip('xy', off)})
            if pad:
                full = {f: np.concatenate([np.zeros(lead + (pad,), v.dtype), v], -1) for f, v in full.items()}
            ref = (np.stack(refs) + off).astype(np.float32).reshape(lead + (2,))
            fn = lambda a, b: dt.filter_topk_roadgraph_points(a, b, k)
            arg = dt.RoadgraphPoints(**{f: jnp.asarray(v) for f, v in full.items()})
            if r.rand() < 0.4:
                fn = jax.jit(fn)
            out = scen.host(c.guard('filter_topk', fn, arg, jnp.asarray(ref)))
            if out.x.shape != lead + (k,):
                c.fail('topk.shape', dict(got=out.x.shape, want=lead + (k,)))
                continue
            flat = lambda tr: jax.tree_util.tree_map(lambda x: np.asarray(x).reshape((cnt,) + x.shape[len(lead):]), tr)
            fin, fout = scen.host(flat(arg)), scen.host(flat(out))
            fin = jax.tree_util.tree_map(lambda x: x[:, pad:], fin)
            for b in range(cnt):
                ev.append(topk_event(q(np.asarray(refs[b]), 4), scen.idx(fin, b), scen.idx(fout, b), k, off))
        for extra in (1, 7):
            try:
                dt.filter_topk_roadgraph_points(arg, jnp.asarray(ref), pad + Pn + extra)
                raised = 0
            except Exception:  # noqa
                raised = 1
            ev.append(dict(op='raises', raised=raised))
    c.judge('TraceScene', chunked(ev), only=['topk'])


# ---------------------------------------------------------------- C36
def fibers(a, axis):
    """(..., n, ...) -> list of lines along axis, row-major in the other axes."""
    a = np.moveaxis(np.asarray(a), axis, -1)
    if a.dtype == bool:
        a = a.astype(int)
    elif a.dtype.kind == 'f':
        a = np.asarray(q(a, 16)).reshape(a.shape)
    return a.reshape(-1, a.shape[-1]).tolist()


def per_fiber(v, shape, axis, nb):
    """Value per batch element -> per fiber (other axes, row-major)."""
    sh = list(shape)
    ax = axis % len(sh)
    v = np.asarray(v)
    full = np.broadcast_to(v.reshape(v.shape + (1,) * (len(sh) - v.ndim)), sh[:v.ndim] + [1 if i == ax else s for i, s in enumerate(sh)][v.ndim:])
    return np.moveaxis(full, ax, -1).reshape(-1).tolist()


def leaf(r, shape, dt):
    if dt == 'bool':
        return r.rand(*shape) < 0.5
    if dt == 'int32':
        return r.choice([0, 1, 2, 16777217, -5, 900000001], shape).astype(np.int32) + r.randint(0, 9, shape).astype(np.int32)
    return (r.randint(-900, 900, shape) / 16).astype(np.float32)


def run_c36(c):
    import jax, jax.numpy as jnp
    from waymax.datatypes import operations as ops
    from waymax import datatypes as dt
    r = c.rng()
    ev = []
    KINDS = ('float32', 'int32', 'bool')
    J = jnp.asarray
    c.model_check('MCScene')
    for rd in range(40 if c.thorough else 3):
        for lead in ((), (3,), (2, 3)):
            # tree of leaves with different trailing ranks; the cut axis is -1 or a fixed positive one
            # a long axis has more places than a byte can number
            long = rd % 3 == 2 and len(lead) < 2
            n = int(r.randint(130, 150)) if long else 6
            tails = [(n,), (2, n), (2, 3, n)]
            tree = {k: leaf(r, lead + tails[i], k) for i, k in enumerate(KINDS)}
            lo = 128 if long else 0
            start = r.randint(lo, n - 2 + (n < 132), lead) if lead else int(r.randint(lo, n - 2 + (n < 132)))
            sz = 1 + (len(lead) + rd // 3) % 2
            jit = (lambda f: f) if rd else jax.jit
            jt = jax.tree_util.tree_map(J, tree)
            start_arg = J(start, jnp.int32) if lead or r.rand() < 0.5 else start
            st = np.asarray(start)
            o = c.guard('dynamic_slice', jit(lambda t, s: ops.dynamic_slice(t, s, sz, axis=-1)), jt, start_arg)
            for k in KINDS:
                sp = per_fiber(st, tree[k].shape, -1, lead)
                ev.append(dict(op='slice', n=sz, f=[dict(s=int(s), **{'in': a, 'out': b}) for s, a, b in zip(sp, fibers(tree[k], -1), fibers(o[k], -1))],
                               oshape=list(o[k].shape), wshape=list(tree[k].shape[:-1]) + [sz], odt=str(o[k].dtype), idt=k))
            for keep in (True, False):
                o = c.guard('dynamic_index', jit(lambda t, s: ops.dynamic_index(t, s, axis=-1, keepdims=keep)), jt, start_arg)
                for k in KINDS:
                    sp = per_fiber(st, tree[k].shape, -1, lead)
                    got = np.asarray(o[k]) if keep else np.asarray(o[k])[..., None]
                    ev.append(dict(op='slice', n=1, f=[dict(s=int(s), **{'in': a, 'out': b}) for s, a, b in zip(sp, fibers(tree[k], -1), fibers(got, -1))],
                                   oshape=list(o[k].shape), wshape=list(tree[k].shape[:-1]) + ([1] if keep else []), odt=str(o[k].dtype), idt=k))
            # overwriting
            m = n - 2
            upd = {k: leaf(r, lead + tails[i][:-1] + (m,), k) for i, k in enumerate(KINDS)}
            ju = jax.tree_util.tree_map(J, upd)
            for how in ('both', 'scalar', 'entire', 'alias', 'none'):
                if how in ('entire', 'alias'):
                    s_in = r.randint(0, n - m + 1, lead) if lead else int(r.randint(0, n - m + 1))
                    us, cnt = np.zeros(lead, int), m
                    if how == 'entire':
                        fn = lambda a, b, s: ops.update_by_slice_in_dim(a, b, s, axis=-1)
                    else:
                        fn = lambda a, b, s: ops.dynamic_update_slice_in_dim(a, b, s, -1)
                    o = c.guard('update ' + how, jit(fn), jt, ju, J(s_in, jnp.int32))
                elif how == 'none':   # same index in both
                    s_in = r.randint(0, m - sz + 1, lead) if lead else int(r.randint(0, m - sz + 1))
                    us, cnt = np.asarray(s_in), sz
                    o = c.guard('update none', jit(lambda a, b, s: ops.update_by_slice_in_dim(a, b, s, slice_size=sz, axis=-1)), jt, ju, J(s_in, jnp.int32))
                else:
                    s_in = r.randint(0, n - sz + 1, lead) if lead else int(r.randint(0, n - sz + 1))
                    if how == 'both':
                        us = r.randint(0, m - sz + 1, lead) if lead else np.asarray(r.randint(0, m - sz + 1))
                        arg = J(us, jnp.int32)
                    else:
                        u0 = int(r.randint(0, m - sz + 1))
                        us, arg = np.full(lead, u0), u0
                    cnt = sz
                    o = c.guard('update ' + how, lambda a, b, s, u: ops.update_by_slice_in_dim(a, b, s, u, sz, -1), jt, ju, J(s_in, jnp.int32), arg)
                for k in KINDS:
                    sp = per_fiber(np.asarray(s_in), tree[k].shape, -1, lead)
                    up = per_fiber(np.asarray(us), tree[k].shape, -1, lead)
                    ev.append(dict(op='update', how=how, n=cnt, f=[dict(s=int(s), us=int(u), upd=x, **{'in': a, 'out': b}) for s, u, a, x, b in zip(sp, up, fibers(tree[k], -1), fibers(upd[k], -1), fibers(o[k], -1))],
                                   oshape=list(o[k].shape), wshape=list(tree[k].shape), odt=str(o[k].dtype), idt=k))
            # masks
            shape = lead + (2, n)
            a = {k: leaf(r, shape, k) for k in KINDS}
            b = {k: leaf(r, shape, k) for k in KINDS}
            mk = r.rand(*[s if (i + rd) % 3 else 1 for i, s in enumerate(shape)]) < 0.5
            o = c.guard('update_by_mask', jit(ops.update_by_mask), jax.tree_util.tree_map(J, a), jax.tree_util.tree_map(J, b), J(mk))
            mf = fibers(np.broadcast_to(mk, shape), -1)
            for k in KINDS:
                ev.append(dict(op='mask', f=[dict(upd=y, m=z, **{'in': x, 'out': w}) for x, y, z, w in zip(fibers(a[k], -1), fibers(b[k], -1), mf, fibers(o[k], -1))],
                               oshape=list(o[k].shape), wshape=list(shape), odt=str(o[k].dtype), idt=k))
            # one-hot selection: the selected axis follows the leading axes
            sel = np.asarray(r.randint(0, n, lead))
            hot = np.eye(n, dtype=bool)[sel]
            tails2 = [(n,), (n, 2), (n, 2, 3)]
            tr2 = {k: leaf(r, lead + tails2[(i + rd) % 3], k) for i, k in enumerate(KINDS)}
            spoil = r.rand() < 0.4       # stale garbage in entries nobody selected
            if spoil:
                x = tr2['float32']
                w = np.broadcast_to(hot.reshape(hot.shape + (1,) * (x.ndim - hot.ndim)), x.shape)
                x[~w] = np.where(r.rand(*x[~w].shape) < 0.3, r.choice([np.nan, np.inf, -np.inf]), x[~w])
            for keep in (True, False):
                by_default = {} if not keep and rd % 2 else dict(keepdims=keep)
                o = c.guard('select_by_onehot', jit(lambda t, h: ops.select_by_onehot(t, h, **by_default)), jax.tree_util.tree_map(J, tr2), J(hot))
                ax = len(lead)
                for k in KINDS:
                    got = np.asarray(o[k]) if keep else np.expand_dims(np.asarray(o[k]), ax)
                    want = list(tr2[k].shape)
                    want[ax:ax + 1] = [1] if keep else []
                    sp = per_fiber(sel, tr2[k].shape, ax, lead)
                    ev.append(dict(op='onehot', f=[dict(s=int(s), **{'in': x, 'out': w[0]}) for s, x, w in zip(sp, fibers(tr2[k], ax), fibers(got, ax))],
                                   oshape=list(o[k].shape), wshape=want, odt=str(o[k].dtype), idt=k))
            # masked mean along any axis
            x, v = leaf(r, lead + (3, n), 'float32'), r.rand(*(lead + (3, n))) < r.choice([0.0, 0.5, 0.9])
            v[..., 0, :] &= r.rand() < 0.7
            for ax in ((-1, 0, -2, 1)[:2 + (rd % 3)]):
                for inv in ((-1.0, 2.5) if rd % 2 else (None,)):
                    kw = {} if inv is None else dict(invalid_value=inv)
                    o = np.asarray(c.guard('masked_mean', lambda: ops.masked_mean(J(x), J(v), axis=ax, **kw)))
                    got = np.asarray(fx(o, 256)).reshape(o.shape)
                    g2 = lambda y: np.moveaxis(np.asarray(y), ax, -1).reshape(-1, y.shape[ax]).tolist()
                    ev.append(dict(op='mean', inv=fx(-1.0 if inv is None else inv, 256), f=[dict(m=mm, **{'in': xx, 'out': oo}) for xx, mm, oo in zip(fibers(x, ax), fibers(v, ax), g2(got))],
                                   oshape=list(o.shape), wshape=list(x.shape)))
            # filling
            for k in KINDS:
                z = leaf(r, shape, k)
                o = np.asarray(c.guard('make_invalid_data', ops.make_invalid_data, J(z)))
                fo = lambda y: (y.astype(int) if k == 'bool' else np.asarray(q(y, 1)).reshape(y.shape)).reshape(-1, y.shape[-1]).tolist()
                ev.append(dict(op='fill', f=[dict(**{'in': x, 'out': w}) for x, w in zip(fo(z if k != 'float32' else z * 0), fo(o))], oshape=list(o.shape), wshape=list(shape), odt=str(o.dtype), idt=k))
            # equality of whole structures
            a1 = {k: leaf(r, (2, 3), k) for k in KINDS}
            a2 = {k: np.array(v) for k, v in a1.items()}
            if r.rand() < 0.6:
                k = KINDS[r.randint(3)]
                a2[k][1, 2] = ~a2[k][1, 2] if k == 'bool' else a2[k][1, 2] + 1
            f3 = lambda t: [fibers(t[k], -1) for k in KINDS]
            eq = c.guard('compare', ops.compare_all_leaf_nodes, jax.tree_util.tree_map(J, a1), jax.tree_util.tree_map(J, a2))
            ev.append(dict(op='equal', a=f3(a1), b=f3(a2), out=int(bool(eq))))
        ev += clocked(c, r)
    c.judge('TraceScene', chunked(ev, 25))


def clocked(c, r):
    """Time-indexed views of the simulation state and log replay of n steps."""
    import jax, jax.numpy as jnp
    from waymax import datatypes as dt
    from waymax.datatypes import simulator_state as ss, object_state as osx
    ev = []
    for mode in ('batch', 'clock', 'vmap'):
        B = 3
        scs = [scenario(r) for _ in range(B)]
        n = int(r.randint(1, 3))
        for s in scs:
            s['t'] = int(r.randint(0, T - n))
        st = build(scs, mode)
        wrap = jax.vmap if mode == 'vmap' else (lambda f: f)
        cs = scen.host(c.guard('current_sim_trajectory', wrap(lambda s: s.current_sim_trajectory), st))
        cl = scen.host(c.guard('current_log_trajectory', wrap(lambda s: s.current_log_trajectory), st))
        ad = scen.host(c.guard('update_state_by_log', wrap(lambda s: ss.update_state_by_log(s, n)), st))
        fi = scen.host(c.guard('fill_invalid', osx.fill_invalid_trajectory, st.sim_trajectory))
        H = scen.host(st)
        blank = [-64] * 6 + [0, -1] + [-64] * 3
        for b, s in enumerate(scs):
            sim, log = scen.slots(scen.idx(H.sim_trajectory, b)), scen.slots(scen.idx(H.log_trajectory, b))
            ev.append(dict(op='clocked', f=[dict(s=s['t'], **{'in': sim[i], 'out': x}) for i, x in enumerate(scen.slots(scen.idx(cs, b)))] +
                                           [dict(s=s['t'], **{'in': log[i], 'out': x}) for i, x in enumerate(scen.slots(scen.idx(cl, b)))]))
            t1 = np.asarray(ad.timestep)
            ev.append(dict(op='bylog', n=n, t0=s['t'], t1=int(t1 if t1.ndim == 0 else t1[b]),
                           f=[dict(s=s['t'] + 1, upd=log[i], **{'in': sim[i], 'out': x}) for i, x in enumerate(scen.slots(scen.idx(ad.sim_trajectory, b)))]))
            if any(x != blank for row in scen.slots(scen.idx(fi, b)) for x in row):
                c.fail('fill.trajectory', dict())
    return ev


# ---------------------------------------------------------------- C37
def run_c37(c):
    import jax, jax.numpy as jnp
    from waymax.utils import geometry as g
    from waymax import datatypes as dt
    r = c.rng()
    J = lambda x: jnp.asarray(x, jnp.float32)
    c.model_check('MCScene')
    ev = []

    def angles(shape):
        a = r.uniform(-7, 7, shape)
        return np.where(r.rand(*shape) < 0.25, r.choice([0, np.pi / 2, -np.pi / 2, np.pi, -np.pi, 3 * np.pi], shape), a).astype(np.float32) if shape else np.float32(a)

    def bxs(shape):
        b = np.stack([r.uniform(-6, 6, shape), r.uniform(-6, 6, shape), r.uniform(0.3, 7, shape), r.uniform(0.3, 3, shape), angles(shape)], -1).astype(np.float32)
        if r.rand() < 0.3:
            b[..., :2] *= 8
        return b
    rb = lambda b: [fx(b[0], D), fx(b[1], D), fx(b[2], D), fx(b[3], D), fx(b[4], S), 1]
    for rd in range(30 if c.thorough else 3):
        for lead in ((), (4,), (2, 3)) + (((5, 1), (1, 2, 2)) if c.thorough else ((1, 2, 2),) if rd == 0 else ()):
            jit = jax.jit if rd == 1 and len(lead) == 2 else (lambda f: f)
            ix = list(np.ndindex(*lead))
            a = angles(lead)
            m = np.asarray(c.guard('rotation_matrix_2d', jit(g.rotation_matrix_2d), J(a)))
            pts = r.uniform(-50, 50, lead + (3, 2)).astype(np.float32)
            out = np.asarray(c.guard('rotate_points', jit(g.rotate_points), J(m), J(pts)))
            if m.shape != lead + (2, 2) or out.shape != pts.shape:
                c.fail('geom.rotation_shape', dict(lead=lead, got=[m.shape, out.shape]))
                continue
            ev.append(dict(op='rotation', f=[dict(a=fx(a[i], S), m=fx(m[i].reshape(4), S), pts=fx(pts[i], D), out=fx(out[i], D)) for i in ix]))
            # poses
            xy, yaw = r.uniform(-40, 40, lead + (2,)).astype(np.float32), angles(lead)
            mat, dy = [np.asarray(x) for x in c.guard('pose_from_xy_yaw', g.pose_from_xy_yaw, J(xy), J(yaw))]
            mid = [(3,), (2, 2), ()][(rd + len(lead)) % 3]
            pts = r.uniform(-40, 40, lead + mid + (2,)).astype(np.float32)
            o = np.asarray(c.guard('transform_points', jit(g.transform_points), J(mat), J(pts)))
            d = np.asarray(c.guard('transform_direction', jit(g.transform_direction), J(mat), J(pts)))
            back = np.asarray(g.transform_points(jnp.linalg.inv(J(mat)), J(o)))
            yin = angles(lead)
            yo = np.asarray(c.guard('transform_yaw', g.transform_yaw, J(dy), J(yin)))
            fl = lambda x, i: fx(np.asarray(x[i]).reshape(-1, 2), D)
            ref = lambda i: [fx(xy[i][0], D), fx(xy[i][1], D), fx(yaw[i], S), 1]
            ev.append(dict(op='pose', f=[dict(ref=ref(i), rot1=fx(mat[i][0, :2], S), rot2=fx(mat[i][1, :2], S), trans=fx(mat[i][:2, 2], D), last=fx(mat[i][2], 1), delta=fx(dy[i], S),
                                              pts=fl(pts, i), out=fl(o, i), dirs=fl(d, i), back=fl(back, i), yawin=fx(yin[i], S), yawout=fx(yo[i], S)) for i in ix],
                           oshape=[list(mat.shape), list(dy.shape), list(o.shape), list(d.shape), list(yo.shape)], wshape=[list(lead) + [3, 3], list(lead), list(pts.shape), list(pts.shape), list(lead)]))
            for dof in (5, 7):
                tr = np.concatenate([r.uniform(-40, 40, lead + (3, 2)), r.uniform(1, 5, lead + (3, 2)), r.uniform(-4, 4, lead + (3, 1)), r.uniform(-20, 20, lead + (3, 2))], -1).astype(np.float32)[..., :dof]
                o = np.asarray(c.guard('transform_trajectories', jit(g.transform_trajectories), J(tr), J(mat), J(dy)))
                row = lambda x: [fx(x[0], D), fx(x[1], D), fx(x[2], D), fx(x[3], D), fx(x[4], S)] + [fx(v, D) for v in x[5:]]
                ev.append(dict(op='traj', f=[dict(ref=ref(i), **{'in': [row(x) for x in tr[i]], 'out': [row(x) for x in o[i]]}) for i in ix], oshape=list(o.shape), wshape=list(tr.shape)))
            b1, b2 = bxs(lead), bxs(lead)
            if r.rand() < 0.2:
                b2[..., :2] = b1[..., :2]
            o = np.asarray(c.guard('corners_from_bboxes', jit(g.corners_from_bboxes), J(b1)))
            ev.append(dict(op='corners', f=[dict(box=rb(b1[i]), out=fx(o[i], D)) for i in ix], oshape=list(o.shape), wshape=list(lead) + [4, 2]))
            if not lead:
                o = np.asarray(c.guard('corners_from_bbox', g.corners_from_bbox, J(b1)))
                ev.append(dict(op='corners', f=[dict(box=rb(b1), out=fx(o, D))], oshape=list(o.shape), wshape=[4, 2]))
            o = np.asarray(c.guard('has_overlap', jit(g.has_overlap), J(b1), J(b2)))
            ev.append(dict(op='pair', f=[dict(a=rb(b1[i]), b=rb(b2[i]), out=int(o[i])) for i in ix], oshape=list(o.shape), wshape=list(lead)))
            ob = bxs(lead + (4,))
            o = np.asarray(c.guard('compute_pairwise_overlaps', jit(g.compute_pairwise_overlaps), J(ob)))
            for i in ix:
                ev.append(dict(op='pairwise', boxes=[rb(x) for x in ob[i]], out=o[i].astype(int).tolist(), oshape=list(o.shape), wshape=list(lead) + [4, 4]))
            w = np.asarray(r.uniform(-30, 30, lead)).astype(np.float32)
            if r.rand() < 0.3:
                w = np.asarray(r.choice([np.pi, -np.pi, 3 * np.pi, -3 * np.pi, 0, 2 * np.pi, -2 * np.pi], lead)).astype(np.float32)
            o = np.asarray(c.guard('wrap_yaws', jit(g.wrap_yaws), J(w)))
            ev.append(dict(op='wrap', f=[{'in': fx(w[i], S), 'out': fx(o[i], S), 'fine': fx(o[i], 10**8)} for i in ix]))
            w = np.array([np.pi, -np.pi, 3 * np.pi, -3 * np.pi, 0, 2 * np.pi, -2 * np.pi, 9.0], np.float32)
            o = np.asarray(c.guard('wrap_yaws', jit(g.wrap_yaws), J(w)))
            ev.append(dict(op='wrap', f=[{'in': fx(a, S), 'out': fx(b, S), 'fine': fx(b, 10**8)} for a, b in zip(w, o)]))
            # properties of a trajectory
            tj = scen.rand_traj(r, 3, 2)
            t1 = dt.Trajectory(**{k: jnp.asarray(v) for k, v in tj.items()})
            o = np.asarray(c.guard('bbox_corners', lambda: t1.bbox_corners))
            five = np.stack([tj[k] for k in ('x', 'y', 'length', 'width', 'yaw')], -1)
            ev.append(dict(op='corners', f=[dict(box=rb(five[i, k]), out=fx(o[i, k], D)) for i in range(3) for k in range(2)], oshape=list(o.shape), wshape=[3, 2, 4, 2]))
    for e in pose_events(c, r) if True else ():
        ev.append(e)
    c.judge('TraceScene', chunked(ev, 6), only=['geom'])
