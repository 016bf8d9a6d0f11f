"""C41: pictures of scenes (Render.tla, TraceRender.tla)."""
import contextlib, re
import numpy as np
import wx, scen, metric_check as mc
from wx import fx, q
D, S = 10000, 1000000


def setup():
    import matplotlib
    matplotlib.use('Agg')


# --------------------------------------------------------------- what was drawn
def rgb(c):
    import matplotlib.colors as mcol
    return [int(round(255 * v)) for v in mcol.to_rgb(c)]


def glyphs(ax):
    """Lines (with their drawing order), single points and texts of an Axes."""
    from matplotlib.colors import to_rgba
    lines, dots = [], []
    order = sorted(range(len(ax.lines)), key=lambda i: (ax.lines[i].get_zorder(), i))
    for i in order:
        a = ax.lines[i]
        if not a.get_visible() or a.get_alpha() == 0:
            continue
        xy = np.asarray(a.get_xydata(), float).reshape(-1, 2)
        if a.get_linestyle() not in ('None', '', ' ') and len(xy) > 1:
            lines.append(dict(c=rgb(a.get_color()), p=[[fx(x, D), fx(y, D)] for x, y in xy]))
        elif a.get_marker() not in ('None', '', ' '):
            dots += [dict(c=rgb(a.get_markerfacecolor()), x=fx(x, D), y=fx(y, D), ms=int(round(a.get_markersize()))) for x, y in xy]
    texts, mtexts = [], []
    (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
    for t in ax.texts:
        if not t.get_visible():
            continue
        s, (x, y) = t.get_text(), t.get_position()
        if re.fullmatch(r'-?\d+', s.strip()):
            texts.append(dict(id=int(s), x=fx(x, D), y=fx(y, D)))
        else:
            m = re.search(r"([A-Za-z_]\w*)\W+?(-?\d+\.\d+)", s)
            mtexts.append(dict(name=m.group(1) if m else s, v=fx(float(m.group(2)), D) if m else 0, inside=int(x0 - 1e-3 <= x <= x1 + 1e-3 and y0 - 1e-3 <= y <= y1 + 1e-3)))
    return dict(lines=lines, dots=dots, texts=texts, mtexts=mtexts)


@contextlib.contextmanager
def camera():
    """Keeps the last figure that was rendered, and its pixels."""
    from matplotlib.backends import backend_agg
    out = {}
    orig = backend_agg.FigureCanvasAgg.draw

    def draw(self):
        r = orig(self)
        out['fig'] = self.figure
        out['rgb'] = np.asarray(self.buffer_rgba())[..., :3].copy()
        out.update(glyphs(self.figure.axes[0]))
        ax = self.figure.axes[0]
        out['lim'] = [fx(v, D) for v in (*ax.get_xlim(), *ax.get_ylim())]
        return r
    backend_agg.FigureCanvasAgg.draw = draw
    try:
        yield out
    finally:
        backend_agg.FigureCanvasAgg.draw = orig


def poses(tr):
    a = lambda f, k: np.asarray(fx(getattr(tr, f), k))
    return np.stack([a('x', D), a('y', D), a('length', D), a('width', D), a('yaw', S), a('valid', 1)], -1).tolist()


def rg_list(rg):
    return [] if rg is None else np.stack([np.asarray(fx(rg.x, D)), np.asarray(fx(rg.y, D)), np.asarray(rg.types), np.asarray(rg.valid).astype(int)], -1).tolist()


def tl_list(tl, t):
    return np.stack([np.asarray(fx(tl.x, D)), np.asarray(fx(tl.y, D)), np.asarray(tl.state), np.asarray(tl.valid).astype(int)], -1)[:, t].tolist()


def path_list(p):
    if p is None:
        return []
    return [dict(on=int(np.asarray(p.on_route)[i, 0]), p=np.stack([np.asarray(fx(p.x[i], D)), np.asarray(fx(p.y[i], D)), np.asarray(p.valid[i]).astype(int)], -1).tolist()) for i in range(p.shape[0])]


EMPTY = dict(op='pic', poses=[], ctrl=[], t=-1, labels=[], rg=[], tls=[], paths=[], metrics=[], view=dict(on=0), kept=1)


# ------------------------------------------------------------------ axes level
def on_axes(draw):
    import matplotlib.pyplot as plt
    fig, ax = plt.subplots()
    try:
        draw(ax)
        return glyphs(ax)
    finally:
        plt.close(fig)


def replay(c, res):
    """The scenes TLC enumerated, in the real plot."""
    import jax.numpy as jnp
    from waymax import datatypes as dt, visualization as viz
    n = 0
    msgs = sorted(res.msgs, key=lambda m: str(m))
    msgs = msgs if c.thorough else [msgs[i] for i in c.rng(3).permutation(len(msgs))[:260]]
    col = {(0, 153, 204): 1, (153, 153, 153): 0}
    for m in msgs:
        P = np.asarray(m['poses'], float)
        z = np.zeros(P.shape[:2], np.float32)
        f = lambda j, k: jnp.asarray((P[..., j] / k).astype(np.float32))
        tr = dt.Trajectory(x=f(0, D), y=f(1, D), z=z, vel_x=z, vel_y=z, yaw=f(4, S), valid=jnp.asarray(P[..., 5] > 0), timestamp_micros=z.astype(np.int32), length=f(2, D), width=f(3, D), height=z)
        t = None if m['t'] == -1 else m['t']
        g = c.guard('plot_trajectory', on_axes, lambda ax: viz.plot_trajectory(ax, tr, np.asarray(m['c']) > 0, time_idx=t))
        n += 1
        got = [['none'] * P.shape[1] for _ in P]
        touch = [0] * len(P)
        for ln in g['lines']:
            if len(ln['p']) != 5:
                continue
            p = np.asarray(ln['p'][:4], float)
            ctr, size = p.mean(0), np.hypot(*(p[0] - p[2]))
            i, k = np.unravel_index(np.argmin(np.hypot(P[..., 0] - ctr[0], P[..., 1] - ctr[1])), P.shape[:2])
            if tuple(ln['c']) == (255, 0, 0):
                touch[i] = 1
            else:
                got[i][k] = ('full' if size > 15000 else 'small') if col.get(tuple(ln['c'])) == m['c'][i] else 'colour'
        for d in g['dots']:
            i, k = np.unravel_index(np.argmin(np.hypot(P[..., 0] - d['x'], P[..., 1] - d['y'])), P.shape[:2])
            got[i][k] = 'dot' if got[i][k] == 'none' else 'both'
        if got != m['show'] or touch != [int(x == 'yes') for x in m['touch']]:
            c.fail('replay.shown', dict(valid=m['v'], controlled=m['c'], t=m['t'], shown=got, specified=m['show'], contact=touch, specified_contact=m['touch']))
    c.traces += n
    c.extra['model_behaviours_replayed_in_impl'] = n
    c.log(f'replayed {n} enumerated scenes')


def scene(r, N=4, T=4):
    sc = scen.rand_scenario(r, N, T, L=3, P=14, M=3, Q=4)
    sc['log'] = mc.crowd(r, N, T)
    sc['rg']['types'] = r.choice([-1, 0, 1, 2, 3, 5, 6, 9, 13, 14, 15, 16, 17, 18, 19], 14).astype(np.int32)
    if r.rand() < 0.15:
        sc['rg']['valid'][:] = False
    if r.rand() < 0.15:
        sc['tl']['valid'][:] = False
    sim = mc.crowd(r, N, T)
    return sc, sim


def keep_sdc(tr, meta, t):
    tr['valid'][:, t] |= np.asarray(meta['is_sdc'])


def axes_events(c, r, n):
    import jax
    from waymax import visualization as viz
    ev = []
    for i in range(n):
        sc, sim = scene(r, *((2, 3), (4, 4), (3, 1), (5, 2))[i % 4])
        st = scen.to_state(sc, sim=sim)
        T = st.sim_trajectory.num_timesteps
        t = int(r.randint(T))
        how = int(r.randint(4))
        arg = {0: t, 1: -1, 2: None, 3: t}[how]
        if how == 1:
            t = T - 1
        ctrl = r.rand(st.num_objects) < 0.5
        ids = r.permutation(900)[:st.num_objects] if r.rand() < 0.7 else None
        before = wx.digest(st)
        mode = r.randint(2)
        tr = jax.tree_util.tree_map(np.asarray, st.sim_trajectory) if mode else st.sim_trajectory
        g = c.guard('plot_trajectory', on_axes, lambda ax: viz.plot_trajectory(ax, tr, ctrl, time_idx=arg, indices=ids, add_label=bool(r.rand() < 0.3)))
        ev.append(dict(EMPTY, **g, poses=poses(st.sim_trajectory), ctrl=ctrl.astype(int).tolist(), labels=[] if ids is None else ids.tolist(), kept=int(wx.digest(st) == before)) | dict(t=-1 if how == 2 else t))
        g = c.guard('plot_roadgraph_points', on_axes, lambda ax: viz.plot_roadgraph_points(ax, st.roadgraph_points))
        ev.append(dict(EMPTY, **g, kept=1) | dict(rg=rg_list(st.roadgraph_points)))
        g = c.guard('plot_traffic_light_signals_as_points', on_axes, lambda ax: viz.plot_traffic_light_signals_as_points(ax, st.log_traffic_light, t))
        ev.append(dict(EMPTY, **g) | dict(tls=tl_list(st.log_traffic_light, t)))
    return ev


# --------------------------------------------------------------- whole pictures
def window(r):
    f = lambda: float(r.randint(2, 9) * 10)
    v = dict(front_x=f(), back_x=f(), front_y=f(), back_y=f(), px_per_meter=float(r.choice([1, 2])))
    if r.rand() < 0.5:
        v['show_agent_id'] = bool(r.rand() < 0.5)
    return v


def shoot(c, what, fn, *a, **k):
    import matplotlib.pyplot as plt
    n = len(plt.get_fignums())
    with camera() as cam:
        img = c.guard(what, fn, *a, **k)
    return np.asarray(img), cam, len(plt.get_fignums()) - n


def view_of(img, cam, left, v, who):
    dv = dict(front_x=75., back_x=75., front_y=75., back_y=75., px_per_meter=4.) | v
    return dict({k: fx(dv[k], D) for k in ('front_x', 'back_x', 'front_y', 'back_y')}, on=1, who=who + 1, lim=cam['lim'], shape=list(img.shape), dtype=str(img.dtype), left=left,
                h=int(round((dv['front_y'] + dv['back_y']) * dv['px_per_meter'])), w=int(round((dv['front_x'] + dv['back_x']) * dv['px_per_meter'])),
                same=int(img.shape == cam['rgb'].shape and bool((img == cam['rgb']).all())))


def picture_events(c, r, n):
    import jax, jax.numpy as jnp
    from waymax import datatypes as dt, visualization as viz, config as wc
    from waymax.env.wrappers import brax_wrapper
    from waymax.metrics import abstract_metric as am
    ev = []
    drawn = ('lines', 'dots', 'texts', 'mtexts')
    for i in range(n):
        kind = ('state', 'obs', 'brax')[i % 3]
        N, T = 4, 4
        batched = r.rand() < 0.4
        t = int(r.randint(T))
        scs, sims = zip(*[scene(r, N, T) for _ in range(2)])
        b = int(r.randint(2)) if batched else 0
        for sc, sim in zip(scs, sims):
            keep_sdc(sc['log'], sc['meta'], t)
            keep_sdc(sim, sc['meta'], t)
        if i % 4 == 1:
            for sc in scs:
                sc['rg'] = None
        if i % 5 == 2:
            for sc in scs:
                sc['paths'] = None
        ones = [scen.to_state(sc, sim=sim, timestep=t) for sc, sim in zip(scs, sims)]
        st = jax.tree_util.tree_map(lambda *a: jnp.stack(a), *ones) if batched else ones[0]
        if batched and r.rand() < 0.3:
            st = st.replace(timestep=jnp.int32(t))
        one = ones[b]
        who_sdc = int(np.argmax(np.asarray(one.object_metadata.is_sdc)))
        v = window(r) if r.rand() < 0.9 else {}
        who = who_sdc
        if r.rand() < 0.4:
            who = int(r.randint(N))
            v['center_agent_idx'] = who
        bk = dict(batch_idx=b) if batched else {}
        hi = r.choice(['SDC', 'MODELED', 'VALID'])
        hk = {} if hi == 'SDC' else dict(highlight_obj=getattr(wc.ObjectType, hi))
        mask = dict(SDC='is_sdc', MODELED='is_modeled', VALID='is_valid')[hi]
        before = wx.digest(st)
        vk = dict(viz_config=dict(v)) if v else {}
        if kind == 'obs' and one.roadgraph_points is None:
            kind = 'state'
        e = dict(EMPTY)
        if kind == 'state':
            uk = {} if r.rand() < 0.3 else dict(use_log_traj=bool(r.rand() < 0.5))
            img, cam, left = shoot(c, 'plot_simulator_state', viz.plot_simulator_state, st, **uk, **vk, **bk, **hk)
            tr = one.log_trajectory if uk.get('use_log_traj', True) else one.sim_trajectory
            e.update(poses=poses(tr), ctrl=np.asarray(getattr(one.object_metadata, mask)).astype(int).tolist(), t=t, rg=rg_list(one.roadgraph_points), tls=tl_list(one.log_traffic_light, t))
        elif kind == 'brax':
            uk = {} if r.rand() < 0.3 else dict(use_log_traj=bool(r.rand() < 0.5))
            names = [str(x) for x in r.choice(['log_divergence', 'overlap', 'offroad', 'sdc_progression'], r.randint(0, 4), replace=False)]
            shape = (2,) if batched else ()
            ms = {x: am.MetricResult(value=jnp.asarray((r.randint(-400, 4000, shape) / 64).astype(np.float32)), valid=jnp.asarray(np.asarray(r.rand(*shape) < 0.6))) for x in names}
            ts = brax_wrapper.TimeStep(state=st, observation=jnp.zeros(shape + (1,)), reward=jnp.zeros(shape), done=jnp.zeros(shape, bool), discount=jnp.ones(shape), metrics=ms)
            img, cam, left = shoot(c, 'plot_single_agent_brax_timestep', viz.plot_single_agent_brax_timestep, ts, **uk, **vk, **bk)
            tr = one.log_trajectory if uk.get('use_log_traj', False) else one.sim_trajectory
            at = lambda a: np.asarray(a)[b] if batched else np.asarray(a)
            e.update(poses=poses(tr), ctrl=np.asarray(one.object_metadata.is_sdc).astype(int).tolist(), t=t, rg=rg_list(one.roadgraph_points), tls=tl_list(one.log_traffic_light, t),
                     paths=path_list(one.sdc_paths), metrics=[dict(name=x, v=fx(at(ms[x].value), D), ok=int(at(ms[x].valid))) for x in names])
        else:
            h = int(r.randint(1, t + 2))
            frame = getattr(wc.CoordinateFrame, str(r.choice(['GLOBAL', 'SDC', 'OBJECT'])))
            multi = r.rand() < 0.5
            fn = dt.observation_from_state if multi else dt.sdc_observation_from_state
            if np.asarray(st.timestep).ndim < len(st.shape):
                st = st.replace(timestep=jnp.full(st.shape, t, jnp.int32))
            before = wx.digest(st)
            ob = jax.jit(lambda s: fn(s, obs_num_steps=h, roadgraph_top_k=6, coordinate_frame=frame))(st)
            o = int(r.randint(N)) if multi else 0
            img, cam, left = shoot(c, 'plot_observation', viz.plot_observation, ob, o, **vk, **bk, **hk)
            mine = jax.tree_util.tree_map(lambda x: x[b][o] if batched else x[o], ob)
            e.update(poses=poses(mine.trajectory), ctrl=np.asarray(getattr(mine.metadata, mask)).astype(int).tolist(), t=h - 1, rg=rg_list(mine.roadgraph_static_points), tls=tl_list(mine.traffic_lights, h - 1))
        if not cam:
            c.fail('view.rendered', dict(kind=kind))
            continue
        e.update({k: cam[k] for k in drawn})
        e.update(kind=kind, labels=list(range(N)) if v.get('show_agent_id', True) else [], view=view_of(img, cam, left, v, who), kept=int(wx.digest(st) == before))
        ev.append(e)
    return ev


def reject_events(c, r):
    import jax
    import matplotlib.pyplot as plt
    from waymax import datatypes as dt, visualization as viz
    sc, sim = scene(r)
    st = scen.to_state(sc, sim=sim, timestep=1)
    two = scen.to_state(scen.stack([sc, sc]), sim=scen.stack([sim, sim]), timestep=1)
    ob = jax.jit(lambda s: dt.sdc_observation_from_state(s, obs_num_steps=2, roadgraph_top_k=3))(two)
    keep = lambda tr: tr.replace(valid=tr.valid | True)
    st, two = (s.replace(log_trajectory=keep(s.log_trajectory), sim_trajectory=keep(s.sim_trajectory)) for s in (st, two))
    T, z = st.log_trajectory.num_timesteps, np.zeros(st.num_objects, bool)
    small = dict(front_x=10., back_x=10., front_y=10., back_y=10., px_per_meter=1.)
    cases = [('trajectory.rank', 1, lambda ax: viz.plot_trajectory(ax, two.sim_trajectory, z, time_idx=0)),
             ('trajectory.step', 1, lambda ax: viz.plot_trajectory(ax, st.sim_trajectory, z, time_idx=T)),
             ('trajectory.step', 0, lambda ax: viz.plot_trajectory(ax, st.sim_trajectory, z, time_idx=T - 1)),
             ('map.rank', 1, lambda ax: viz.plot_roadgraph_points(ax, two.roadgraph_points)),
             ('lights.rank', 1, lambda ax: viz.plot_traffic_light_signals_as_points(ax, two.log_traffic_light, 0)),
             ('state.batch', 1, lambda ax: viz.plot_simulator_state(two, viz_config=small)),
             ('state.batch', 1, lambda ax: viz.plot_simulator_state(st, viz_config=small, batch_idx=0)),
             ('state.batch', 0, lambda ax: viz.plot_simulator_state(two, viz_config=small, batch_idx=1)),
             ('observation.batch', 1, lambda ax: viz.plot_observation(ob, 0, viz_config=small)),
             ('observation.batch', 1, lambda ax: viz.plot_observation(jax.tree_util.tree_map(lambda x: x[0], ob), 0, viz_config=small, batch_idx=0)),
             ('observation.batch', 0, lambda ax: viz.plot_observation(ob, 0, viz_config=small, batch_idx=0))]
    from waymax.env.wrappers import brax_wrapper as bw
    from waymax.visualization import utils as vu
    from waymax.metrics import abstract_metric
    import jax.numpy as jnp

    def ts(s):
        z1 = jnp.zeros(s.shape, jnp.float32)
        return bw.TimeStep(state=s, observation=s, reward=z1, done=z1 > 0, discount=z1, metrics={'a': abstract_metric.MetricResult(value=z1, valid=z1 == 0)})
    cases += [('step.batch', 1, lambda ax: viz.plot_single_agent_brax_timestep(ts(two), viz_config=small)),
              ('step.batch', 1, lambda ax: viz.plot_single_agent_brax_timestep(ts(st), viz_config=small, batch_idx=0)),
              ('step.batch', 0, lambda ax: viz.plot_single_agent_brax_timestep(ts(two), viz_config=small, batch_idx=1)),
              ('boxes.shape', 1, lambda ax: vu.plot_numpy_bounding_boxes(ax, np.zeros((2, 4)), np.zeros(3))),
              ('boxes.shape', 1, lambda ax: vu.plot_numpy_bounding_boxes(ax, np.zeros((1, 5, 5)), np.zeros(3))),
              ('boxes.shape', 1, lambda ax: vu.plot_numpy_bounding_boxes(ax, np.zeros((2, 5)), np.zeros(4))),
              ('boxes.shape', 0, lambda ax: vu.plot_numpy_bounding_boxes(ax, np.ones((2, 5)), np.zeros(3)))]
    ev = []
    for what, bad, fn in cases:
        try:
            on_axes(fn)
            out = 'ok'
        except Exception as e:  # noqa
            out = type(e).__name__
        ev.append(dict(op='reject', what=what, bad=bad, out=out))
    plt.close('all')
    return ev


def colour_events(r, n):
    """Palettes: that many colours, all different, of the hue range asked for."""
    import colorsys
    from waymax.visualization import utils as vu
    ev = []
    for i in range(n):
        k, hue = int(r.randint(1, 30)), float(r.choice([1, 0.5, 0.8]))
        a = np.asarray(vu.get_n_colors(k, hue) if i else vu.get_n_colors(k))
        hue = hue if i else 1.0
        hsv = [colorsys.rgb_to_hsv(*x) for x in a.tolist()]
        ev.append(dict(op='palette', n=k, hue=fx(hue, D), got=[[fx(v, D) for v in x] for x in hsv], rgb=[[fx(v, D) for v in x] for x in a.tolist()]))
    return ev


def helper_events(c, r, n):
    """Figures made with the helpers: size, window, image, image file."""
    import os
    import matplotlib.pyplot as plt
    from PIL import Image
    from waymax.visualization import utils as vu
    ev = []
    for i in range(n):
        v = {f: float(r.randint(4, 90)) for f in ('front_x', 'back_x', 'front_y', 'back_y')} | dict(px_per_meter=float(r.randint(1, 5)))
        xy = r.randint(-4000, 4000, 2) / 8
        cfg = vu.VizConfig(**v)
        left = len(plt.get_fignums())
        fig, ax = c.guard('init_fig_ax', vu.init_fig_ax, cfg)
        c.guard('center_at_xy', vu.center_at_xy, ax, xy, cfg)
        ax.plot(xy[:1] + 1, xy[1:] - 1, 'o', color=(0.1, 0.5, 0.9))
        with camera() as cam:
            img = np.asarray(c.guard('img_from_fig', vu.img_from_fig, fig))
        path = os.path.join(c.tmp, f'd{i}', 'deeper', 'img.png')
        c.guard('save_img_as_png', vu.save_img_as_png, img, path)
        back = np.asarray(Image.open(path))
        ev.append(dict(op='helper', at=[fx(x, D) for x in xy], saved=int(back.shape == img.shape and bool((back == img).all())),
                       view=view_of(img, cam, len(plt.get_fignums()) - left, v, 0)))
    return ev


def run_c41(c):
    setup()
    r = c.rng()
    res = c.model_check('MCRender', min_states=1000)
    replay(c, res)
    k = 12 if c.thorough else 1
    ev = axes_events(c, r, 24 * k)
    c.log(f'{len(ev)} plots')
    ev += picture_events(c, r, 30 * k) + reject_events(c, r) + helper_events(c, c.rng('helpers'), 4 * k) + colour_events(c.rng('palette'), 6 * k)
    c.log('pictures taken')
    c.judge('TraceRender', [dict(ev=ev[i:i + 6]) for i in range(0, len(ev), 6)])
