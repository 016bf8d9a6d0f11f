"""C08, C09, C10: dynamics models (Dynamics.tla, TraceDyn.tla)."""
import numpy as np
import wx
D, S = 10000, 1000000


def model(kind, p):
    from waymax import dynamics
    if kind == 'state':
        return dynamics.StateDynamics()
    if kind == 'bike':
        return dynamics.InvertibleBicycleModel(dt=p['dtms'] / 1000, max_accel=p['maxacc'] / D, max_steering=p['maxsteer'] / S, normalize_actions=bool(p['norm']))
    cls = dynamics.DeltaGlobal if kind == 'global' else dynamics.DeltaLocal
    if p.get('default'):
        return cls()
    return cls(dt=p['dtms'] / 1000, max_dx=p['maxdx'] / D, max_dy=p['maxdy'] / D, max_dyaw=p['maxdyaw'] / S)


def params(r, kind, j):
    p = dict(dtms=int([100, 100, 50, 200, 125][j % 5]), maxacc=60000, maxsteer=300000, norm=0, maxdx=60000, maxdy=60000, maxdyaw=3141592)
    if kind == 'bike':
        p['norm'] = j % 2
        if j % 3 == 2:
            p.update(maxacc=int(r.randint(2, 13) * 5000), maxsteer=int(r.randint(1, 6) * 100000))
        elif j % 3 == 1:   # limits on the other side of the normalised ones
            p.update(maxacc=int(r.randint(1, 10) * 1000), maxsteer=int(r.randint(11, 16) * 100000))
    elif kind in ('global', 'local'):
        if j % 2 == 0:
            p.update(dtms=100, default=1)
        else:
            p.update(maxdx=int(r.randint(1, 12) * 5000), maxdy=int(r.randint(1, 12) * 5000), maxdyaw=int(r.randint(2, 31) * 100000))
    return p


def rand_pose(r, shape, kind=None):
    f = lambda lo, hi: r.uniform(lo, hi, shape).astype(np.float32)
    d = dict(x=f(-40, 40), y=f(-40, 40), z=f(-2, 2), yaw=f(-3.14, 3.14), length=f(2, 5), width=f(1, 2.5), height=f(1, 2))
    if r.rand() < 0.3:
        d['yaw'] = f(-9, 9)
    if r.rand() < 0.4:      # recorded coordinates are often kilometres from the origin
        d['x'], d['y'] = (d[k] + np.float32(r.choice([-1, 1]) * r.choice([900, 4000, 20000])) for k in 'xy')
    sp = f(0, 20) * (r.rand(*shape) > 0.1)
    sp = np.where(r.rand(*shape) < 0.15, sp * 0.04, sp)
    sp = np.where(r.rand(*shape) < 0.15, f(0.3, 1.2), sp)     # about the speed below which headings are not trusted
    al = r.rand(*shape) < 0.7
    th = np.where(al, d['yaw'], f(-3.14, 3.14))
    d['vel_x'] = (sp * np.cos(th)).astype(np.float32)
    d['vel_y'] = (sp * np.sin(th)).astype(np.float32)
    d['valid'] = r.rand(*shape) < 0.8
    d['timestamp_micros'] = np.zeros(shape, np.int32)
    return d


def cur_of(d, ix):
    return dict(x=wx.fx(d['x'][ix], D), y=wx.fx(d['y'][ix], D), yaw=wx.fx(d['yaw'][ix], S), vx=wx.fx(d['vel_x'][ix], D), vy=wx.fx(d['vel_y'][ix], D), valid=int(d['valid'][ix]))


def act_scale(kind, p):
    if kind == 'state':
        return [D, D, S, D, D]
    if kind == 'bike':
        return [S, S] if p['norm'] else [D, S]
    return [D, D, S]


def rand_act(r, kind, p, shape):
    if kind == 'state':
        a = np.stack([r.uniform(-40, 40, shape), r.uniform(-40, 40, shape), r.uniform(-4, 4, shape), r.uniform(-20, 20, shape), r.uniform(-20, 20, shape)], -1)
    elif kind == 'bike':
        m = np.array([1.0, 1.0]) if p['norm'] else np.array([p['maxacc'] / D, p['maxsteer'] / S])
        a = r.uniform(-1, 1, shape + (2,)) * m * r.choice([0.3, 1.0, 1.0, 2.5], shape + (1,))
        a = np.where(r.rand(*shape, 1) < 0.1, np.sign(a) * m, a)
    else:
        a = np.stack([r.uniform(-6, 6, shape), r.uniform(-6, 6, shape), r.uniform(-3.2, 3.2, shape)], -1)
    return a.astype(np.float32)


def scaled(a, sc):
    return [wx.fx(np.asarray(v), s) for v, s in zip(a, sc)]


def out_pose(t, ix):
    return [wx.fx(np.asarray(t[f])[ix], s) for f, s in (('x', D), ('y', D), ('yaw', S), ('vel_x', D), ('vel_y', D))]


_PICK = [0]


def pick_t(r, T):
    """The last transition, the first, then random ones, in turn."""
    _PICK[0] += 1
    return [T - 2, 0, int(r.randint(0, T - 1))][_PICK[0] % 3]


def chunked(ev, n=25):
    return [dict(ev=ev[i:i + n]) for i in range(0, len(ev), n)]


def fwd_events(c, r, kinds, nparam, shapes):
    import jax, jax.numpy as jnp
    from waymax import datatypes as dt
    ev = []
    for kind in kinds:
        for j in range(nparam):
            p = params(r, kind, j)
            m = c.guard('construct', model, kind, p)
            for shape in shapes:
                d = rand_pose(r, shape + (1,))
                a = rand_act(r, kind, p, shape)
                av = r.rand(*shape, 1) < 0.8
                traj = dt.Trajectory(**{k: jnp.asarray(v) for k, v in d.items()})
                act = dt.Action(data=jnp.asarray(a), valid=jnp.asarray(av))
                u = c.guard(f'{kind}.compute_update', m.compute_update, act, traj)
                u = dict(x=np.asarray(u.x), y=np.asarray(u.y), yaw=np.asarray(u.yaw), vel_x=np.asarray(u.vel_x), vel_y=np.asarray(u.vel_y), valid=np.asarray(u.valid))
                if u['x'].shape != shape + (1,):
                    c.fail(f'fwd.{kind}.shape', dict(got=u['x'].shape, want=shape + (1,)))
                    continue
                for ix in np.ndindex(*shape):
                    ev.append(dict(op='fwd', kind=kind, via='compute_update', p=p, cur=cur_of(d, ix + (0,)), act=scaled(a[ix], act_scale(kind, p)), av=int(av[ix + (0,)]),
                                   out=out_pose(u, ix + (0,)), valid=int(u['valid'][ix + (0,)])))
                # the same through the public forward() on a whole trajectory
                T = 5
                t = pick_t(r, T)
                full = rand_pose(r, shape + (T,))
                ref = rand_pose(r, shape + (T,))
                full['valid'][..., t] = True
                ft = dt.Trajectory(**{k: jnp.asarray(v) for k, v in full.items()})
                rt = dt.Trajectory(**{k: jnp.asarray(v) for k, v in ref.items()})
                o = c.guard(f'{kind}.forward', lambda: m.forward(action=act, trajectory=ft, reference_trajectory=rt, is_controlled=jnp.ones(shape, bool), timestep=t))
                o = {f: np.asarray(getattr(o, f)) for f in ('x', 'y', 'yaw', 'vel_x', 'vel_y', 'valid')}
                for ix in np.ndindex(*shape):
                    ev.append(dict(op='fwd', kind=kind, via='forward', p=p, cur=cur_of(full, ix + (t,)), act=scaled(a[ix], act_scale(kind, p)), av=int(av[ix + (0,)]),
                                   out=out_pose(o, ix + (t + 1,)), valid=int(o['valid'][ix + (t + 1,)])))
    return ev


def inv_events(c, r, kinds, nparam, shapes):
    import jax, jax.numpy as jnp
    from waymax import datatypes as dt
    ev = []
    for kind in kinds:
        for j in range(nparam):
            p = params(r, kind, j)
            m = c.guard('construct', model, kind, p)
            spec = m.action_spec()
            nd = len(act_scale(kind, p))
            lo = [-OFFB] * nd if kind == 'state' else [wx.fx(v, s) for v, s in zip(np.asarray(spec.minimum), act_scale(kind, p))]
            hi = [OFFB] * nd if kind == 'state' else [wx.fx(v, s) for v, s in zip(np.asarray(spec.maximum), act_scale(kind, p))]
            # declared bounds must be the configured ones
            wantb = {'state': [OFFB] * 5, 'global': [p['maxdx'], p['maxdy'], p['maxdyaw']], 'bike': [S, S] if p['norm'] else [p['maxacc'], p['maxsteer']]}
            wantb['local'] = wantb['global']
            if any(abs(h - w) > 3 or abs(l + w) > 3 for h, l, w in zip(hi, lo, wantb[kind])):
                c.fail(f'inv.{kind}.declared_bounds', dict(lo=lo, hi=hi, want=wantb[kind]))
            for shape in shapes:
                T = 6
                log = rand_pose(r, shape + (T,))
                # small motions most of the time so that round trips are feasible
                style = r.randint(3)
                if style:
                    for t in range(1, T):
                        if kind == 'bike':
                            bp = dict(p, norm=0)
                            prev = {k: v[..., t - 1:t] for k, v in log.items()}
                            al = np.hypot(prev['vel_x'], prev['vel_y'])
                            if t == 1:
                                al = (r.uniform(1, 15, al.shape) * np.where(r.rand(*al.shape) < 0.3, 0.1, 1)).astype(np.float32)
                            log['vel_x'][..., t - 1] = (al * np.cos(prev['yaw']))[..., 0]
                            log['vel_y'][..., t - 1] = (al * np.sin(prev['yaw']))[..., 0]
                            prev = {k: v[..., t - 1:t] for k, v in log.items()}
                            a = rand_act(r, 'bike', bp, shape) * 0.5
                            bm = model('bike', bp)
                            u = bm.compute_update(dt.Action(data=jnp.asarray(a), valid=jnp.ones(shape + (1,), bool)), dt.Trajectory(**{k: jnp.asarray(v) for k, v in prev.items()}))
                            for f in ('x', 'y', 'yaw', 'vel_x', 'vel_y'):
                                log[f][..., t] = np.asarray(getattr(u, f))[..., 0]
                        else:
                            for f, s in (('x', 3), ('y', 3), ('yaw', 0.4)):
                                log[f][..., t] = log[f][..., t - 1] + r.uniform(-s, s, shape)
                            if style == 2:
                                log['yaw'] = ((log['yaw'] + np.pi) % (2 * np.pi) - np.pi).astype(np.float32)
                traj = dt.Trajectory(**{k: jnp.asarray(v) for k, v in log.items()})
                meta = dt.ObjectMetadata(ids=jnp.zeros(shape, jnp.int32), object_types=jnp.ones(shape, jnp.int32), is_sdc=jnp.zeros(shape, bool).at[..., 0].set(True),
                                         is_modeled=jnp.zeros(shape, bool), is_valid=jnp.ones(shape, bool), objects_of_interest=jnp.zeros(shape, bool), is_controlled=jnp.zeros(shape, bool))
                t = pick_t(r, T)
                a = c.guard(f'{kind}.inverse', m.inverse, traj, meta, t)
                data, valid = np.asarray(a.data), np.asarray(a.valid)
                if data.shape != shape + (nd,) or valid.shape != shape + (1,):
                    c.fail(f'inv.{kind}.shape', dict(data=data.shape, valid=valid.shape))
                    continue
                o = c.guard(f'{kind}.forward', lambda: m.forward(action=a, trajectory=traj, reference_trajectory=traj, is_controlled=jnp.ones(shape, bool), timestep=t))
                o = {f: np.asarray(getattr(o, f)) for f in ('x', 'y', 'yaw', 'vel_x', 'vel_y', 'valid')}
                for ix in np.ndindex(*shape):
                    cur, nxt = cur_of(log, ix + (t,)), cur_of(log, ix + (t + 1,))
                    ev.append(dict(op='inv', kind=kind, p=p, cur=cur, nxt=nxt, out=scaled(data[ix], act_scale(kind, p)), valid=int(valid[ix + (0,)]), lo=lo, hi=hi))
                    ev.append(dict(op='round', kind=kind, p=p, cur=cur, nxt=nxt, out=out_pose(o, ix + (t + 1,)), valid=int(o['valid'][ix + (t + 1,)])))
    return ev


OFFB = wx.OFF


def run_c08(c):
    r = c.rng()
    n = 24 if c.thorough else 9
    ev = fwd_events(c, r, ['state', 'global', 'local'], n, [(8,), (3, 5), (2, 2, 4)])
    c.model_check('MCFixed')
    c.judge('TraceDyn', chunked(ev), only=['fwd'])


def run_c09(c):
    r = c.rng()
    n = 48 if c.thorough else 14
    ev = fwd_events(c, r, ['bike'], n, [(10,), (3, 7), (2, 2, 4)])
    c.model_check('MCFixed')
    c.judge('TraceDyn', chunked(ev), only=['fwd'])


def run_c10(c):
    r = c.rng()
    n = 30 if c.thorough else 10
    ev = inv_events(c, r, ['state', 'global', 'local', 'bike'], n, [(10,), (3, 7)])
    c.model_check('MCFixed')
    path = chunked(ev)
    c.judge('TraceDyn', path, only=['inv', 'round'])


# ------------------------------------------------- C11, C12 discretised models
GS = 100000


def run_c11(c):
    import jax, jax.numpy as jnp
    from waymax.dynamics import discretizer as dz
    r = c.rng()
    res = c.model_check('MCGrid', min_states=500)
    # every cell of every grid of the model, in the real code
    by = {}
    for m in res.msgs:
        by.setdefault(tuple(m['b']), {})[m['k']] = m['a']
    bl, bh = [-600000, -314159, 50000], [600000, 314159, 450000]
    bad = 0
    for b, cells in sorted(by.items()):
        n = len(b)
        d = c.guard('Discretizer', dz.Discretizer, jnp.asarray(np.array(bl[:n]) / GS, jnp.float32), jnp.asarray(np.array(bh[:n]) / GS, jnp.float32), jnp.asarray(b))
        ids = np.minimum(np.arange(128), len(cells) - 1)     # padded: one array shape for every grid
        a = c.guard('make_continuous', d.make_continuous, jnp.asarray(ids[:, None]))
        back = np.asarray(c.guard('discretize', d.discretize, a))
        want = np.array([cells[k] for k in ids])
        err = np.abs(np.asarray(a, np.float64) * GS - want).max() if np.shape(a) == want.shape else np.inf
        if err > 8 or back.shape != (128, 1) or (back[:, 0] != ids).any():
            bad += 1
            if bad <= 3:
                c.fail('replay.grid', dict(bins=b, err=float(err), back=back.ravel()[:40].tolist()))
    c.traces += len(by)
    c.extra['model_behaviours_replayed_in_impl'] = len(res.msgs)
    c.log(f'replayed {len(res.msgs)} cells of {len(by)} grids')
    # larger grids, arbitrary bounds, continuous values, batch shapes
    traces = []
    for j in range(14 if not c.thorough else 120):
        n = int(r.randint(1, 5))
        bins = [int(x) for x in r.randint(1, [64, 24, 9, 6][n - 1], n)]
        if j % 4 == 3:      # fine grids
            bins = [[int(r.randint(1500, 5000))], [int(r.randint(130, 400)), int(r.randint(130, 300))], [int(r.randint(2049, 4000)), 3], [4, 3, 2, 700]][(j // 4) % 4]
            n = len(bins)
        lo = r.randint(-9 * GS, 5 * GS, n)
        hi = lo + r.randint(GS // 4, 10 * GS, n)
        d = c.guard('Discretizer', dz.Discretizer, jnp.asarray(lo / GS, jnp.float32), jnp.asarray(hi / GS, jnp.float32), [jnp.asarray, np.array][j % 2](bins))
        g = dict(lo=lo.tolist(), hi=hi.tolist(), bins=bins)
        tot = int(np.prod(np.array(bins) + 1))
        ev = []
        J = jax.jit if j % 3 == 0 else (lambda f: f)
        dec, enc = J(d.make_continuous), J(d.discretize)
        a = np.asarray(c.guard('make_continuous', dec, jnp.arange(tot)[:, None]))
        back = np.asarray(c.guard('discretize', enc, jnp.asarray(a)))
        ev.append(dict(op='all', n=len(a), distinct=len({tuple(x) for x in a.tolist()})))
        for k in sorted(set(r.randint(0, tot, 24).tolist()) | {0, tot - 1}):
            ev.append(dict(op='cell', k=k, a=wx.fx(a[k], GS), back=int(back[k, 0])))
        shape = [(30,), (5, 6), (2, 3, 5), ()][j % 4]
        k2 = r.randint(0, tot, shape + (1,))
        a2 = np.asarray(c.guard('make_continuous', dec, jnp.asarray(k2)))
        b2 = np.asarray(c.guard('discretize', enc, jnp.asarray(a2)))
        if a2.shape != shape + (n,) or b2.shape != shape + (1,):
            c.fail('grid.shape', dict(got=[a2.shape, b2.shape], shape=shape))
            continue
        for ix in np.ndindex(*shape):
            ev.append(dict(op='cell', k=int(k2[ix + (0,)]), a=wx.fx(a2[ix], GS), back=int(b2[ix + (0,)])))
        span = (hi - lo) / GS
        v = (lo / GS + span * r.uniform(-0.7, 1.7, shape + (n,))).astype(np.float32)
        far = r.rand(*v.shape) < 0.05
        v = np.where(far, np.sign(v) * 1e4, v).astype(np.float32)
        kk = np.asarray(c.guard('discretize', enc, jnp.asarray(v)))
        for ix in np.ndindex(*shape):
            ev.append(dict(op='encode', v=[int(x) for x in np.rint(np.clip(v[ix].astype(np.float64) * GS, -1e8, 1e8))], k=int(kk[ix + (0,)])))
        traces += [dict(t, g=g, p={}, kind='none') for t in chunked(ev)]
    c.judge('TraceGrid', traces, only=['grid'])


def grid_of(kind, p, bins):
    hi = {'global': [p['maxdx'], p['maxdy'], p['maxdyaw']], 'bike': [S, S] if p['norm'] else [p['maxacc'], p['maxsteer']]}
    hi['local'] = hi['global']
    return dict(lo=[-x for x in hi[kind]], hi=hi[kind], bins=[int(b) for b in bins])


def run_c12(c):
    import jax, jax.numpy as jnp
    from waymax import datatypes as dt, dynamics
    r = c.rng()
    c.model_check('MCGrid', min_states=500)
    traces = []
    for j in range(9 if not c.thorough else 54):
        kind = ['global', 'local', 'bike'][j % 3]
        p = params(r, kind, j + j // 3)
        search = (j // 3) % 2 == 1
        nd = 2 if kind == 'bike' else 3
        bins = r.randint(1, 6 if search else 12, nd) if nd == 2 else r.randint(1, 4 if search else 8, nd)
        if nd == 3 and search:
            bins[2] = 2 * r.randint(1, 3)
        p.setdefault('maxdx', 60000), p.setdefault('maxdy', 60000)
        wrapped = model(kind, p)
        m = c.guard('DiscreteActionSpaceWrapper', dynamics.DiscreteActionSpaceWrapper, wrapped, [jnp.asarray, np.asarray][j % 2](bins), bin_inverse=not search)
        g = grid_of(kind, p, bins)
        tot = int(np.prod(bins + 1))
        asc = act_scale(kind, p)
        ev = []
        shapes = [(8,), (2, 4)] if not c.thorough else [(8,), (2, 4), (2, 2, 3)]
        for shape in shapes[(j % 2):][:1] if not c.thorough else shapes:
            T = 5
            # forward
            full = rand_pose(r, shape + (T,))
            t = pick_t(r, T)
            k = r.randint(0, tot, shape + (1,)).astype(np.int32)
            av = r.rand(*shape, 1) < 0.8
            traj = dt.Trajectory(**{f: jnp.asarray(v) for f, v in full.items()})
            act = dt.Action(data=jnp.asarray(k), valid=jnp.asarray(av))
            one = jax.tree_util.tree_map(lambda x: x[..., t:t + 1], traj)
            u = c.guard('discrete compute_update', m.compute_update, act, one)
            u = {f: np.asarray(getattr(u, f)) for f in ('x', 'y', 'yaw', 'vel_x', 'vel_y', 'valid')}
            ref = dt.Trajectory(**{f: jnp.asarray(v) for f, v in rand_pose(r, shape + (T,)).items()})
            o = c.guard('discrete forward', lambda: m.forward(action=act, trajectory=traj, reference_trajectory=ref, is_controlled=jnp.ones(shape, bool), timestep=t))
            o = {f: np.asarray(getattr(o, f)) for f in ('x', 'y', 'yaw', 'vel_x', 'vel_y', 'valid')}
            if u['x'].shape != shape + (1,):
                c.fail('act.shape', dict(got=u['x'].shape))
                continue
            for ix in np.ndindex(*shape):
                ev.append(dict(op='act', via='update', cur=cur_of(full, ix + (t,)), k=int(k[ix + (0,)]), av=int(av[ix + (0,)]), out=out_pose(u, ix + (0,)), valid=int(u['valid'][ix + (0,)])))
                if full['valid'][ix + (t,)]:
                    ev.append(dict(op='act', via='forward', cur=cur_of(full, ix + (t,)), k=int(k[ix + (0,)]), av=1, out=out_pose(o, ix + (t + 1,)), valid=1))
            # inference: the log mostly moves by about one grid action
            log = rand_pose(r, shape + (T,))
            for f in ('length', 'width', 'height'):
                log[f][...] = log[f][..., :1]
            log['length'] *= np.float32(r.choice([1, 1, 2.4]))
            for q in range(1, T):
                prev = dt.Trajectory(**{f: jnp.asarray(v[..., q - 1:q]) for f, v in log.items()})
                spec = np.asarray(wrapped.action_spec().maximum)
                a = (r.uniform(-1.1, 1.1, shape + (nd,)) * spec).astype(np.float32)
                nx = wrapped.compute_update(dt.Action(data=jnp.asarray(a), valid=jnp.ones(shape + (1,), bool)), prev)
                for f in ('x', 'y', 'yaw', 'vel_x', 'vel_y'):
                    log[f][..., q] = np.asarray(getattr(nx, f))[..., 0]
                off = r.rand(*shape) < 0.4     # the object moved in a way no grid action reproduces
                for f, a in (('x', 1.0), ('y', 1.0), ('yaw', 0.8)):
                    log[f][..., q] += (off * r.uniform(-a, a, shape)).astype(np.float32)
                cut = r.rand(*shape) < 0.5     # recorded headings lie in [-pi, pi)
                log['yaw'][..., q] = np.where(cut, (log['yaw'][..., q] + np.pi) % (2 * np.pi) - np.pi, log['yaw'][..., q])
            traj = dt.Trajectory(**{f: jnp.asarray(v) for f, v in log.items()})
            sdc = np.zeros(shape, bool)
            sdc[..., r.randint(shape[-1])] = True
            meta = dt.ObjectMetadata(ids=jnp.zeros(shape, jnp.int32), object_types=jnp.ones(shape, jnp.int32), is_sdc=jnp.asarray(sdc), is_modeled=jnp.zeros(shape, bool),
                                     is_valid=jnp.ones(shape, bool), objects_of_interest=jnp.zeros(shape, bool), is_controlled=jnp.zeros(shape, bool))
            t = pick_t(r, T)
            ia = c.guard('discrete inverse', m.inverse, traj, meta, t)
            kd, vd = np.asarray(ia.data), np.asarray(ia.valid)
            if kd.shape != shape + (1,) or vd.shape != shape + (1,):
                c.fail('inv.shape', dict(got=[kd.shape, vd.shape]))
                continue
            ca = c.guard('wrapped inverse', wrapped.inverse, traj, meta, t)
            cd, cv = np.asarray(ca.data), np.asarray(ca.valid)
            for ix in np.ndindex(*shape):
                e = dict(k=int(kd[ix + (0,)]), valid=int(vd[ix + (0,)]))
                if search:
                    ev.append(dict(e, op='search', cur=cur_of(log, ix + (t,)), nxt=cur_of(log, ix + (t + 1,)), len=wx.fx(log['length'][ix + (t,)], D), wid=wx.fx(log['width'][ix + (t,)], D)))
                else:
                    ev.append(dict(e, op='bin', v=scaled(cd[ix], asc), cvalid=int(cv[ix + (0,)])))
        traces += [dict(t_, g=g, p=p, kind=kind) for t_ in chunked(ev, 8)]
    c.judge('TraceGrid', traces, only=['act', 'bin', 'search'])
