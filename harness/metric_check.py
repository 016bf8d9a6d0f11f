"""C18-C24: metrics; C26: reward (Metrics.tla, TraceMetrics.tla); C25: registry."""
import numpy as np
import wx, scen
from wx import fx
D, S, U = 10000, 1000000, 200
N, T, P, M, Q = 5, 4, 22, 4, 6


def chunked(ev, n=12):
    return [dict(ev=ev[i:i + n]) for i in range(0, len(ev), n)]


# ------------------------------------------------------------- scenario parts
def crowd(r, N, T):
    """Trajectories in which boxes cluster, touch, nest and leave stale data."""
    d = scen.rand_traj(r, N, T, span=30)
    style = r.randint(4)
    if style < 3:
        c = r.uniform(-20, 20, 2)
        spread = [2.0, 4.0, 8.0][style]
        d['x'] = (c[0] + r.uniform(-spread, spread, (N, T))).astype(np.float32)
        d['y'] = (c[1] + r.uniform(-spread, spread, (N, T))).astype(np.float32)
    d['yaw'] = r.choice([0, np.pi / 2, np.pi, -np.pi / 2, 0.3], (N, T)).astype(np.float32) if r.rand() < 0.3 else r.uniform(-4, 4, (N, T)).astype(np.float32)
    for f, lo, hi in (('length', 0.5, 7), ('width', 0.3, 3)):
        d[f] = r.uniform(lo, hi, (N, T)).astype(np.float32)
    if r.rand() < 0.2:     # nested / identical boxes
        d['x'][1], d['y'][1], d['yaw'][1] = d['x'][0], d['y'][0], d['yaw'][0]
    d['z'] = r.choice([0.0, 0.5, 4.0], (N, T)).astype(np.float32)
    return d


def edges(r, P, span=22):
    """Road map: a few edge polylines, other features between them, some padding."""
    x, y, z = np.zeros(P), np.zeros(P), np.zeros(P)
    dx, dy = np.zeros(P), np.zeros(P)
    ty, ids, va = np.zeros(P, int), np.zeros(P, int), np.ones(P, bool)
    i, fid = 0, r.randint(1, 50)
    whole = r.rand() < 0.3   # one edge fills the whole map (its last point is not the predecessor of its first)
    while i < P:
        n = P if whole else min(P - i, r.randint(2, 7))
        fid += r.randint(1, 4)
        th = r.uniform(-3.1, 3.1)
        px, py = r.uniform(-span, span, 2)
        pz = r.choice([0.0, 0.0, 4.0])
        t = r.choice([15, 16]) if whole else r.choice([15, 16, 15, 16, 1, 2, 6, 14, 17, 18])
        for j in range(n):
            k = i + j
            x[k], y[k], z[k] = px, py, pz
            ty[k], ids[k] = t, fid
            dx[k], dy[k] = np.cos(th), np.sin(th)
            step = r.uniform(1, 6)
            px, py = px + step * np.cos(th), py + step * np.sin(th)
            th += r.uniform(-0.9, 0.9)
        if r.rand() < 0.2:   # a whole feature may be invalid (padding keeps stale data)
            va[i:i + n] = False
        i += n
    if r.rand() < 0.12:
        va[:] = va & ~np.isin(ty, (15, 16))   # no usable edge at all
    f = lambda a: a.astype(np.float32)
    return dict(x=f(x), y=f(y), z=f(z), dir_x=f(dx), dir_y=f(dy), dir_z=f(0 * z), types=ty.astype(np.int32), ids=ids.astype(np.int32), valid=va)


def route(r, M, Q, around):
    """Route paths near the ego, with arc lengths along each path."""
    d = {k: np.zeros((M, Q), np.float32) for k in ('x', 'y', 'z', 'arc_length')}
    for m in range(M):
        th = r.uniform(-3.1, 3.1)
        off = r.choice([1.0, 4.0, 8.0, 20.0])
        px, py = around + r.uniform(-off, off, 2)
        arc = r.choice([0.0, 0.0, 7.5])
        for j in range(Q):
            d['x'][m, j], d['y'][m, j], d['arc_length'][m, j] = px, py, arc
            step = r.randint(1, 8) / 2
            px, py, arc = px + step * np.cos(th), py + step * np.sin(th), arc + step
            th += r.uniform(-0.5, 0.5)
    d['ids'] = r.randint(0, 50, (M, Q)).astype(np.int32)
    style = r.randint(5)
    va = np.ones((M, Q), bool) if style == 0 else r.rand(M, Q) < 0.8
    if style == 1:
        n = r.randint(0, Q + 1, M)
        va = np.arange(Q)[None] < n[:, None]
    if r.rand() < 0.12:
        va[:] = False
    d['valid'] = va
    on = r.rand(M, 1) < 0.6
    if r.rand() < 0.1:
        on[:] = False
    d['on_route'] = on
    # stale values at invalid points: a marker, the origin, on top of the ego, or whatever stood there
    for m in range(M):
        how = r.randint(4)
        if how == 3:
            continue
        for k, a in zip(('x', 'y'), around):
            d[k][m] = np.where(va[m], d[k][m], [-1.0, 0.0, a + r.uniform(-0.5, 0.5)][how])
        d['arc_length'][m] = np.where(va[m], d['arc_length'][m], [-1.0, 0.0, 400.0][how])
    return d


def scenario(r, N=N, T=T, P=P, M=M, Q=Q, sdc=None):
    log = crowd(r, N, T)
    sim = crowd(r, N, T)
    same = r.rand(N, T) < 0.3
    for f in sim:
        sim[f] = np.where(same, log[f], sim[f]).astype(sim[f].dtype)
    meta = scen.rand_meta(r, N, sdc=sdc, valid=log['valid'])
    t = int(r.randint(1, T))
    sdc = int(np.argmax(meta['is_sdc']))
    if r.rand() < 0.85:
        sim['valid'][sdc, t] = True
    ego = np.array([sim['x'][sdc, t], sim['y'][sdc, t]])
    sc = dict(log=log, meta=meta, tl=scen.rand_tl(r, 2, T), rg=edges(r, P), paths=route(r, M, Q, ego))
    if r.rand() < 0.5:   # logged end points near the paths
        for tt in (0, -1):
            m, j = r.randint(M), r.randint(Q)
            log['x'][sdc, tt], log['y'][sdc, tt] = sc['paths']['x'][m, j] + r.uniform(-1, 1), sc['paths']['y'][m, j] + r.uniform(-1, 1)
    # put the map near the objects
    return dict(sc=sc, sim=sim, t=t, sdc=sdc)


def big_scenario(r):
    """A scene of a realistic kind: more objects, steps, map points and paths,
    far from the origin.  Positions are kept relative to the place s['off'], to
    which `evaluate` moves the scene (exactly)."""
    s = scenario(r, 13, 24, 90, 7, 18)
    s['t'] = int(r.randint(11, 24))
    s['off'] = r.randint(-4000, 4000, 2).astype(float)
    for d in (s['sim'], s['sc']['log'], s['sc']['tl'], s['sc']['rg'], s['sc']['paths']):
        for f, o in zip('xy', s['off']):
            d[f] = (d[f] + o).astype(np.float32).astype(float) - o
    return s


def wide_scenario(r, pad=33000):
    """More objects, steps, map points and points per path than a byte (or, for
    the map, sixteen bits) can number.  The map's first points are unused; they
    are left out of what the specification is told (`rgpts`), which it may not
    notice: a point that is not valid plays no part."""
    n, m, q = int(r.randint(129, 140)), [2, 130][r.randint(2)], 134
    s = scenario(r, n, 134, 24, m, q if m == 2 else 3, sdc=int(r.randint(128, n)))
    s['t'] = int(r.randint(128, 134))
    s['sim']['valid'][s['sdc'], s['t']] = True
    if r.rand() < 0.5:      # everything in one heap
        for f in 'xy':
            s['sim'][f] = r.uniform(-1, 1, s['sim'][f].shape).astype(np.float32)
    if pad:
        rg = s['sc']['rg']
        s['pad'] = pad
        s['sc']['rg'] = {k: np.concatenate([np.full(pad, -1 if k in ('ids', 'types') else 0, v.dtype), v]) for k, v in rg.items()}
    if m == 2:      # the ego is somewhere along the path, often beyond its 128th point
        p, k = s['sc']['paths'], int(r.randint(100, q))
        for tr, t in ((s['sim'], s['t']), (s['sc']['log'], 0), (s['sc']['log'], -1)):
            j = r.randint(q) if t == 0 else min(q - 1, k + r.randint(5))
            tr['x'][s['sdc'], t], tr['y'][s['sdc'], t] = p['x'][0, j] + r.uniform(-2, 2), p['y'][0, j] + r.uniform(-2, 2)
    else:           # the nearest path is one of the last
        p = s['sc']['paths']
        for f, o in zip('xy', r.choice([150, -150], 2)):
            p[f][:128] = (p[f][:128] + o).astype(np.float32)
    return s


def boxes(sim, t):
    n = len(sim['x'])
    return [[fx(sim['x'][i, t], D), fx(sim['y'][i, t], D), fx(sim['length'][i, t], D), fx(sim['width'][i, t], D), fx(sim['yaw'][i, t], S), int(sim['valid'][i, t])] for i in range(n)]


def rgpts(rg, pad=0):
    return [[fx(rg['x'][i], U), fx(rg['y'][i], U), fx(rg['z'][i], U), fx(rg['dir_x'][i], 1000), fx(rg['dir_y'][i], 1000), int(rg['types'][i]), int(rg['ids'][i]), int(rg['valid'][i])] for i in range(pad, len(rg['x']))]


def paths(p):
    M, Q = p['x'].shape
    return [dict(on=int(p['on_route'][m, 0]), pts=[[fx(p['x'][m, j], D), fx(p['y'][m, j], D), int(p['valid'][m, j]), fx(p['arc_length'][m, j], 64)] for j in range(Q)]) for m in range(M)]


def xy(tr, i, t):
    return [fx(tr['x'][i, t], D), fx(tr['y'][i, t], D)]


def pose(tr, i, t):
    return dict(x=fx(tr['x'][i, t], D), y=fx(tr['y'][i, t], D), yaw=fx(tr['yaw'][i, t], S), vx=fx(tr['vel_x'][i, t], D), vy=fx(tr['vel_y'][i, t], D), valid=int(tr['valid'][i, t]))


# ------------------------------------------------------------------- recording
def evaluate(c, metric, scs, mode):
    """Runs metric.compute on the scenarios; returns (value, valid) arrays (B, ...)."""
    import jax, jax.numpy as jnp
    if 'off' in scs[0]:
        part = lambda d: dict(d) if isinstance(d, dict) else d
        scs = [dict(s, sc=scen.shift({k: part(v) for k, v in s['sc'].items()}, *s['off']), sim=scen.shift(dict(log=dict(s['sim'])), *s['off'])['log']) for s in scs]
    B = len(scs)
    sc = scen.stack([s['sc'] for s in scs])
    sim = scen.stack([s['sim'] for s in scs])
    ts = np.array([s['t'] for s in scs], np.int32)
    if mode == 'batch0':   # one clock for the whole batch
        st = scen.to_state(sc, sim=sim, timestep=0).replace(timestep=jnp.int32(ts[0]))
        out = c.guard('metric', jax.jit(metric.compute), st)
    elif mode == 'batch':  # one clock per scenario
        st = scen.to_state(sc, sim=sim, timestep=ts)
        out = c.guard('metric', jax.jit(metric.compute), st)
    else:
        st = scen.to_state(sc, sim=sim, timestep=ts)
        out = c.guard('metric', jax.jit(jax.vmap(metric.compute)), st)
    return np.asarray(out.value), np.asarray(out.valid)


def sweep(c, r, make_metric, event, B, rounds, perobj=True, modes=('vmap', 'batch', 'batch0'), gen=scenario):
    ev = []
    for k in range(rounds):
        mode = modes[k % len(modes)]
        scs = [gen(r) for _ in range(B)]
        if mode == 'batch0':
            for s in scs:
                s['t'] = scs[0]['t']
        m = make_metric(k)
        val, va = evaluate(c, m, scs, mode)
        want = (B, len(scs[0]['sim']['x'])) if perobj else (B,)
        if val.shape != want or va.shape != want:
            c.fail('metric.shape', dict(mode=mode, got=[val.shape, va.shape], want=want))
            continue
        for b, s in enumerate(scs):
            e = event(s, val[b], va[b])
            ev += e if isinstance(e, list) else [e]
    return ev


def wide(c, r, cls, event, n, perobj=True, pad=0):
    return [e for k in range(n * (4 if c.thorough else 1)) for e in sweep(c, r, lambda _: cls(), event, 1, 1, perobj=perobj, modes=[('vmap',), ('batch0',)][k % 2], gen=lambda rr: wide_scenario(rr, pad))]


def size(c, quick=60, rounds=3, k=12):
    return (quick * 2, rounds * k) if c.thorough else (quick, rounds)


def run_c18(c):
    from waymax import metrics
    r = c.rng()
    c.model_check('MCMetrics')
    f = lambda s, v, a: dict(op='overlap', boxes=boxes(s['sim'], s['t']), out=fx(v, D), valid=a.astype(int).tolist())
    B, R = size(c, 80, 3)
    ev = sweep(c, r, lambda k: metrics.OverlapMetric(), f, B, R)
    ev += sweep(c, r, lambda k: metrics.OverlapMetric(), f, 12, R, gen=big_scenario)
    ev += wide(c, r, metrics.OverlapMetric, f, 2)
    c.judge('TraceMetrics', chunked(ev), only=['overlap'])


def edge_scenario(r):
    s = scenario(r)
    rg, sim, t = s['sc']['rg'], s['sim'], s['t']
    first = np.flatnonzero(np.concatenate([[True], rg['ids'][1:] != rg['ids'][:-1]]))
    for i in range(N):
        k = r.choice(first) if r.rand() < 0.7 else r.randint(P)
        sim['x'][i, t], sim['y'][i, t] = rg['x'][k] + r.uniform(-1.5, 1.5), rg['y'][k] + r.uniform(-1.5, 1.5)
        sim['z'][i, t] = rg['z'][k]
        sim['length'][i, t], sim['width'][i, t] = r.uniform(0.05, 0.6, 2)
        sim['valid'][i, t] = True
    return s


def run_c19(c):
    from waymax import metrics
    r = c.rng()
    c.model_check('MCMetrics')

    def f(s, v, a):
        sim, t = s['sim'], s['t']
        return dict(op='offroad', boxes=boxes(sim, t), z=fx(sim['z'][:, t], D), rg=rgpts(s['sc']['rg'], s.get('pad', 0)), out=fx(v, D), valid=a.astype(int).tolist())
    B, R = size(c, 60, 3)
    ev = sweep(c, r, lambda k: metrics.OffroadMetric(), f, B, R)
    # small objects close to the first points of the edges
    ev += sweep(c, r, lambda k: metrics.OffroadMetric(), f, B, R, gen=edge_scenario)
    ev += sweep(c, r, lambda k: metrics.OffroadMetric(), f, 8, R, gen=big_scenario)
    ev += wide(c, r, metrics.OffroadMetric, f, 2, pad=33000)
    c.judge('TraceMetrics', chunked(ev), only=['offroad'])


def _ego(s):
    return dict(ego=xy(s['sim'], s['sdc'], s['t']), egovalid=int(s['sim']['valid'][s['sdc'], s['t']]), paths=paths(s['sc']['paths']))


def run_c20(c):
    from waymax import metrics
    r = c.rng()
    f = lambda s, v, a: dict(op='wrongway', out=fx(v, D), valid=int(a), **_ego(s))
    B, R = size(c, 150, 3)
    ev = sweep(c, r, lambda k: metrics.WrongWayMetric(), f, B, R, perobj=False) + sweep(c, r, lambda k: metrics.WrongWayMetric(), f, 20, R, perobj=False, gen=big_scenario)
    ev += wide(c, r, metrics.WrongWayMetric, f, 4, perobj=False)
    c.judge('TraceMetrics', chunked(ev), only=['wrongway'])


def run_c21(c):
    from waymax import metrics
    r = c.rng()
    f = lambda s, v, a: dict(op='progress', out=fx(v, 10000), valid=int(a), start=xy(s['sc']['log'], s['sdc'], 0), end=xy(s['sc']['log'], s['sdc'], -1), **_ego(s))
    B, R = size(c, 150, 3)
    ev = sweep(c, r, lambda k: metrics.ProgressionMetric(), f, B, R, perobj=False) + sweep(c, r, lambda k: metrics.ProgressionMetric(), f, 20, R, perobj=False, gen=big_scenario)
    ev += wide(c, r, metrics.ProgressionMetric, f, 4, perobj=False)
    c.judge('TraceMetrics', chunked(ev), only=['progress'])


def run_c22(c):
    from waymax import metrics
    r = c.rng()
    f = lambda s, v, a: dict(op='offroute', out=fx(v, D), valid=int(a), **_ego(s))
    B, R = size(c, 150, 3)
    ev = sweep(c, r, lambda k: metrics.OffRouteMetric(), f, B, R, perobj=False) + sweep(c, r, lambda k: metrics.OffRouteMetric(), f, 20, R, perobj=False, gen=big_scenario)
    ev += wide(c, r, metrics.OffRouteMetric, f, 4, perobj=False)
    c.judge('TraceMetrics', chunked(ev), only=['offroute'])


def run_c23(c):
    from waymax import metrics
    r = c.rng()

    def f(s, v, a):
        t = s['t']
        g = lambda tr: [xy(tr, i, t) + [int(tr['valid'][i, t])] for i in range(len(s['sim']['x']))]
        return dict(op='logdiv', sim=g(s['sim']), log=g(s['sc']['log']), out=fx(v, D), valid=a.astype(int).tolist())
    def apart(r):
        s = scenario(r)
        for g in 'xy':      # simulated far away from the log
            s['sim'][g] = (s['sim'][g] + r.choice([0, 0, 1, -1], s['sim'][g].shape) * r.choice([300, 1500, 9000])).astype(np.float32)
        return s
    B, R = size(c, 150, 3)
    ev = sweep(c, r, lambda k: metrics.LogDivergenceMetric(), f, B, R) + sweep(c, r, lambda k: metrics.LogDivergenceMetric(), f, 40, 1, gen=apart) + sweep(c, r, lambda k: metrics.LogDivergenceMetric(), f, 20, R, gen=big_scenario)
    ev += wide(c, r, metrics.LogDivergenceMetric, f, 3)
    c.judge('TraceMetrics', chunked(ev), only=['logdiv'])


def kin_scenario(r, p, base=scenario):
    """Consecutive slots near the acceleration and curvature limits."""
    s = base(r)
    sim, t, dt = s['sim'], s['t'], p['dtms'] / 1000
    for i in range(len(sim['x'])):
        s0 = r.uniform(0, 20) if r.rand() < 0.65 else r.uniform(0.3, 1.2)
        yaw = r.uniform(-4, 4)
        a = r.uniform(-1.3, 1.3) * p['maxacc'] / D if r.rand() < 0.8 else r.uniform(-30, 30)
        s1 = max(0.0, s0 + a * dt)
        k = r.uniform(-1.5, 1.5) * p['maxsteer'] / S
        y1 = yaw + k * (s0 * dt + 0.5 * (s1 - s0) * dt)
        sim['yaw'][i, t - 1], sim['vel_x'][i, t - 1], sim['vel_y'][i, t - 1] = yaw, s0 * np.cos(yaw), s0 * np.sin(yaw)
        sim['yaw'][i, t], sim['vel_x'][i, t], sim['vel_y'][i, t] = y1, s1 * np.cos(y1), s1 * np.sin(y1)
        if r.rand() < 0.15:
            sim['yaw'][i, t] = r.uniform(-4, 4)
    s['p'], s['frombike'] = p, np.zeros(len(sim['x']), int)
    return s


def bike_scenario(r, p):
    """Current slot produced from the previous one by the bicycle model."""
    import jax.numpy as jnp
    from waymax import dynamics, datatypes as dt
    s = kin_scenario(r, p)
    sim, t = s['sim'], s['t']
    m = dynamics.InvertibleBicycleModel(dt=p['dtms'] / 1000, max_accel=p['maxacc'] / D, max_steering=p['maxsteer'] / S)
    a = r.uniform(-1.2, 1.2, (N, 2)) * [p['maxacc'] / D, p['maxsteer'] / S]
    prev = {k: v[:, t - 1:t] for k, v in sim.items()}
    u = m.compute_update(dt.Action(data=jnp.asarray(a, jnp.float32), valid=jnp.ones((N, 1), bool)), dt.Trajectory(**{k: jnp.asarray(v) for k, v in prev.items()}))
    for f in ('x', 'y', 'yaw', 'vel_x', 'vel_y'):
        sim[f][:, t] = np.asarray(getattr(u, f))[:, 0]
    s0 = np.hypot(prev['vel_x'][:, 0], prev['vel_y'][:, 0])
    acc = np.clip(a[:, 0], -p['maxacc'] / D, p['maxacc'] / D)
    s['frombike'] = (s0 + acc * p['dtms'] / 1000 > 0.01).astype(int)
    return s


def run_c24(c):
    from waymax.metrics import comfort
    r = c.rng()
    ps = [dict(dtms=100, maxacc=104000, maxsteer=300000), dict(dtms=100, maxacc=60000, maxsteer=200000), dict(dtms=200, maxacc=80000, maxsteer=100000)]
    B, R = size(c, 60, 6)
    ev = []
    for k in range(R):
        p = ps[k % 3]
        mk = lambda _: comfort.KinematicsInfeasibilityMetric() if p is ps[0] else comfort.KinematicsInfeasibilityMetric(dt=p['dtms'] / 1000, max_acc=p['maxacc'] / D, max_steering=p['maxsteer'] / S)
        gen = (lambda rr: bike_scenario(rr, p)) if k % 2 else (lambda rr: kin_scenario(rr, p))

        def f(s, v, a):
            return [dict(op='kin', p=p, cur=pose(s['sim'], i, s['t'] - 1), nxt=pose(s['sim'], i, s['t']), out=fx(v[i], D), valid=int(a[i]), frombike=int(s['frombike'][i])) for i in range(len(v))]
        ev += sweep(c, r, mk, f, B if k % 2 == 0 else max(6, B // 5), 1, modes=('batch0',) if k == 4 else ('vmap',), gen=gen)
        if k in (0, 2):
            ev += sweep(c, r, mk, f, 1, 1, modes=(('vmap',), ('batch0',))[k // 2], gen=lambda rr: kin_scenario(rr, p, lambda q: wide_scenario(q, 0)))
    c.judge('TraceMetrics', chunked(ev, 25), only=['kin'])


# ------------------------------------------------------------ C25: registry
def run_c25(c):
    import jax, jax.numpy as jnp
    from waymax import metrics, config as wc, datatypes as dt, env as wenv, dynamics
    from waymax.metrics import comfort
    r = c.rng()

    class Const(metrics.AbstractMetric):
        def __init__(self, v):
            self.v = v

        def compute(self, state):
            return metrics.MetricResult(value=jnp.full((N,), float(self.v), jnp.float32), valid=jnp.ones((N,), bool))

    s0 = scenario(r)
    st0 = scen.to_state(s0['sc'], sim=s0['sim'], timestep=s0['t'])
    ld = np.asarray(metrics.LogDivergenceMetric().compute(st0).value)
    res = c.model_check('MCRegistry', 'MCRegistry_D4' if c.thorough else 'MCRegistry_D3', min_states=1000)
    n = 0
    builtin_run = 0
    for hid, m in enumerate(res.msgs):
        name = lambda x: x if x == 'log_divergence' else f'h{hid}_{x}'
        got = []
        for o in m['h']:
            if o['op'] == 'register':
                try:
                    metrics.register_metric(name(o['n']), Const(o['v']))
                    out = 'ok'
                except Exception as e:  # noqa
                    out = type(e).__name__
                ok = out == o['out']
            else:
                if 'log_divergence' in o['q']:
                    builtin_run += 1
                try:
                    rs = metrics.run_metrics(st0, wc.MetricsConfig(metrics_to_run=tuple(name(x) for x in o['q'])))
                    out = 'ok'
                except Exception as e:  # noqa
                    out, rs = type(e).__name__, None
                ok = out == o['out']
                if ok and rs is not None:
                    want = {name(k): v for k, v in (o['res'] or {}).items()} if isinstance(o['res'], dict) else {}
                    ok = set(rs) == set(want) and all((np.allclose(np.asarray(rs[k].value), ld, atol=1e-4) if v == 9 else bool((np.asarray(rs[k].value) == v).all())) for k, v in want.items())
                    out = [out, sorted(rs)]
            got.append(out)
            n += 1
            if not ok:
                c.fail('registry.' + o['op'], dict(history=m['h'], got=got))
                break
        known = set(metrics.get_metric_names())
        if any((name(x) in known) != (x in m['names']) for x in ('A', 'B', 'log_divergence')):
            c.fail('registry.names', dict(history=m['h']))
    c.traces += len(res.msgs)
    c.extra['registry_histories_replayed'] = len(res.msgs)
    c.extra['registry_operations_replayed'] = n
    c.log(f'replayed {len(res.msgs)} registry histories, {n} operations')

    # every subset/order of built-in metrics against each metric alone
    single = dict(log_divergence=metrics.LogDivergenceMetric(), overlap=metrics.OverlapMetric(), offroad=metrics.OffroadMetric(),
                  kinematic_infeasibility=comfort.KinematicsInfeasibilityMetric(), sdc_wrongway=metrics.WrongWayMetric(),
                  sdc_progression=metrics.ProgressionMetric(), sdc_off_route=metrics.OffRouteMetric())
    allnames = sorted(single)
    ev = []
    B = 8 if not c.thorough else 40

    def rec(res):
        return dict(value=np.ravel(np.asarray(fx(np.asarray(res.value), 1000))).tolist(), valid=np.ravel(np.asarray(res.valid)).astype(int).tolist())
    for b in range(B):
        s = scenario(r)
        st = scen.to_state(s['sc'], sim=s['sim'], timestep=s['t'])
        alone = {k: rec(m.compute(st)) for k, m in single.items()}
        for _ in range(4):
            k = int(r.randint(0, len(allnames) + 1)) if b else 7
            req = [str(x) for x in r.permutation(allnames)[:k]]
            cfg = wc.MetricsConfig(metrics_to_run=tuple(req))
            via = ['run_metrics', 'env'][r.randint(2)]
            if via == 'env':
                e = wenv.BaseEnvironment(dynamics.StateDynamics(), wc.EnvironmentConfig(max_num_objects=N, init_steps=1, metrics=cfg))
                out = c.guard('env.metrics', e.metrics, st)
            else:
                out = c.guard('run_metrics', metrics.run_metrics, st, cfg)
            ev.append(dict(op='run', via=via, request=req, keys=sorted(out), got={k: rec(v) for k, v in out.items()} or dict(none=0), alone=alone))
        # a scene without ego routes: the requested set in full, or refused
        bare = st.replace(sdc_paths=None)
        for req in [[str(x) for x in r.permutation(allnames)[:int(r.randint(1, 8))]] for _ in range(2)] + [[allnames[b % 7]]]:
            cfg = wc.MetricsConfig(metrics_to_run=tuple(req))
            try:
                out = metrics.run_metrics(bare, cfg)
            except Exception as e:  # noqa
                if not any(q.startswith('sdc_') for q in req):
                    c.fail('run.without_routes', dict(request=req, error=f'{type(e).__name__}: {e}'[:300]))
                continue
            ev.append(dict(op='run', via='no_routes', request=req, keys=sorted(out), got={k: rec(v) for k, v in out.items()} or dict(none=0),
                           alone={k: a for k, a in alone.items() if not k.startswith('sdc_')} or dict(none=0)))
    missing = set(allnames) - set(metrics.get_metric_names())
    if missing:
        c.fail('registry.builtin_missing', dict(missing=sorted(missing)))
    c.judge('TraceRegistry', chunked(ev))


# ------------------------------------------------------------ C26: reward
def run_c26(c):
    import jax, jax.numpy as jnp
    from waymax import metrics, config as wc, datatypes as dt, env as wenv, dynamics
    from waymax import rewards
    r = c.rng()

    def cur(state, f):
        a = getattr(state.sim_trajectory, f)
        return jnp.take_along_axis(a, jnp.broadcast_to(state.timestep[..., None, None] if state.timestep.ndim else state.timestep, a.shape[:-1] + (1,)), -1)[..., 0]

    class Field(metrics.AbstractMetric):
        """Per-object metric: a field of the current slot, valid as the slot is."""
        def __init__(self, f, inv):
            self.f, self.inv = f, inv

        def compute(self, state):
            v = cur(state, 'valid')
            return metrics.MetricResult(value=cur(state, self.f), valid=~v if self.inv else v)

    class Ego(metrics.AbstractMetric):
        """Metric without object dimension: sum over objects of x, valid when the first object is."""
        def compute(self, state):
            return metrics.MetricResult(value=cur(state, 'x')[..., 1], valid=cur(state, 'valid')[..., 0])

    M = dict(m_x=Field('x', 0), m_y=Field('y', 1), m_l=Field('length', 0), ego_x=Ego())
    for k, v in M.items():
        metrics.register_metric('c26_' + k, v)
    ev = []
    rounds = 60 if c.thorough else 10
    for k in range(rounds + 2):
        # the last two rounds: more objects and steps than a byte can number
        n_, t_ = (N, T) if k < rounds else (int(r.randint(129, 140)), 132)
        names = [str(x) for x in r.permutation(sorted(M))[:[2, 1, 4, 3, 0][k % 5]]]
        w = {n: int(r.randint(-6, 7)) for n in names}
        rc = wc.LinearCombinationRewardConfig(rewards={'c26_' + n: w[n] / 4 for n in names})
        via = ['base', 'compute', 'planning_free', 'compute'][k % 4]
        B = [5, 7, 5][k % 3]       # 5 == number of objects: catches batch/object mix-ups
        mode = ['vmap', 'batch', 'single'][(k // 2) % 3]
        if mode == 'single':
            B = 3
        if k >= rounds:
            B, mode = 2, ['vmap', 'batch'][k - rounds]
        scs = [scen.rand_scenario(r, n_, t_) for _ in range(B)]
        sims = [scen.rand_traj(r, n_, t_) for _ in range(B)]
        ts = r.randint(0 if k < rounds else 128, t_, B)
        st = scen.to_state(scen.stack(scs), sim=scen.stack(sims), timestep=ts)
        cls = ['SDC', 'MODELED', 'VALID'][r.randint(3)]
        enabled = 1
        if via == 'base':
            enabled = int(r.rand() < 0.75)
            e = wenv.BaseEnvironment(dynamics.StateDynamics(), wc.EnvironmentConfig(max_num_objects=n_, init_steps=1, rewards=rc, compute_reward=bool(enabled), controlled_object=wc.ObjectType(cls)))
            mask = {'SDC': 'is_sdc', 'MODELED': 'is_modeled', 'VALID': 'is_valid'}[cls]
            masks = np.stack([s['meta'][mask] for s in scs])
            fn = lambda s, m: e.reward(s, dt.Action(data=jnp.zeros(s.shape + (n_, 5)), valid=jnp.ones(s.shape + (n_, 1), bool)))
        else:
            rew = rewards.LinearCombinationReward(rc)
            masks = r.rand(B, n_) < 0.6
            fn = lambda s, m: rew.compute(s, dt.Action(data=jnp.zeros(s.shape + (n_, 5)), valid=jnp.ones(s.shape + (n_, 1), bool)), m)
        if mode == 'batch':
            out = np.asarray(c.guard('reward', fn, st, jnp.asarray(masks)))
        elif mode == 'vmap':
            out = np.asarray(c.guard('reward', jax.vmap(fn), st, jnp.asarray(masks)))
        else:
            out = np.stack([np.asarray(c.guard('reward', fn, jax.tree_util.tree_map(jnp.asarray, scen.idx(scen.host(st), b)), jnp.asarray(masks[b]))) for b in range(B)])
        if out.shape != (B, n_):
            c.fail('reward.shape', dict(via=via, mode=mode, got=out.shape, want=(B, n_)))
            continue
        for b in range(B):
            sl = {f: sims[b][f][:, ts[b]] for f in ('x', 'y', 'length', 'valid')}
            v = sl['valid'].astype(int)
            ms = []
            for n in names:
                if n == 'ego_x':
                    val, va = np.repeat(sl['x'][1], n_), np.repeat(v[0], n_)
                else:
                    f, inv = dict(m_x=('x', 0), m_y=('y', 1), m_l=('length', 0))[n]
                    val, va = sl[f], (1 - v if inv else v)
                ms.append(dict(w=w[n], value=wx.q(val, 64), valid=[int(x) for x in va]))
            ev.append(dict(op='reward', via=via, mode=mode, enabled=enabled, ms=ms, ctl=masks[b].astype(int).tolist(), out=wx.q(out[b], 256), dtype=str(out.dtype)))
    # names that no metric carries are rejected when the reward is built
    for bad in ('no_such_metric', 'Overlap', ''):
        try:
            rewards.LinearCombinationReward(wc.LinearCombinationRewardConfig(rewards={'overlap': 1.0, bad: 1.0}))
            c.fail('reward.unknown_accepted', dict(name=bad))
        except ValueError:
            pass
    c.judge('TraceMetrics', chunked(ev), only=['reward'])
