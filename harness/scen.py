"""Synthetic lattice scenarios (no dataset is available in the sandbox).

All floats are k/64 with small k, so float32 arithmetic on them is exact where
the code only copies, adds or scales by powers of two.
"""
import numpy as np
import jax, jax.numpy as jnp
import wx

K = 64
FLOATS = ('x', 'y', 'z', 'vel_x', 'vel_y', 'yaw')
SLOT = ('x', 'y', 'z', 'vel_x', 'vel_y', 'yaw', 'valid', 'timestamp_micros', 'length', 'width', 'height')


def rand_traj(r, N, T, span=40, pvalid=0.75, move=True):
    """dict of numpy arrays (N,T) on the 1/64 lattice."""
    d = {}
    def lat(lo, hi, shape):
        return (r.randint(lo * K, hi * K + 1, size=shape) / K).astype(np.float32)
    for f in ('x', 'y'):
        d[f] = lat(-span, span, (N, T))
    d['z'] = lat(-3, 3, (N, T))
    d['vel_x'] = lat(-12, 12, (N, T))
    d['vel_y'] = lat(-12, 12, (N, T))
    d['yaw'] = lat(-3, 3, (N, T))
    mode = r.randint(4)
    if mode == 0:
        v = np.ones((N, T), bool)
    elif mode == 1:
        v = r.rand(N, T) < 0.5
    else:
        v = r.rand(N, T) < pvalid
    d['valid'] = v
    d['timestamp_micros'] = (np.arange(T)[None] * 100000 + r.randint(0, 50, (N, 1)) * 7 + r.randint(0, 5, (N, T))).astype(np.int32)
    for f, lo, hi in (('length', 1, 6), ('width', 1, 3), ('height', 1, 3)):
        d[f] = lat(lo, hi, (N, T))
    # Invalid slots carry stale data of varied kinds: -1 fill, zeros or garbage.
    kind = r.randint(3)
    if kind == 0:
        for f in SLOT:
            if f != 'valid':
                d[f] = np.where(v, d[f], np.asarray(-1, d[f].dtype)).astype(d[f].dtype)
    return d


def rand_meta(r, N, sdc=None, valid=None):
    sdc = r.randint(N) if sdc is None else sdc
    is_sdc = np.zeros(N, bool)
    is_sdc[sdc] = True
    return dict(ids=r.permutation(1000)[:N].astype(np.int32), object_types=r.randint(1, 5, N).astype(np.int32),
                is_sdc=is_sdc, is_modeled=r.rand(N) < 0.5,
                is_valid=(valid.any(-1) if valid is not None else r.rand(N) < 0.7),
                objects_of_interest=r.rand(N) < 0.3, is_controlled=r.rand(N) < 0.5)


def rand_tl(r, L, T):
    return dict(x=(r.randint(-2000, 2000, (L, T)) / K).astype(np.float32), y=(r.randint(-2000, 2000, (L, T)) / K).astype(np.float32),
                z=(r.randint(-200, 200, (L, T)) / K).astype(np.float32), state=r.randint(0, 9, (L, T)).astype(np.int32),
                lane_ids=r.randint(0, 500, (L, T)).astype(np.int32), valid=r.rand(L, T) < 0.7)


def rand_rg(r, P):
    return dict(x=(r.randint(-2500, 2500, P) / K).astype(np.float32), y=(r.randint(-2500, 2500, P) / K).astype(np.float32),
                z=(r.randint(-200, 200, P) / K).astype(np.float32), dir_x=(r.randint(-64, 65, P) / K).astype(np.float32),
                dir_y=(r.randint(-64, 65, P) / K).astype(np.float32), dir_z=np.zeros(P, np.float32),
                types=r.choice([1, 2, 3, 6, 15, 15, 15, 16, 16, 17, 18], P).astype(np.int32), ids=np.sort(r.randint(0, max(2, P // 5), P)).astype(np.int32),
                valid=r.rand(P) < 0.8)


def rand_paths(r, M, Q):
    arc = np.cumsum(r.randint(32, 200, (M, Q)), axis=1) / K
    return dict(x=(r.randint(-2500, 2500, (M, Q)) / K).astype(np.float32), y=(r.randint(-2500, 2500, (M, Q)) / K).astype(np.float32),
                z=(r.randint(-100, 100, (M, Q)) / K).astype(np.float32), ids=r.randint(0, 50, (M, Q)).astype(np.int32),
                valid=r.rand(M, Q) < 0.8, arc_length=(arc - arc[:, :1]).astype(np.float32), on_route=r.rand(M, 1) < 0.6)


def rand_scenario(r, N, T, L=2, P=12, M=2, Q=5, sdc=None, **kw):
    log = rand_traj(r, N, T, **kw)
    return dict(log=log, meta=rand_meta(r, N, sdc=sdc, valid=log['valid']), tl=rand_tl(r, L, T), rg=rand_rg(r, P), paths=rand_paths(r, M, Q))


def shift(sc, dx, dy):
    """The same scene elsewhere (recorded scenes lie kilometres from the origin);
    multiples of 1/64 keep every value exact in float32."""
    for part in ('log', 'tl', 'rg', 'paths'):
        d = sc.get(part)
        if d is not None:
            d['x'], d['y'] = (d['x'] + np.float32(dx)).astype(np.float32), (d['y'] + np.float32(dy)).astype(np.float32)
    return sc


def stack(scs):
    return jax.tree_util.tree_map(lambda *a: np.stack(a), *scs)


def to_state(sc, sim=None, timestep=None):
    from waymax import datatypes as dt
    A = lambda d: {k: jnp.asarray(v) for k, v in d.items()}
    log = dt.Trajectory(**A(sc['log']))
    shape = np.asarray(sc['log']['x']).shape[:-2]
    return dt.SimulatorState(
        sim_trajectory=dt.Trajectory(**A(sim if sim is not None else sc['log'])),
        log_trajectory=log, log_traffic_light=dt.TrafficLights(**A(sc['tl'])),
        object_metadata=dt.ObjectMetadata(**A(sc['meta'])),
        timestep=jnp.asarray(0 if timestep is None else timestep, jnp.int32) * jnp.ones(shape, jnp.int32),
        sdc_paths=dt.Paths(**A(sc['paths'])) if sc.get('paths') is not None else None,
        roadgraph_points=dt.RoadgraphPoints(**A(sc['rg'])) if sc.get('rg') is not None else None)


def slots(traj, k=K):
    """Trajectory (N,T) -> [obj][time] list of 11-int slots."""
    cols = [np.asarray(wx.q(np.asarray(getattr(traj, f) if not isinstance(traj, dict) else traj[f]), k)) for f in SLOT]
    return np.stack(cols, -1).tolist()


def world(state):
    return wx.digest((state.log_traffic_light, state.object_metadata, state.sdc_paths, state.roadgraph_points))


def idx(tree, b):
    return jax.tree_util.tree_map(lambda a: np.asarray(a)[b], tree)


def host(tree):
    return jax.tree_util.tree_map(np.asarray, tree)
