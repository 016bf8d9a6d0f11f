"""Copied beside each demo: builds a small scenario without any dataset."""
import os, sys
os.environ['JAX_PLATFORMS'] = 'cpu'
os.environ['TF_CPP_MIN_LOG_LEVEL'] = '3'
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import numpy as np
import jax, jax.numpy as jnp
from waymax import config as cfg, datatypes as dt, dynamics, env as wenv, metrics, agents
from waymax.agents import actor_core
from waymax.datatypes import observation as obs_lib


def traj(N, T, **kw):
    """Objects drive along +x at 10 m/s, one lane (4 m) apart."""
    t = np.arange(T)[None] * np.ones((N, 1))
    d = dict(x=t * 1.0, y=np.arange(N)[:, None] * 4.0 * np.ones((1, T)), z=np.zeros((N, T)),
             vel_x=np.full((N, T), 10.0), vel_y=np.zeros((N, T)), yaw=np.zeros((N, T)),
             valid=np.ones((N, T), bool), timestamp_micros=t * 100000,
             length=np.full((N, T), 4.0), width=np.full((N, T), 2.0), height=np.full((N, T), 1.5))
    d.update({k: np.asarray(v) for k, v in kw.items()})
    ty = dict(valid=bool, timestamp_micros=np.int32)
    return dt.Trajectory(**{k: jnp.asarray(np.broadcast_to(v, (N, T)).astype(ty.get(k, np.float32))) for k, v in d.items()})


def meta(N, sdc=0, **kw):
    d = dict(ids=np.arange(N), object_types=np.ones(N), is_sdc=np.arange(N) == sdc, is_modeled=np.ones(N),
             is_valid=np.ones(N), objects_of_interest=np.zeros(N), is_controlled=np.ones(N))
    d.update(kw)
    ty = dict(ids=np.int32, object_types=np.int32)
    return dt.ObjectMetadata(**{k: jnp.asarray(np.asarray(v).astype(ty.get(k, bool))) for k, v in d.items()})


def lights(L, T, **kw):
    d = dict(x=np.zeros((L, T)), y=np.zeros((L, T)), z=np.zeros((L, T)), state=np.zeros((L, T)), lane_ids=np.zeros((L, T)), valid=np.ones((L, T)))
    d.update(kw)
    ty = dict(state=np.int32, lane_ids=np.int32, valid=bool)
    return dt.TrafficLights(**{k: jnp.asarray(np.asarray(v).astype(ty.get(k, np.float32))) for k, v in d.items()})


def road(xy, types=None, ids=None, dirs=None, valid=None):
    xy = np.asarray(xy, np.float32)
    P = len(xy)
    dirs = np.zeros((P, 2)) if dirs is None else np.asarray(dirs)
    f = lambda v: jnp.asarray(np.asarray(v, np.float32))
    return dt.RoadgraphPoints(x=f(xy[:, 0]), y=f(xy[:, 1]), z=f(np.zeros(P)), dir_x=f(dirs[:, 0]), dir_y=f(dirs[:, 1]), dir_z=f(np.zeros(P)),
                              types=jnp.asarray(np.full(P, 15) if types is None else np.asarray(types), jnp.int32),
                              ids=jnp.asarray(np.zeros(P) if ids is None else np.asarray(ids), jnp.int32),
                              valid=jnp.asarray(np.ones(P, bool) if valid is None else np.asarray(valid, bool)))


def paths(xy, valid=None, on_route=None, arc=None):
    xy = np.asarray(xy, np.float32)
    M, Q = xy.shape[:2]
    seg = np.linalg.norm(np.diff(xy, axis=1), axis=-1)
    if arc is None:
        arc = np.concatenate([np.zeros((M, 1)), np.cumsum(seg, 1)], 1)
    f = lambda v: jnp.asarray(np.asarray(v, np.float32))
    return dt.Paths(x=f(xy[..., 0]), y=f(xy[..., 1]), z=f(np.zeros((M, Q))), ids=jnp.zeros((M, Q), jnp.int32),
                    valid=jnp.asarray(np.ones((M, Q), bool) if valid is None else np.asarray(valid, bool)), arc_length=f(arc),
                    on_route=jnp.asarray(np.ones((M, 1), bool) if on_route is None else np.asarray(on_route, bool).reshape(M, 1)))


def state(log, md, sim=None, t=0, tl=None, rg=None, ps=None):
    T = log.x.shape[-1]
    return dt.SimulatorState(sim_trajectory=log if sim is None else sim, log_trajectory=log,
                             log_traffic_light=lights(1, T) if tl is None else tl, object_metadata=md, timestep=jnp.asarray(t, jnp.int32),
                             sdc_paths=ps, roadgraph_points=road([[50., 50.]]) if rg is None else rg)


def ecfg(N, **kw):
    kw.setdefault('metrics', cfg.MetricsConfig(metrics_to_run=('log_divergence',)))
    return cfg.EnvironmentConfig(max_num_objects=N, **kw)


def expect(cond, what):
    if not cond:
        print('FAILED:', what)
        sys.exit(1)
    print('ok:', what)
