"""C40: the structured data containers (Containers.tla, TraceContainers.tla)."""
import numpy as np
import wx, scen
from wx import fx, q
K, D, S = 64, 10000, 1000000
DT = dict(f32=np.float32, i32=np.int32, bool=np.bool_)


def classes():
    from waymax import datatypes as dt
    from waymax.metrics import abstract_metric
    out = {n: getattr(dt, n) for n in ('ObjectMetadata', 'Trajectory', 'RoadgraphPoints', 'Paths', 'TrafficLights', 'TrajectoryUpdate', 'MaskedArray', 'Action', 'ObjectPose2D')}
    return dict(out, MetricResult=abstract_metric.MetricResult)


# trailing axes of the fields that only share the container's prefix
TAIL = {('ObjectPose2D', 'original_xy'): (2,), ('ObjectPose2D', 'matrix'): (3, 3)}


def field_shape(cls, f, tail, shape, r):
    if tail == 'same':
        return shape
    if tail == 'one':
        return shape[:-1] + (1,)
    if tail == 'free':
        return shape[:-1] + (4,)
    return shape + TAIL.get((cls, f), (int(r.randint(2, 5)),) * r.randint(0, 2))   # never a size of one: deeper flags would fit it


def rand(r, kind, shape):
    if kind == 'bool':
        return r.rand(*shape) < 0.6
    a = r.randint(-40 * K, 40 * K, shape)
    return np.asarray(a / K, np.float32) if kind != 'i32' else np.asarray(a, np.int32)


def table(res):
    """class -> [(field, kind, tail)] as the specification lists them."""
    t = {}
    for m in res.msgs:
        g = m['g']
        t.setdefault(g['cls'], {})[g['field']] = (g['kind'], g['tail'])
    return t


def make(r, cls, C, tab, shape):
    import jax.numpy as jnp
    return C(**{f: jnp.asarray(rand(r, k if k != 'any' else 'f32', field_shape(cls, f, tail, shape, r))) for f, (k, tail) in sorted(tab.items())})


def replay_validate(c, r, res, tab):
    """Every defect TLC enumerates, in the real containers, for several shapes."""
    import jax.numpy as jnp
    Cs = classes()
    n = 0
    for shape in ((3, 4), (2, 3, 4)) + (((5, 2, 3, 4), (1, 1)) if c.thorough else ()):
        ok = {}
        for m in res.msgs:
            g = m['g']
            cls, f, d = g['cls'], g['field'], g['defect']
            if cls not in ok:
                ok[cls] = make(r, cls, Cs[cls], tab[cls], shape)
            x = getattr(ok[cls], f)
            sh = np.shape(x)
            if d == 'longer':
                y = jnp.asarray(rand(r, 'f32', (sh[0] + 1,) + sh[1:])).astype(x.dtype)
            elif d == 'deeper':
                y = x[..., None]
            elif d == 'wide':
                y = jnp.concatenate([x, x], -1)
            elif d.startswith('type.'):
                y = x.astype(DT[d[5:]])
            else:
                y = x
            try:
                ok[cls].replace(**{f: y}).validate()
                out = True
            except (AssertionError, ValueError, TypeError):
                out = False
            n += 1
            if out != m['ok']:
                c.fail(f'validate.{cls}', dict(field=f, defect=d, shape=shape, accepted=out, specified=m['ok']))
    c.traces += n
    c.extra['model_behaviours_replayed_in_impl'] = n
    c.log(f'replayed {n} well-formedness cases')


def view_events(r, tab, n):
    from waymax import datatypes as dt
    Cs = classes()
    ev = []
    views = dict(Trajectory=('xy', 'xyz', 'vel_xy'), RoadgraphPoints=('xy', 'xyz', 'dir_xy', 'dir_xyz'), Paths=('xy', 'xyz'), TrafficLights=('xy',))
    for i in range(n):
        shape = tuple(int(x) for x in r.randint(1, 5, r.randint(2, 5)))
        for cls, names in views.items():
            o = make(r, cls, Cs[cls], tab[cls], shape)
            flat = {f: q(np.asarray(getattr(o, f)).ravel(), K) for f in tab[cls]}
            for v in names:
                a = np.asarray(getattr(o, v))
                ev.append(dict(op='view', name=v, cls=cls, fields=flat, out=q(a.ravel(), K), shape=int(a.shape == shape + (3 if v.endswith('xyz') else 2,))))
            if cls == 'Trajectory':
                fs = [str(x) for x in r.permutation(['x', 'y', 'z', 'vel_x', 'vel_y', 'yaw', 'length', 'width', 'height'])[:r.randint(1, 8)]]
                a = np.asarray(o.stack_fields(fs))
                ev.append(dict(op='stack', names=fs, fields=flat, out=q(a.ravel(), K), shape=int(a.shape == shape + (len(fs),))))
                if r.rand() < 0.5:
                    o = o.replace(vel_x=o.vel_x * 0.02, vel_y=o.vel_y * (0 if r.rand() < 0.3 else 0.02))
                ev.append(dict(op='motion', vx=fx(o.vel_x.ravel(), D), vy=fx(o.vel_y.ravel(), D), ok=fx(o.valid.ravel(), 1), speed=fx(o.speed.ravel(), D), yaw=fx(o.vel_yaw.ravel(), S)))
            sizes = dict(Trajectory=('num_objects', 'num_timesteps'), RoadgraphPoints=('num_points',), Paths=('num_paths', 'num_points_per_path'), TrafficLights=('num_traffic_lights', 'num_timesteps'))[cls]
            ev.append(dict(op='size', cls=cls, out=[int(getattr(o, s)) for s in sizes] + list(o.shape), want=list(shape[-len(sizes):]) + list(shape)))
        m = make(r, 'ObjectMetadata', Cs['ObjectMetadata'], tab['ObjectMetadata'], shape)
        ev.append(dict(op='size', cls='ObjectMetadata', out=[int(m.num_objects)] + list(m.shape), want=[shape[-1]] + list(shape)))
        po = make(r, 'ObjectPose2D', Cs['ObjectPose2D'], tab['ObjectPose2D'], shape)
        ev.append(dict(op='size', cls='ObjectPose2D', out=[int(po.num_objects)] + list(po.shape), want=[shape[-1]] + list(shape)))
        rot, tra = np.asarray(po.rotation_matrix), np.asarray(po.translation_vector)
        ev.append(dict(op='pose', matrix=q(np.asarray(po.matrix).reshape(-1, 9), K), rot=q(rot.reshape(-1, 4), K), tra=q(tra.reshape(-1, 2), K), shape=int(rot.shape == shape + (2, 2) and tra.shape == shape + (2,))))
        u = make(r, 'TrajectoryUpdate', Cs['TrajectoryUpdate'], tab['TrajectoryUpdate'], shape[:-1] + (1,))
        a = u.as_action()
        ev.append(dict(op='view', name='as_action', cls='TrajectoryUpdate', fields={f: q(np.asarray(getattr(u, f)).ravel(), K) for f in tab['TrajectoryUpdate']}, out=q(np.asarray(a.data).ravel(), K),
                       shape=int(a.data.shape == shape[:-1] + (5,) and bool((np.asarray(a.valid) == np.asarray(u.valid)).all()) and a.shape == shape[:-1])))
        t0 = make(r, 'Trajectory', Cs['Trajectory'], tab['Trajectory'], shape)
        t = dt.fill_invalid_trajectory(t0)
        ev.append(dict(op='fill', out={f: q(np.asarray(getattr(t, f)).ravel(), 1)[:40] for f in tab['Trajectory']},
                       shape=int(all(getattr(t, f).shape == shape and getattr(t, f).dtype == getattr(t0, f).dtype for f in tab['Trajectory']))))
        t = Cs['Trajectory'].zeros(shape)
        try:
            t.validate()
            acc = 1
        except AssertionError:
            acc = 0
        ev.append(dict(op='zeros', out=sum((q(np.asarray(getattr(t, f)).ravel(), K)[:6] for f in sorted(tab['Trajectory'])), []), accepted=acc, shape=int(t.shape == shape),
                       dtypes=int(all(getattr(t, f).dtype == DT[k] for f, (k, _) in tab['Trajectory'].items()))))
    return ev


def equal_events(r, tab, n):
    import jax, jax.numpy as jnp
    from waymax import datatypes as dt
    from waymax.env import planning_agent_environment as pae
    Cs = classes()
    ev = []

    def cmp(change, a, b, **kw):
        def go(x, y):
            try:
                return str(bool(x == y))
            except Exception as e:  # noqa
                return type(e).__name__
        ev.append(dict(op='equal', change=change, out=go(a, b), back=go(b, a), **kw))

    def poke(x):
        x = np.array(x)
        i = tuple(int(r.randint(k)) for k in x.shape)
        x[i] = ~x[i] if x.dtype == bool else x[i] + np.asarray(1, x.dtype)
        return jnp.asarray(x)
    copy = lambda t: jax.tree_util.tree_map(lambda x: jnp.asarray(np.array(x)), t)
    for i in range(n):
        shape = ((3, 4), (2, 3, 4), (1, 2))[i % 3]
        for cls in sorted(tab):
            a = make(r, cls, Cs[cls], tab[cls], shape)
            cmp('none', a, copy(a), cls=cls)
            for f in sorted(tab[cls]):
                cmp('value', a, a.replace(**{f: poke(getattr(a, f))}), cls=cls, field=f)
            fl = [f for f in sorted(tab[cls]) if tab[cls][f][0] == 'f32']
            if fl:  # the smallest possible difference
                f = fl[int(r.randint(len(fl)))]
                cmp('value', a, a.replace(**{f: jnp.nextafter(getattr(a, f), jnp.float32(1e9))}), cls=cls, field=f, ulp=1)
            f = sorted(tab[cls])[int(r.randint(len(tab[cls])))]
            x = getattr(a, f)
            cmp('shape', a, a.replace(**{f: jnp.concatenate([x, x], 0)}), cls=cls, field=f)
            cmp('class', a, 3, cls=cls)
            other = sorted(tab)[(sorted(tab).index(cls) + 1 + int(r.randint(len(tab) - 1))) % len(tab)]
            if other != cls:
                cmp('class', a, make(r, other, Cs[other], tab[other], shape), cls=cls, other=other)
        sc = scen.rand_scenario(r, 3, 4, L=2, P=5, M=2, Q=3)
        st = scen.to_state(scen.stack([sc, sc]) if i % 2 else sc, timestep=int(r.randint(3)))
        cmp('none', st, copy(st), cls='SimulatorState')
        cmp('part', st, st.replace(sdc_paths=None), cls='SimulatorState')
        cmp('value', st, st.replace(timestep=st.timestep + 1), cls='SimulatorState')
        for part in ('sim_trajectory', 'log_trajectory', 'log_traffic_light', 'object_metadata', 'sdc_paths', 'roadgraph_points'):
            sub = getattr(st, part)
            f = sorted(dict(sub))[int(r.randint(len(dict(sub))))]
            cmp('value', st, st.replace(**{part: sub.replace(**{f: poke(getattr(sub, f))})}), cls='SimulatorState', field=f'{part}.{f}')
        p = pae.PlanningAgentSimulatorState(**st)
        cmp('class', st, p, cls='SimulatorState', other='PlanningAgentSimulatorState')
        p2 = p.replace(sim_agent_actor_states=[jnp.arange(2)])
        cmp('none', p2, copy(p2), cls='PlanningAgentSimulatorState')
        cmp('value', p2, p2.replace(sim_agent_actor_states=[jnp.arange(2) * 2]), cls='PlanningAgentSimulatorState')
        cmp('part', p2, p, cls='PlanningAgentSimulatorState')
        # well-formedness of a whole state: every part shares the batch shape
        if i % 2:
            for part in ('none', 'sim_trajectory', 'log_trajectory', 'log_traffic_light', 'object_metadata', 'roadgraph_points'):
                cut = lambda x: jnp.concatenate([jnp.asarray(x)] * 2, 0)
                s2 = st.replace(timestep=jnp.broadcast_to(jnp.asarray(st.timestep), st.shape))
                s2 = s2 if part == 'none' else s2.replace(**{part: jax.tree_util.tree_map(cut, getattr(s2, part))})
                try:
                    s2.validate()
                    out = 'ok'
                except (AssertionError, ValueError) as e:
                    out = type(e).__name__
                ev.append(dict(op='state', out=out, defect=part))
    return ev


def obs_events(r, n):
    """Observations: one part at a time with another leading size, rank or type."""
    import jax, jax.numpy as jnp
    from waymax import datatypes as dt
    ev = []
    tm = jax.tree_util.tree_map
    for i in range(n):
        sc = scen.rand_scenario(r, 3, 4, L=2, P=5, M=2, Q=3)
        st = scen.to_state(scen.stack([sc, sc]) if i % 2 else sc, timestep=int(r.randint(3)))
        fn = (dt.sdc_observation_from_state, dt.observation_from_state)[(i // 2) % 2]
        ob = jax.jit(lambda s: fn(s, obs_num_steps=2, roadgraph_top_k=3))(st)
        for part in ('trajectory', 'metadata', 'roadgraph_static_points', 'traffic_lights', 'is_ego', 'pose2d', 'sdc_paths', 'metadata is_ego'):
            x = {f: getattr(ob, f) for f in part.split()}
            if part == 'sdc_paths' and ob.sdc_paths is None:
                continue
            for how, f in (('none', lambda a: a), ('longer', lambda a: jnp.concatenate([a] * 2, 0)), ('deeper', lambda a: a[..., None]), ('type', lambda a: a.astype(jnp.int32))):
                if how == 'type' and part != 'is_ego' or how == 'deeper' and part == 'pose2d':
                    continue
                try:
                    ob.replace(**tm(f, x)).validate()
                    out = 'ok'
                except (AssertionError, ValueError) as e:
                    out = type(e).__name__
                ev.append(dict(op='state', out=out, defect=how, part='obs.' + part))
    return ev


def record_events(c, r, n):
    """What environments and actors hand out: wrapped time steps, rollouts,
    actor outputs, default poses."""
    import jax, jax.numpy as jnp
    from waymax import agents, datatypes as dt, env as wenv, dynamics, config as wc
    from waymax.agents import actor_core
    ev = []
    N = 3
    copy = lambda t: jax.tree_util.tree_map(lambda x: jnp.asarray(np.array(x)), t)

    def state(x):
        try:
            x.validate()
            return 'ok'
        except (AssertionError, ValueError) as e:
            return type(e).__name__

    def eq(a, b):
        try:
            return str(bool(a == b))
        except Exception as e:  # noqa
            return type(e).__name__

    def cmp(change, a, b, **kw):
        ev.append(dict(op='equal', change=change, out=eq(a, b), back=eq(b, a), **kw))
    for i in range(n):
        sc = scen.rand_scenario(r, N, 6, L=2, P=5, M=2, Q=3)
        B = (2,) if i % 2 else ()
        st = scen.to_state(scen.stack([sc, scen.rand_scenario(r, N, 6, L=2, P=5, M=2, Q=3)]) if B else sc, timestep=0)
        model = dynamics.StateDynamics()
        base = wenv.BaseEnvironment(model, wc.EnvironmentConfig(max_num_objects=N, init_steps=2, metrics=wc.MetricsConfig(metrics_to_run=('log_divergence',))))
        bw = wenv.BraxWrapper(base, model, wc.EnvironmentConfig(max_num_objects=N, init_steps=2))
        a = c.guard('brax.reset', bw.reset, st)
        ev.append(dict(op='size', cls='TimeStep', out=list(a.shape), want=list(a.state.shape)))
        cmp('none', a, copy(a), cls='TimeStep')
        for f in ('reward', 'discount'):
            cmp('value', a, a.replace(**{f: getattr(a, f) + 1}), cls='TimeStep', field=f)
        cmp('value', a, a.replace(done=~a.done), cls='TimeStep', field='done')
        cmp('value', a, a.replace(state=a.state.replace(timestep=a.state.timestep + 1)), cls='TimeStep', field='state')
        cmp('part', a, a.replace(info={'x': jnp.zeros(2)}), cls='TimeStep')
        cmp('class', a, a.state, cls='TimeStep')
        # a recorded rollout: every part carries the time axis
        actor = agents.create_expert_actor(model)
        if not B:
            ro = c.guard('rollout', lambda: jax.jit(lambda s, k: wenv.rollout(s, actor, base, k, 2))(st, jax.random.PRNGKey(0)))
            ev.append(dict(op='size', cls='RolloutOutput', out=list(ro.shape), want=[3]))
            one = lambda t: jax.tree_util.tree_map(lambda x: x[:1], t)
            ev.append(dict(op='state', out=state(ro), defect='none', part='RolloutOutput'))
            ev.append(dict(op='state', out=state(ro.replace(reward=ro.reward[:1])), defect='reward', part='RolloutOutput'))
            ev.append(dict(op='state', out=state(ro.replace(action=one(ro.action))), defect='action', part='RolloutOutput'))
        # an actor's output names one flag per object
        s0 = base.reset(st)
        out = c.guard('select_action', actor.select_action, {}, s0, actor.init(jax.random.PRNGKey(1), s0), jax.random.PRNGKey(2))
        ev.append(dict(op='state', out=state(out), defect='none', part='WaymaxActorOutput'))
        ev.append(dict(op='state', out=state(out.replace(is_controlled=out.is_controlled[..., :-1])), defect='is_controlled', part='WaymaxActorOutput'))
        ev.append(dict(op='state', out=state(out.replace(is_controlled=out.is_controlled[..., None])), defect='is_controlled', part='WaymaxActorOutput'))
        nm = f'actor {i}'
        named = actor_core.actor_core_factory(lambda k, s: 0, lambda *x: out, name=nm)
        ev.append(dict(op='size', cls='actor name', out=[len(named.name), int(named.name == nm)], want=[len(nm), 1]))
        # poses are usable unless said otherwise
        shape = tuple(int(x) for x in r.randint(1, 4, i % 3 + 1))
        xy, yaw = jnp.asarray(rand(r, 'f32', shape + (2,))), jnp.asarray(rand(r, 'f32', shape))
        ok = jnp.asarray(rand(r, 'bool', shape))
        for given in (None, ok):
            po = dt.ObjectPose2D.from_center_and_yaw(xy, yaw) if given is None else dt.ObjectPose2D.from_center_and_yaw(xy, yaw, given)
            p2 = dt.ObjectPose2D.from_transformation(po.matrix, po.delta_yaw) if given is None else dt.ObjectPose2D.from_transformation(po.matrix, po.delta_yaw, given)
            want = np.ones(shape, int) if given is None else np.asarray(given, int)
            for p in (po, p2):
                ev.append(dict(op='size', cls='ObjectPose2D.valid', out=fx(np.asarray(p.valid).ravel(), 1), want=want.ravel().tolist()))
            ev.append(dict(op='size', cls='ObjectPose2D.original', out=q(np.asarray(po.original_xy).ravel(), K) + q(np.asarray(po.original_yaw).ravel(), K), want=q(np.asarray(xy).ravel(), K) + q(np.asarray(yaw).ravel(), K)))
        # an observation is valid where its observer is
        fn = (dt.sdc_observation_from_state, dt.observation_from_state)[i % 2]
        kw = dict(coordinate_frame=wc.CoordinateFrame.OBJECT) if i % 2 else {}
        ob = jax.jit(lambda s: fn(s, obs_num_steps=2, roadgraph_top_k=3, **kw))(st)
        tr = st.sim_trajectory
        v = np.asarray(tr.valid)[..., 0]
        if i % 2 == 0:
            v = np.take_along_axis(v, np.argmax(np.asarray(st.object_metadata.is_sdc), -1)[..., None], -1)
        ev.append(dict(op='size', cls='Observation.valid', out=fx(np.asarray(ob.valid).ravel(), 1), want=v.astype(int).ravel().tolist()))
        ev.append(dict(op='size', cls='Observation.batch_dims', out=list(ob.batch_dims) + [len(ob.batch_dims)], want=list(B) + [len(B)]))
    return ev


def mask_events(r, n):
    import jax.numpy as jnp
    Cs = classes()
    ev = []
    for i in range(n):
        shape = tuple(int(x) for x in r.randint(1, 4, r.randint(1, 4)))
        for cls in ('MaskedArray', 'MetricResult'):
            tail = () if cls == 'MetricResult' else tuple(int(x) for x in r.choice([1, 2, 3, shape[-1]], r.randint(0, 3)))
            kind = 'f32' if cls == 'MetricResult' else ('f32', 'i32')[i % 2]
            v = rand(r, kind, shape + tail)
            ok = rand(r, 'bool', shape)
            fill = int(r.randint(-5, 6))
            a = Cs[cls].create_and_validate(jnp.asarray(v), jnp.asarray(ok))
            out = np.asarray(a.masked_value() if i % 3 == 0 else a.masked_value(fill))
            sc = K if kind == 'f32' else 1
            ev.append(dict(op='masked', cls=cls, value=q(v.ravel(), K), valid=fx(ok.ravel(), 1), fill=0 if i % 3 == 0 else fill * sc, k=int(np.prod(tail, dtype=int)), out=q(out.ravel(), K),
                           shape=int(out.shape == v.shape and out.dtype == v.dtype and a.shape == shape)))
    return ev


def vocab_events(r):
    import jax.numpy as jnp
    from waymax import datatypes as dt
    ty = r.randint(-2, 26, (4, 9)).astype(np.int32)
    ty[0] = range(12, 21)
    return [dict(op='edge', types=ty.ravel().tolist(), out=fx(np.asarray(dt.is_road_edge(jnp.asarray(ty))).ravel(), 1))] + \
        [dict(op='enum', name=n, out={m.name: int(m.value) for m in e}) for n, e in (('map', dt.MapElementIds), ('light', dt.TrafficLightStates), ('object', dt.ObjectTypeIds))]


def run_c40(c):
    r = c.rng()
    res = c.model_check('MCContainers', min_states=200)
    tab = table(res)
    replay_validate(c, r, res, tab)
    k = 10 if c.thorough else 1
    ev = view_events(r, tab, 5 * k) + equal_events(r, tab, 3 * k) + obs_events(r, 4) + record_events(c, r, 12 if c.thorough else 4) + mask_events(r, 24 * k) + vocab_events(r)
    c.judge('TraceContainers', [dict(ev=ev[i:i + 20]) for i in range(0, len(ev), 20)])
