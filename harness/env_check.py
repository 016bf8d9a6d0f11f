"""C07, C13-C17, C38: environments, rollouts and episode wrappers."""
import numpy as np
import wx, scen
from scen import K


def chunked(ev, n=12):
    return [dict(ev=ev[i:i + n]) for i in range(0, len(ev), n)]


# ----------------------------------------------------------------- sim agents
def make_agent(i, N, L):
    """Sim agent number i; its behaviour table is row i of state.sdc_paths.ids:
    [shift, inc, c0, claims (L x N)].  params: dict(px, py)."""
    import jax.numpy as jnp
    from waymax import datatypes as dt
    from waymax.agents import actor_core

    def row(state):
        return state.sdc_paths.ids[..., i, :]

    def now(f, state):
        return jnp.take_along_axis(f, jnp.broadcast_to(jnp.asarray(state.timestep)[..., None, None], f.shape[:-1] + (1,)), axis=-1)[..., 0]

    def init(rng, state):
        t = jnp.asarray(state.timestep)
        v = now(state.sim_trajectory.valid, state)[..., 0].astype(jnp.int32)
        return row(state)[..., 2] + t + v

    def select(params, state, actor_state, rng):
        st = state.sim_trajectory
        tab = row(state)
        shift, inc = tab[..., 0], tab[..., 1]
        claims = tab[..., 3:].reshape(tab.shape[:-1] + (L, N))
        donor = (jnp.arange(N) + shift[..., None]) % N
        get = lambda f: jnp.take_along_axis(now(getattr(st, f), state), donor, axis=-1)
        c = actor_state
        cf = 0.25 * c[..., None].astype(jnp.float32)
        data = jnp.stack([get('x') + params['px'], get('y') + cf + params['py'], now(st.yaw, state) + params['px'],
                          get('vel_x'), get('vel_y') + cf], axis=-1)
        k = jnp.broadcast_to((c % L)[..., None, None], claims.shape[:-2] + (1, N))
        ctl = jnp.take_along_axis(claims, k, axis=-2)[..., 0, :] == 1
        # unclaimed entries carry junk: they must not matter
        data = jnp.where(ctl[..., None], data, 7.5)
        v0 = now(st.valid, state)[..., 0].astype(jnp.int32)
        return actor_core.WaymaxActorOutput(actor_state=c + inc + v0, action=dt.Action(data=data, valid=ctl[..., None]), is_controlled=ctl)
    return actor_core.actor_core_factory(init, select, name=f'wx{i}')


def boxes0(r, log, style):
    """Boxes of the first recorded slot: clearly apart or clearly overlapping."""
    N = log['x'].shape[0]
    for o in range(N):
        log['x'][o, 0], log['y'][o, 0] = 30.0 * o, -20.0 * o
    log['valid'][:, 0] = True
    for f, lo, hi in (('length', 1, 6), ('width', 1, 3)):
        log[f][:, 0] = r.randint(lo * K, hi * K, N) / K
    if style:
        log['yaw'][:, 0] = (r.randint(-3 * K, 3 * K, N) / K).astype(np.float32)
    for a, b in zip(range(0, N - 1), range(1, N)):
        if r.rand() < 0.3:
            # b's centre well inside or well outside a
            th, L, W = float(log['yaw'][a, 0]), float(log['length'][a, 0]), float(log['width'][a, 0])
            u, v = r.choice([0.3, -0.3, 0.1]) * L, r.choice([0.3, -0.2]) * W
            if r.rand() < 0.4:
                u, v = 0.0, (W + float(log['width'][b, 0])) / 2 + 0.5
                log['yaw'][b, 0] = log['yaw'][a, 0]     # parallel, half a metre apart
            x = float(log['x'][a, 0]) + u * np.cos(th) - v * np.sin(th)
            y = float(log['y'][a, 0]) + u * np.sin(th) + v * np.cos(th)
            log['x'][b, 0], log['y'][b, 0] = np.rint(x * K) / K, np.rint(y * K) / K
    return log


def plan_scenario(r, N, T, A, L, ego):
    sc = scen.rand_scenario(r, N, T, sdc=ego)
    boxes0(r, sc['log'], r.randint(2))
    q = 3 + L * N
    ids = np.zeros((max(A, 1), q), np.int32)
    for a in range(A):
        ids[a, 0], ids[a, 1], ids[a, 2] = r.randint(0, N), r.randint(0, 3), r.randint(0, 4)
        cl = (r.rand(L, N) < r.choice([0.4, 0.8])).astype(np.int32)
        cl[:, ego] = 0
        ids[a, 3:] = cl.ravel()
    z = np.zeros((max(A, 1), q), np.float32)
    sc['paths'] = dict(x=z, y=z, z=z, ids=ids, valid=z > 1, arc_length=z, on_route=np.zeros((max(A, 1), 1), bool))
    return sc


def agents_tla(sc, A, L, N, params):
    ids = sc['paths']['ids']
    return [dict(shift=int(ids[a, 0]), inc=int(ids[a, 1]), c0=int(ids[a, 2]), px=int(params[a]['px'] * K), py=int(params[a]['py'] * K),
                 claims=ids[a, 3:].reshape(L, N).tolist()) for a in range(A)]


def plan_env(cfg, agents, params, **kw):
    from waymax import config as wc, dynamics
    from waymax.env import planning_agent_environment as pae
    m = cfg['model']
    dyn = dynamics.StateDynamics() if m['kind'] == 'state' else dynamics.DeltaGlobal(dt=1.0 / m['dtinv'], max_dx=1e3, max_dy=1e3)
    ec = wc.EnvironmentConfig(max_num_objects=cfg['N'], init_steps=cfg['w'], controlled_object=wc.ObjectType.SDC,
                              allow_new_objects_after_warmup=bool(cfg['inject']), **{'compute_reward': False, **kw})
    return pae.PlanningAgentEnvironment(dyn, ec, sim_agent_actors=agents, sim_agent_params=params)


def ast_of(s, B, b):
    return [int(np.broadcast_to(np.asarray(a), (B,))[b]) for a in s.sim_agent_actor_states]


def record_planning(c, r, cfgs, B):
    import jax, jax.numpy as jnp
    from waymax import datatypes as dt
    traces = []
    for cfg in cfgs:
        N, T, w, A, L = (cfg[k] for k in ('N', 'T', 'w', 'A', 'L'))
        params = [dict(px=float(r.randint(-8, 9)) / 4, py=float(r.randint(-8, 9)) / 4) for _ in range(A)]
        env = c.guard('construct planning env', plan_env, cfg, [make_agent(a, N, L) for a in range(A)], params)
        scs = [plan_scenario(r, N, T, A, L, cfg.get('ego', r.randint(N))) for _ in range(B)]
        st0 = scen.to_state(scen.stack(scs), timestep=0)
        wrap = {'vmapjit': lambda f: jax.jit(jax.vmap(f)), 'batch': jax.jit, 'vmap': jax.vmap, 'jit1': jax.jit}[cfg['mode']]
        k0 = jax.random.PRNGKey(5) if cfg['rng'] else None
        reset = wrap(lambda s: env.reset(s, k0) if cfg['rng'] else env.reset(s))
        step = wrap(lambda s, a: env.step(s, a, k0) if cfg['rng'] else env.step(s, a))
        adim = 5 if cfg['model']['kind'] == 'state' else 3
        acts = []
        for _ in range(T - w):
            span = 60 if adim == 5 else 3
            acts.append((r.randint(-span * K, span * K, (B, adim)).astype(np.float32) / K, r.rand(B, 1) < (0.6 if cfg['inval'] else 2)))

        def run(s0, sel):
            s = c.guard('planning reset', reset, s0)
            out = [scen.host(s)]
            for a, v in acts:
                s = c.guard('planning step', step, s, dt.Action(data=jnp.asarray(sel(a)), valid=jnp.asarray(sel(v))))
                out.append(scen.host(s))
            return out
        if cfg['mode'] == 'jit1':
            runs = [run(scen.idx(st0, b), lambda x: x[b]) for b in range(B)]
            pick = lambda k, b: (runs[b][k], runs[b][k], 1, 0)
        else:
            rr = run(st0, lambda x: x)
            def pick(k, b):
                s = rr[k]
                s = s.replace(timestep=np.zeros(B, np.int32) + np.asarray(s.timestep),
                              sim_agent_actor_states=[np.broadcast_to(np.asarray(a), (B,)) for a in s.sim_agent_actor_states])
                return scen.idx(s, b), s, B, b
        for b in range(B):
            sc = scs[b]
            base = scen.host(scen.idx(scen.host(st0), b))
            ev = []
            for k in range(len(acts) + 1):
                s, full, BB, bb = pick(k, b)
                e = dict(op='step' if k else 'reset', t=int(s.timestep), sim=scen.slots(s.sim_trajectory), world=scen.world(s),
                         logdig=wx.digest(s.log_trajectory), ast=ast_of(full, BB, bb))
                if k:
                    e['act'] = wx.q(acts[k - 1][0][b], K)
                ev.append(e)
            traces.append(dict(cfg=dict(w=w, inject=cfg['inject'], model=cfg['model'], mode=cfg['mode']),
                               meta=dict(sdc=sc['meta']['is_sdc'].astype(int).tolist()), agents=agents_tla(sc, A, L, N, params),
                               log=scen.slots(sc['log']), world0=scen.world(base), logdig0=wx.digest(base.log_trajectory), ev=ev))
    return traces


def replay_planning(c, r):
    """Every (ego, overlap, claims) combination TLC enumerates, run for real."""
    import jax, jax.numpy as jnp
    from waymax import datatypes as dt
    res = c.model_check('MCPlanning', min_states=4000)
    runs = {}
    for m in res.msgs:
        key = (m['ego'], tuple(m['pair']), str(m['cl']), tuple(m['c0']))
        runs.setdefault(key, dict(m=m))[m['ph']] = m['src']
    keys = sorted(runs)
    N, T, L = 3, 4, 2
    rows = [runs[k]['m'] for k in keys]
    B = len(rows)
    scs = []
    for i, m in enumerate(rows):
        rr = np.random.RandomState(i)
        sc = scen.rand_scenario(rr, N, T, sdc=m['ego'] - 1)
        log = sc['log']
        log['valid'][:] = True
        log['x'][:, 0] = [0, 100, 200]
        log['y'][:, 0] = 0
        if m['pair']:
            a, b = [p - 1 for p in m['pair']]
            log['x'][b, 0] = log['x'][a, 0] + 0.5
        ids = np.zeros((2, 3 + L * N), np.int32)
        for a in range(2):
            ids[a, :3] = [a + 1, a, m['c0'][a] - 1]   # c0 + clock(0) + valid(1) = model's counter; inc+valid = 1, 2
            ids[a, 3:] = np.array(m['cl'][a]).ravel()
        z = np.zeros((2, 3 + L * N), np.float32)
        sc['paths'] = dict(x=z, y=z, z=z, ids=ids, valid=z > 1, arc_length=z, on_route=np.zeros((2, 1), bool))
        scs.append(sc)
    st = scen.to_state(scen.stack(scs), timestep=0)
    params = [dict(px=0.5, py=0.25), dict(px=-0.5, py=2.0)]
    cfg = dict(N=N, w=1, inject=0, model=dict(kind='state', dtinv=1))
    env = c.guard('construct planning env', plan_env, cfg, [make_agent(a, N, L) for a in range(2)], params)
    s = c.guard('planning reset', jax.jit(jax.vmap(env.reset)), st)
    step = jax.jit(jax.vmap(env.step))
    for ph in (2, 3):
        t = ph - 2
        prev = scen.host(s)
        act = np.tile(np.array([900.0, -900, 1.5, 3, 4], np.float32), (B, 1))
        s = c.guard('planning step', step, s, dt.Action(data=jnp.asarray(act), valid=jnp.ones((B, 1), bool)))
        cur = scen.host(s)
        get = lambda st_, k: np.stack([np.asarray(getattr(st_, f))[:, :, k] for f in ('x', 'y', 'vel_x', 'vel_y')], -1)
        got = get(cur.sim_trajectory, t + 1)
        logn, pn = get(prev.log_trajectory, t + 1), get(prev.sim_trajectory, t)
        cnt = np.array([np.asarray(a) for a in prev.sim_agent_actor_states]).T
        ag = []
        for a in range(2):
            d = np.take_along_axis(pn, ((np.arange(N) + a + 1) % N)[None, :, None], 1).copy()
            d[..., 0] += params[a]['px']
            d[..., 1] += params[a]['py'] + 0.25 * cnt[:, a, None]
            d[..., 3] += 0.25 * cnt[:, a, None]
            ag.append(d)
        src = np.array([runs[k][ph] for k in keys])
        want = np.where((src == -1)[..., None], act[:, None, [0, 1, 3, 4]], np.where((src == 0)[..., None], logn, np.where((src == 1)[..., None], ag[0], ag[1])))
        bad = (np.abs(got - want) > 1e-6).any((1, 2))
        for b in np.nonzero(bad)[0][:3]:
            c.fail('replay.plan.source', dict(run=rows[b], step=t, got=got[b].tolist(), want=want[b].tolist(), source=src[b].tolist()))
        if ph == 2 and (cnt != np.array([m['c0'] for m in rows])).any():
            c.fail('replay.plan.state', dict(got=cnt[:3].tolist()))
    c.traces += B
    c.extra['model_behaviours_replayed_in_impl'] = B
    c.log(f'replayed {B} model behaviours in the real environment')


def same_events(c, r, n, B=8):
    """Ego under the other dynamics models: planning env vs multi-agent env."""
    import jax, jax.numpy as jnp
    from waymax import config as wc, dynamics, env as wenv, datatypes as dt
    from waymax.env import planning_agent_environment as pae
    N, T, w = 3, 5, 2
    ev = []
    mods = [('local', lambda: dynamics.DeltaLocal()), ('bicycle', lambda: dynamics.InvertibleBicycleModel()),
            ('norm', lambda: dynamics.InvertibleBicycleModel(normalize_actions=True)),
            ('discrete', lambda: dynamics.DiscreteActionSpaceWrapper(dynamics.DeltaGlobal(), np.array([4, 4, 4])))]
    for name, mk in mods:
        for mode in (('batch', 'vmap') if c.thorough else ('batch',) if name == 'local' else ('vmap',) if name != 'norm' else ()):
            ec = wc.EnvironmentConfig(max_num_objects=N, init_steps=w, controlled_object=wc.ObjectType.SDC, compute_reward=False)
            pe, be = pae.PlanningAgentEnvironment(mk(), ec), wenv.BaseEnvironment(mk(), ec)
            scs = [scen.rand_scenario(r, N, T) for _ in range(B)]
            st = scen.to_state(scen.stack(scs), timestep=0)
            V = (lambda f: jax.jit(jax.vmap(f))) if mode == 'vmap' else jax.jit
            s1, s2 = c.guard('reset', V(pe.reset), st), c.guard('reset', V(be.reset), st)
            spec = pe.action_spec().data
            f1, f2 = V(pe.step), V(be.step)
            ego = np.array([int(np.argmax(s['meta']['is_sdc'])) for s in scs])
            for k in range(T - w):
                if name == 'discrete':
                    a = r.randint(0, int(spec.maximum[0]) + 1, (B, 1)).astype(np.int32)
                else:
                    a = (r.uniform(-1, 1, (B,) + spec.shape) * np.minimum(np.abs(spec.maximum), 6)).astype(np.float32)
                s1 = c.guard('planning step', f1, s1, dt.Action(data=jnp.asarray(a), valid=jnp.ones((B, 1), bool)))
                s2 = c.guard('base step', f2, s2, dt.Action(data=jnp.asarray(np.repeat(a[:, None], N, 1)), valid=jnp.ones((B, N, 1), bool)))
                t = w + k
                for b in range(B):
                    vec = lambda s: sum((wx.fx(np.asarray(getattr(s.sim_trajectory, f))[b, :, t], 10000) for f in ('x', 'y', 'z', 'yaw', 'vel_x', 'vel_y', 'valid')), [])
                    ev.append(dict(op='same', a=vec(s1), b=vec(s2), tol=30, model=name, ego=int(ego[b])))
    return ev


def plan_dyn_events(c, r):
    """PlanningAgentDynamics used directly equals the wrapped model on the tiled
    action, for the forward pass and for the inferred ego action."""
    import jax, jax.numpy as jnp
    from waymax import dynamics, datatypes as dt
    from waymax.env import planning_agent_environment as pae
    N, T = 3, 5
    ev = []
    for mk in (dynamics.DeltaGlobal, dynamics.InvertibleBicycleModel, dynamics.StateDynamics):
        d = mk()
        p = pae.PlanningAgentDynamics(mk())
        for shape in ((), (2,)) if c.thorough else ((),) if mk is dynamics.InvertibleBicycleModel else ((2,),):
            scs = [scen.rand_scenario(r, N, T) for _ in range(2)]
            st = scen.to_state(scen.stack(scs) if shape else scs[0], timestep=2)
            a = r.uniform(-1, 1, shape + d.action_spec().shape).astype(np.float32)
            v = r.rand(*(shape + (1,))) < 0.7
            ta = dt.Action(data=jnp.repeat(jnp.asarray(a)[..., None, :], N, -2), valid=jnp.repeat(jnp.asarray(v)[..., None, :], N, -2))
            for inj in (True, False):
                args = (st.sim_trajectory, st.log_trajectory, st.object_metadata.is_sdc, 2)
                x1 = c.guard('PlanningAgentDynamics.forward', jax.jit(lambda a_, s_, l_, m_: p.forward(a_, s_, l_, m_, 2, inj)), dt.Action(data=jnp.asarray(a), valid=jnp.asarray(v)), *args[:3])
                x2 = c.guard('forward', jax.jit(lambda a_, s_, l_, m_: d.forward(a_, s_, l_, m_, 2, inj)), ta, *args[:3])
                vec = lambda x: sum((wx.fx(np.asarray(l, np.float64).ravel(), 10000) for l in (x.x, x.y, x.yaw, x.vel_x, x.vel_y, x.valid)), [])
                ev.append(dict(op='same', a=vec(x1), b=vec(x2), tol=3, model='forward'))
            i1 = c.guard('PlanningAgentDynamics.inverse', jax.jit(lambda a_, b_: p.inverse(a_, b_, 1)), st.log_trajectory, st.object_metadata)
            i2 = c.guard('inverse', jax.jit(lambda a_, b_: d.inverse(a_, b_, 1)), st.log_trajectory, st.object_metadata)
            ego = np.argmax(np.asarray(st.object_metadata.is_sdc), -1)
            sel = lambda z: np.take_along_axis(np.asarray(z), ego[..., None, None], -2)[..., 0, :]
            ev.append(dict(op='same', a=wx.fx(np.asarray(i1.data).ravel(), 10000) + wx.fx(np.asarray(i1.valid).ravel(), 1),
                           b=wx.fx(sel(i2.data).ravel(), 10000) + wx.fx(sel(i2.valid).ravel(), 1), tol=3, model='inverse'))
    return ev


def reject_events(c, r):
    import jax, jax.numpy as jnp
    from waymax import config as wc, dynamics, datatypes as dt
    from waymax.env import planning_agent_environment as pae
    ev = []

    def attempt(case, want, fn):
        try:
            fn()
            out = 'ok'
        except Exception as e:  # noqa
            out = type(e).__name__
        ev.append(dict(op='reject', case=case, out=out, want=want))
    N, L = 3, 1
    for k in wc.ObjectType:
        attempt('class.' + k.value, 'ok' if k == wc.ObjectType.SDC else 'ValueError',
                lambda: pae.PlanningAgentEnvironment(dynamics.StateDynamics(), wc.EnvironmentConfig(max_num_objects=N, init_steps=1, controlled_object=k)))
    cfg = dict(N=N, w=1, inject=1, model=dict(kind='state', dtinv=1))
    ag = [make_agent(i, N, L) for i in range(3)]
    pr = [dict(px=0.0, py=0.0)] * 4
    for a in range(3):
        for p in range(4):
            attempt('params', 'ok' if a == p else 'ValueError', lambda: plan_env(cfg, ag[:a], pr[:p]))
    for a in range(3):
        env = plan_env(cfg, ag[:a], pr[:a])
        sc = plan_scenario(r, N, 3, 3, L, 0)
        s = c.guard('planning reset', jax.jit(env.reset), scen.to_state(sc, timestep=0))
        for k in range(4):
            s2 = s.replace(sim_agent_actor_states=[jnp.asarray(1)] * k)
            attempt('states', 'ok' if a == k else 'ValueError', lambda: jax.eval_shape(env.step, s2, dt.Action(data=jnp.zeros(5), valid=jnp.ones(1, bool))))
    env = plan_env(cfg, [], [])
    attempt('num_objects', 'AssertionError', lambda: env.reset(scen.to_state(plan_scenario(r, N + 1, 3, 1, L, 0), timestep=0)))
    return ev


def key_events(c, r):
    """Random streams handed to the sim agents: the agents keep the key they got."""
    import jax, jax.numpy as jnp
    from waymax import datatypes as dt
    from waymax.agents import actor_core
    N = 3
    ev = []
    words = lambda rng: jnp.zeros(2, jnp.uint32) if rng is None else jax.random.key_data(rng).astype(jnp.uint32).reshape(-1)[-2:]
    had = lambda rng: jnp.asarray(rng is not None)

    def agent():
        def select(params, state, actor_state, rng):
            return actor_core.WaymaxActorOutput(actor_state=dict(k=words(rng), had=had(rng)), action=dt.Action(data=jnp.zeros((N, 5)), valid=jnp.zeros((N, 1), bool)),
                                                is_controlled=jnp.zeros(N, bool))
        return actor_core.actor_core_factory(lambda rng, s: dict(k=words(rng), had=had(rng)), select)
    for A in (1, 2, 3):
        env = plan_env(dict(N=N, w=1, inject=1, model=dict(kind='state', dtinv=1)), [agent() for _ in range(A)], [{}] * A)
        s0 = scen.to_state(plan_scenario(r, N, 3, 1, 1, 0), timestep=0)
        act = dt.Action(data=jnp.zeros(5), valid=jnp.ones(1, bool))
        f = {k: jax.jit(g) for k, g in dict(reset=env.reset, step=env.step).items()}
        ks = [jax.random.PRNGKey(int(r.randint(1 << 20))) for _ in range(3)]
        got = lambda s: [wx.digest(a['k']) for a in s.sim_agent_actor_states]
        ok = lambda s: [int(a['had']) for a in s.sim_agent_actor_states]
        rs = [c.guard('planning reset', f['reset'], s0, k) for k in ks + ks[:1]]
        st = [c.guard('planning step', f['step'], rs[0], act, k) for k in ks + ks[:1]]
        for w, xs in (('reset', rs), ('step', st)):
            ev.append(dict(op='keys', what=w, runs=[got(x) for x in xs[:3]], again=got(xs[3]), had=sum((ok(x) for x in xs), []), given=1))
        n0 = c.guard('planning reset', f['reset'], s0)
        n1 = c.guard('planning step', f['step'], n0, act)
        ev.append(dict(op='keys', what='none', runs=[], again=[], had=ok(n0) + ok(n1), given=0))
    return ev


def run_c13(c):
    r = c.rng()
    replay_planning(c, r)
    shapes = [(4, 6), (3, 5)] if not c.thorough else [(4, 6), (3, 5), (6, 8), (2, 9)]
    cfgs = []
    modes = ['vmapjit', 'batch', 'vmapjit', 'jit1']
    for j in range(8 if not c.thorough else 48):
        N, T = shapes[(j // 4) % len(shapes)]
        cfgs.append(dict(N=N, T=T, w=int(r.randint(1, T - 1)), A=[2, 3, 1, 2, 0][j % 5], L=int(r.randint(1, 4)), inject=(j // 2) % 2, mode=modes[j % 4],
                         rng=j % 3 == 0, inval=j % 2, model=dict(kind='state', dtinv=1) if j % 2 else dict(kind='delta', dtinv=int(r.choice([8, 10, 4])))))
    tr = record_planning(c, r, cfgs, 8 if not c.thorough else 16)
    # many objects, the recorded history length as warm-up, a later clock
    tr += record_planning(c, r, [dict(N=17, T=17, w=11, A=4, L=3, inject=int(r.randint(2)), mode='vmapjit', rng=True, inval=0, model=dict(kind='delta', dtinv=10))], 2 if not c.thorough else 6)
    # more objects than a byte can number
    tr += record_planning(c, r, [dict(N=131, T=5, w=3, A=2, L=2, ego=130 - int(r.randint(3)), inject=int(r.randint(2)), mode='vmapjit', rng=True, inval=0, model=dict(kind='state', dtinv=1))], 1 if not c.thorough else 3)
    c.log(f'recorded {len(tr)} planning episodes')
    c.judge('TracePlanning', tr, label='episodes')
    c.judge('TracePlanning', chunked(same_events(c, r, 4) + plan_dyn_events(c, r) + reject_events(c, r) + key_events(c, r)), label='other')
    c.assumptions += ['objects are valid in the first recorded slot (initial overlap of absent objects is not specified)', 'sim agents never claim the ego']


# ------------------------------------------------------- C14 planning metrics
ALL = ('log_divergence', 'overlap', 'offroad', 'kinematic_infeasibility', 'sdc_wrongway', 'sdc_progression', 'sdc_off_route')


def run_c14(c):
    import jax, jax.numpy as jnp
    import metric_check as mc
    from waymax import config as wc, dynamics, datatypes as dt, metrics
    from waymax.env import planning_agent_environment as pae
    r = c.rng()
    ev = []
    N, T = mc.N, 6
    F = 10000
    rounds = [('vmap', 3, ALL, 0), ('batch', 2, ALL[:4], 1), ('batch', 1, ALL, 2), ('single', 2, ALL, 0), ('vmap', 11, ALL, 0)]
    rounds = rounds * (6 if c.thorough else 1)
    rounds.append(('vmap', 129, ALL, 0))    # more objects and steps than a byte can number
    for rnd, (mode, w, names, wk) in enumerate(rounds):
        B = 12 if mode != 'single' else 5
        T = 6 if w < 11 else 16
        if rnd >= 5 and w < 100:
            w, names = int(r.randint(1, T)), tuple(r.permutation(ALL))[:r.randint(1, 8)]
        N = mc.N if T == 6 else 11
        if w == 129:
            B, N, T = 1, 131, 132
        scs = [mc.scenario(r, N, T, sdc=None if N < 100 else 129)['sc'] for _ in range(B)]
        for s in scs:
            if mc is not None and r.rand() < 0.5:
                s['log']['valid'][:] |= r.rand(N, T) < 0.7
            if r.rand() < 0.3:   # metadata need not agree with the log
                s['meta']['is_valid'] = r.rand(N) < 0.5
        rw = {n: float(r.choice([-1, 2, 0.5, -0.25, 1.75])) for n in ALL[:7 if wk != 1 else 3] if r.rand() < 0.8 or n == 'overlap'}
        kw = dict(max_num_objects=N, init_steps=w, controlled_object=wc.ObjectType.SDC, metrics=wc.MetricsConfig(metrics_to_run=tuple(names)),
                  rewards=wc.LinearCombinationRewardConfig(rewards=rw))
        dyn = dynamics.StateDynamics()
        env = c.guard('construct', pae.PlanningAgentEnvironment, dyn, wc.EnvironmentConfig(**kw))
        off = c.guard('construct', pae.PlanningAgentEnvironment, dyn, wc.EnvironmentConfig(compute_reward=False, **kw))
        V = (lambda f: jax.jit(jax.vmap(f))) if mode == 'vmap' else jax.jit
        allnames = tuple(dict.fromkeys(tuple(names) + tuple(rw)))
        multi = V(lambda s: metrics.run_metrics(s, wc.MetricsConfig(metrics_to_run=allnames)))
        both = V(lambda s, a: (env.metrics(s), env.reward(s, a), off.reward(s, a)))
        reset, step = V(env.reset), V(env.step)
        groups = [(scen.stack(scs), scs)] if mode != 'single' else [(s, [s]) for s in scs]
        for data, members in groups:
            s = c.guard('reset', reset, scen.to_state(data, timestep=0))
            bs = (len(members),) if mode != 'single' else ()
            egos = [int(np.argmax(m['meta']['is_sdc'])) for m in members]
            for k in range(min(3, T - w + 1)):
                t = w - 1 + k
                mm = scen.host(c.guard('run_metrics', multi, s))
                far = np.stack([np.stack([m['log'][f][e, t] for f in ('x', 'y', 'yaw')]) for m, e in zip(members, egos)])
                a = np.concatenate([far + r.uniform(-2, 2, (len(members), 3)), r.uniform(-5, 5, (len(members), 2))], -1).astype(np.float32)
                act = dt.Action(data=jnp.asarray(a.reshape(bs + (5,))), valid=jnp.ones(bs + (1,), bool))
                pm, rew, rew0 = scen.host(c.guard('planning metrics', both, s, act))
                ev.append(dict(op='names', got=sorted(pm), want=sorted(names)))
                A = lambda x, b: np.atleast_1d(np.asarray(x)[b] if bs else np.asarray(x))
                for b in range(len(members)):
                    for n in names:
                        ev.append(dict(op='pmetric', name=n, t=t, w=w, ego=egos[b] + 1, value=wx.fx(A(mm[n].value, b), F), valid=wx.fx(A(mm[n].valid, b), 1),
                                       out=wx.fx(A(pm[n].value, b).ravel(), F), ok=wx.fx(A(pm[n].valid, b).ravel(), 1)))
                    for en, rr in ((1, rew), (0, rew0)):
                        ev.append(dict(op='preward', enabled=en, ego=egos[b] + 1, out=wx.fx(A(rr, b).ravel(), F), dtype=str(rr.dtype),
                                       ms=[dict(w4=int(wt * 4), value=wx.fx(A(mm[n].value, b), F), valid=wx.fx(A(mm[n].valid, b), 1)) for n, wt in rw.items()]))
                if k < 2 and t < T - 1:
                    s = c.guard('step', step, s, act)
    c.judge('TracePlanMetrics', chunked(ev, 40))
    c.assumptions.append('the multi-agent result is that of metrics.run_metrics, whose values C18-C25 decide')


# ---------------------------------------------------------------- C15 rollout
_REG = {}


def register_x_metric():
    """A user-registered metric: value = current simulated x."""
    from waymax import metrics
    from waymax.metrics import abstract_metric
    if 'wx_x' in _REG:
        return
    import jax.numpy as jnp

    class CurrentX(abstract_metric.AbstractMetric):
        def compute(self, simulator_state):
            cur = lambda f: jnp.take_along_axis(f, jnp.broadcast_to(jnp.asarray(simulator_state.timestep)[..., None, None], f.shape[:-1] + (1,)), axis=-1)[..., 0]
            tr = simulator_state.sim_trajectory
            return abstract_metric.MetricResult(value=cur(tr.x), valid=cur(tr.valid))
    metrics.register_metric('wx_x', CurrentX())
    _REG['wx_x'] = 1


def observing(base):
    """Environment class with an observation other than the state itself."""
    import jax.numpy as jnp

    class Observing(base):
        def observe(self, state):
            t = jnp.asarray(state.timestep)
            f = state.sim_trajectory.x
            return dict(t=jnp.broadcast_to(t, state.shape), x=jnp.take_along_axis(f, jnp.broadcast_to(t[..., None, None], f.shape[:-1] + (1,)), axis=-1)[..., 0])
    return Observing


def roll_actor(kind, model, N, planning, tab):
    """counter / random actors; tab = dict(shift, inc, c0)."""
    import jax, jax.numpy as jnp
    from waymax import datatypes as dt
    from waymax.agents import actor_core

    def now(f, state):
        return jnp.take_along_axis(f, jnp.broadcast_to(jnp.asarray(state.timestep)[..., None, None], f.shape[:-1] + (1,)), axis=-1)[..., 0]

    def init(rng, state):
        return tab['c0'] + jnp.asarray(state.timestep) + now(state.sim_trajectory.valid, state)[..., 0].astype(jnp.int32)

    def select(params, state, c, rng):
        st = state.sim_trajectory
        donor = np.array([(o + tab['shift']) % N for o in range(N)])
        g = lambda f: now(getattr(st, f), state)
        cf = 0.25 * c[..., None].astype(jnp.float32)
        one = jnp.ones_like(g('x'))
        if kind == 'random':
            k = 5 if model == 'state' else 3
            data = jax.random.randint(rng, one.shape + (k,), -2000, 2000).astype(jnp.float32) / K
            valid = jnp.ones(one.shape + (1,), bool)
        else:
            if model == 'state':
                data = jnp.stack([g('x')[..., donor] + params['px'], g('y')[..., donor] + cf + params['py'], g('yaw') + params['px'],
                                  g('vel_x')[..., donor], g('vel_y')[..., donor] + cf], -1)
            else:
                data = jnp.stack([one * (params['px'] + cf), one * (params['py'] - cf), g('valid') * 0.25], -1)
            valid = jnp.broadcast_to((c % 2 == 1)[..., None, None], data.shape[:-1] + (1,))
        a = dt.Action(data=data, valid=valid)
        ctl = state.object_metadata.is_sdc
        if planning:
            a = jax.tree_util.tree_map(lambda z: jnp.sum(jnp.where(ctl[..., None], z, 0), axis=-2).astype(z.dtype), a)
        return actor_core.WaymaxActorOutput(actor_state=c + tab['inc'] + g('valid')[..., 0].astype(jnp.int32), action=a, is_controlled=ctl)
    return actor_core.actor_core_factory(init, select, name='wxroll')


def record_rollouts(c, r, cfgs, B):
    import jax, jax.numpy as jnp
    from waymax import config as wc, dynamics, env as wenv
    from waymax.env import planning_agent_environment as pae
    register_x_metric()
    traces = []
    for cfg in cfgs:
        N, T, w, n, mode, kind = (cfg[k] for k in ('N', 'T', 'w', 'n', 'mode', 'actor'))
        planning, m = cfg['kind'] == 'planning', cfg['model']
        A, L = cfg.get('A', 0), 2
        dyn = dynamics.StateDynamics() if m['kind'] == 'state' else dynamics.DeltaGlobal(dt=1.0 / m['dtinv'], max_dx=1e3, max_dy=1e3)
        wt = int(r.choice([-2, 1, 3]))
        ec = wc.EnvironmentConfig(max_num_objects=N, init_steps=w, controlled_object=wc.ObjectType(cfg['cls']), allow_new_objects_after_warmup=bool(cfg['inject']),
                                  metrics=wc.MetricsConfig(metrics_to_run=('wx_x',)), rewards=wc.LinearCombinationRewardConfig(rewards={'wx_x': float(wt)}))
        params = [dict(px=float(r.randint(-8, 9)) / 4, py=float(r.randint(-8, 9)) / 4) for _ in range(A)]
        if planning:
            env = c.guard('construct', observing(pae.PlanningAgentEnvironment), dyn, ec, [make_agent(a, N, L) for a in range(A)], params)
        else:
            env = c.guard('construct', observing(wenv.BaseEnvironment), dyn, ec)
        tab = dict(shift=int(r.randint(N)), inc=int(r.randint(3)), c0=int(r.randint(4)))
        ap = dict(px=float(r.randint(-8, 9)) / 4, py=float(r.randint(-8, 9)) / 4)
        scs = [plan_scenario(r, N, T, max(A, 1), L, r.randint(N)) for _ in range(B)]
        if kind == 'expert':
            for s in scs:
                s['log']['yaw'] = np.clip(s['log']['yaw'], -1.5, 1.5)
        st0 = scen.to_state(scen.stack(scs), timestep=0)
        if kind == 'expert':
            import importlib
            ro = importlib.import_module('waymax.env.rollout')
            f = lambda s: ro.rollout_log_by_expert_sdc(s, env, env.dynamics, n)
        else:
            act = roll_actor(kind, m['kind'], N, planning, tab)
            f = lambda s: wenv.rollout(s, act, env, jax.random.PRNGKey(7), n, ap if kind == 'counter' else None)
        if mode == 'vmap':
            out = scen.host(c.guard('rollout', jax.jit(jax.vmap(f)), st0))
            pick = lambda k, b: scen.idx(scen.idx(out, b), k)
        elif mode == 'batch':
            out = scen.host(c.guard('rollout', jax.jit(f), st0))

            def pick(k, b):
                o = scen.idx(out, k)
                st = o.state.replace(timestep=np.zeros(B, np.int32) + np.asarray(o.state.timestep))
                if planning:
                    st = st.replace(sim_agent_actor_states=[np.broadcast_to(np.asarray(a), (B,)) for a in st.sim_agent_actor_states])
                return scen.idx(o.replace(state=st), b)
        else:
            outs = [scen.host(c.guard('rollout', jax.jit(f), scen.idx(st0, b))) for b in range(B)]
            pick = lambda k, b: scen.idx(outs[b], k)
        for b in range(B):
            sc, base = scs[b], scen.host(scen.idx(scen.host(st0), b))
            ev = []
            length = len((out if mode == 'batch' else scen.idx(out, b) if mode == 'vmap' else outs[b]).reward)
            for k in range(length):
                e = pick(k, b)
                s = e.state
                data, av = np.atleast_2d(e.action.data), np.asarray(e.action.valid).ravel()
                ev.append(dict(op='entry', t=int(s.timestep), sim=scen.slots(s.sim_trajectory), world=scen.world(s), logdig=wx.digest(s.log_trajectory),
                               act=wx.q(data, K), av=av.astype(int).tolist(), obs=dict(t=int(e.observation['t']), x=wx.q(e.observation['x'], K)),
                               met=[[a, int(bb)] for a, bb in zip(wx.q(e.metrics['wx_x'].value, K), e.metrics['wx_x'].valid)],
                               rew=wx.q(np.atleast_1d(e.reward), K), ast=[int(a) for a in s.sim_agent_actor_states] if planning else []))
            meta = sc['meta']
            traces.append(dict(kind=kind, cfg=dict(w=w, n=n, inject=cfg['inject'], model=m, kind=cfg['kind'], cls=cfg['cls'], mode=mode, weight=wt),
                               meta=dict(sdc=meta['is_sdc'].astype(int).tolist(), modeled=meta['is_modeled'].astype(int).tolist(), valid=meta['is_valid'].astype(int).tolist()),
                               actor=dict(tab, px=int(ap['px'] * K), py=int(ap['py'] * K), claims=[[0] * N]), agents=agents_tla(sc, A, L, N, params),
                               log=scen.slots(sc['log']), world0=scen.world(base), logdig0=wx.digest(base.log_trajectory), ev=ev))
    return traces


def run_c15(c):
    r = c.rng()
    c.model_check('MCRollout')
    cfgs = []
    for j in range(10 if not c.thorough else 60):
        kind = 'planning' if j % 3 == 1 else 'base'
        N, T = [(3, 7), (4, 6), (2, 9)][j % 3 if j >= 10 else (j // 5) % 2]
        w = int(r.randint(1, T - 1))
        full = T - w
        cfgs.append(dict(kind=kind, cls='SDC' if kind == 'planning' else ['SDC', 'VALID', 'MODELED'][j % 3 if j % 2 else (j // 2) % 3], inject=(j // 2) % 2, N=N, T=T, w=w,
                         n=full if j % 2 == 0 else int(r.randint(1, full + 1)), mode=['vmap', 'batch', 'jit1'][(j // 2) % 3], actor=['counter', 'counter', 'expert', 'counter', 'random'][j % 5],
                         A=[0, 2, 1][j % 3] if kind == 'planning' and j > 1 else 0, model=dict(kind='state', dtinv=1) if (j // 3) % 2 else dict(kind='delta', dtinv=int(r.choice([8, 10])))))
    tr = record_rollouts(c, r, cfgs, 4 if not c.thorough else 12)
    big = dict(N=10, T=23, w=11, n=12, inject=1, mode='vmap')
    tr += record_rollouts(c, r, [dict(big, kind='base', cls='VALID', actor='counter', model=dict(kind='delta', dtinv=10)),
                                 dict(big, kind='planning', cls='SDC', actor='expert', A=2, model=dict(kind='state', dtinv=1))], 1 if not c.thorough else 6)
    # more steps than a byte can number
    tr += record_rollouts(c, r, [dict(N=2, T=134, w=3, n=131, inject=1, mode='jit1', kind='base', cls='VALID', actor='counter', model=dict(kind='delta', dtinv=10))], 1)
    c.log(f'recorded {len(tr)} rollouts')
    c.judge('TraceRollout', tr)


# --------------------------------------------------- C16 stateful episode API
def terminating(base, bar):
    """Environment class that also terminates when the ego's x passes a bar."""
    import jax.numpy as jnp

    class Terminating(base):
        def termination(self, state):
            f = state.sim_trajectory.x
            x = jnp.take_along_axis(f, jnp.broadcast_to(jnp.asarray(state.timestep)[..., None, None], f.shape[:-1] + (1,)), axis=-1)[..., 0]
            return jnp.any((x > bar) & state.object_metadata.is_sdc, axis=-1)

        def step(self, state, action, rng=None):
            # the episode interface applies the caller's values as valid actions
            return super().step(state, action.replace(data=jnp.where(action.valid, action.data, action.data + 1024)))
    return Terminating


def dm_call(env, op, action=None):
    """One call on the wrapper -> (outcome, payload)."""
    try:
        if op == 'reset':
            ts = env.reset()
        elif op == 'step':
            ts = env.step(action)
        else:
            return 'state', env.simulation_state
        return ts.step_type.name, ts
    except Exception as e:  # noqa
        return type(e).__name__, str(e)


def episode_replay(c, r):
    """All call histories TLC enumerates, on the real wrapper."""
    import jax.numpy as jnp
    from waymax import config as wc, dynamics, env as wenv
    from waymax.env.wrappers import dm_env_wrapper as dmw
    res = c.model_check('MCEpisode', 'MCEpisode_D7' if c.thorough else 'MCEpisode_D6', min_states=300)
    N, W = 2, 2
    scs = {}
    for n in (0, 1, 2):
        sc = scen.rand_scenario(r, N, W + n, sdc=0)
        scs[n] = scen.to_state(sc, timestep=0)
    ec = wc.EnvironmentConfig(max_num_objects=N, init_steps=W, compute_reward=False)

    class Cached(wenv.BaseEnvironment):   # the wrapped reset itself is C01's business
        store = {}

        def reset(self, state, rng=None):
            k = id(state)
            if k not in self.store:
                self.store[k] = super().reset(state)
            return self.store[k]
    env0 = Cached(dynamics.StateDynamics(), ec)
    # one function object for all wrapper instances: jit compiles it once
    bstep, brew = env0.step, env0.reward
    env0.step = lambda s, a: bstep(s, a)
    env0.reward = lambda s, a: brew(s, a)
    action = jnp.zeros((N, 5))
    bad = 0
    for m in res.msgs:
        order = [m['lens'][(k) % 3] for k in range(20)]
        gen = iter([scs[order[0]]] + [scs[n] for n in order])
        w = dmw.DMEnvWrapper(gen, env0)
        for k, h in enumerate(m['hist']):
            out, ts = dm_call(w, h['op'], action)
            ok = out == h['out']
            if ok and out in ('FIRST', 'MID', 'LAST', 'state'):
                st = ts if out == 'state' else ts.observation
                ok = int(st.timestep) == h['t'] and st.log_trajectory.num_timesteps == W + order[h['n'] - 1]
            if not ok:
                bad += 1
                if bad <= 3:
                    c.fail('replay.episode', dict(lens=m['lens'], hist=m['hist'], call=k, got=out))
                break
    c.traces += len(res.msgs)
    c.extra['model_behaviours_replayed_in_impl'] = len(res.msgs)
    c.log(f'replayed {len(res.msgs)} call histories')


def episode_traces(c, r, n):
    import jax, jax.numpy as jnp
    from waymax import config as wc, dynamics, env as wenv
    from waymax.env import planning_agent_environment as pae
    from waymax.env.wrappers import dm_env_wrapper as dmw
    register_x_metric()
    traces = []
    for j in range(n):
        N = 3
        batch = [(), (2,), ()][j % 3]
        planning = j % 2 == 1
        W = int(r.randint(1, 4)) if j % 6 < 4 else [11, 130][j % 6 - 4]
        bar = [10 ** 6, 20][j % 3 == 2]
        wt = int(r.choice([-1, 2]))
        lens = [W + int(r.randint(0, 4)) for _ in range(24)]
        lens = [W + 2] + lens
        if batch and False:
            pass
        states, logx = [], []
        for k, h in enumerate(lens):
            scs = []
            ego = r.randint(N)
            for _ in range(batch[0] if batch else 1):
                sc = scen.rand_scenario(r, N, h, sdc=ego)
                sc['log']['valid'][:] = True
                sc['meta']['ids'] = np.full(N, k, np.int32)
                scs.append(sc)
            logx.append([wx.q(s['log']['x'][ego, W - 1], K) for s in scs])
            states.append((scen.to_state(scen.stack(scs) if batch else scs[0], timestep=0), ego))
        ec = wc.EnvironmentConfig(max_num_objects=N, init_steps=W, rewards=wc.LinearCombinationRewardConfig(rewards={'wx_x': float(wt)}))
        base = pae.PlanningAgentEnvironment if planning else wenv.BaseEnvironment
        env = c.guard('construct', terminating(base, bar), dynamics.StateDynamics(), ec)
        # Eager resets cost one dispatch per operation: compile them.
        env.reset = jax.jit(env.reset)
        w = c.guard('DMEnvWrapper', dmw.DMEnvWrapper, iter([s for s, _ in states]), env)
        ev, done, ego = [], 0, states[0][1]
        nres = 0
        for k in range(26):
            op = r.choice(['reset', 'step', 'read'], p=[0.2, 0.6, 0.2]) if k else r.choice(['step', 'read'])
            if op == 'reset':
                if nres >= len(lens) - 1:
                    break
                nres += 1
                ego = states[nres][1]
            B = batch[0] if batch else 1
            x = (r.randint(-60 * K, 60 * K, B) / K).astype(np.float32)
            if bar < 10 ** 6 and batch:
                x[:] = x[0]
            row = np.stack([x, x + 1, 0 * x, 0 * x, 0 * x], -1)
            a = row if planning else np.repeat(row[:, None], N, 1)
            out, ts = dm_call(w, op, jnp.asarray(a if batch else a[0]))
            e = dict(op=str(op), out=out, ax=wx.q(x, K), rew='none', disc='none')
            if out in ('FIRST', 'MID', 'LAST', 'state'):
                st = ts if out == 'state' else ts.observation
                h = scen.host(st)
                t = int(h.timestep)
                cur = np.asarray(h.sim_trajectory.x)[..., ego, t].reshape(-1)
                e.update(scen=int(np.asarray(h.object_metadata.ids).ravel()[0]), t=t, ox=wx.q(cur, K),
                         same=int(out == 'state' or wx.digest(h) == wx.digest(scen.host(w.simulation_state))))
                if out != 'state':
                    if ts.reward is not None:
                        rew = np.asarray(ts.reward)
                        if not planning:
                            oth = np.delete(rew, ego, axis=-1)
                            rew = rew[..., ego] if (oth == 0).all() else rew * np.nan
                        e['rew'] = wx.q(np.atleast_1d(rew).ravel(), K)
                    if ts.discount is not None:
                        e['disc'] = wx.q(np.atleast_1d(np.asarray(ts.discount, np.float32)).ravel(), K)
            ev.append(e)
        traces.append(dict(w=W, lens=lens[1:], logx=logx[1:], weight=wt, bar=bar * K, batch=list(batch), planning=int(planning), ev=ev))
    return traces


def factory_traces(c, r, n):
    """Episodes of environments composed by the public factory from record files."""
    import jax, jax.numpy as jnp
    import data_check as dc
    import os, tensorflow as tf
    from waymax import agents, config as wc, dynamics
    from waymax.env import planning_agent_environment as pae
    from waymax.env.wrappers import dm_env_wrapper as dmw
    register_x_metric()
    traces, moved = [], 0
    for j in range(n):
        N, T, K0 = int(r.randint(3, 7)), 91, 3
        W = int(r.choice([11, 86, 87, 88, 89, 90])) if j >= 3 else [89, 87, 90][j]
        agents_cfg = [None, [wc.SimAgentConfig(agent_type=wc.SimAgentType.IDM, controlled_objects=wc.ObjectType.NON_SDC)], []][j % 3]
        recs = [dc.rand_record(r, i) for i in range(K0)]
        egos = []
        for ex in recs:
            e = r.randint(N)   # the ego is one of the kept objects, measured throughout
            egos.append(e)
            ex['state/is_sdc'][:] = 0
            ex['state/is_sdc'][e] = 1
            ex['state/tracks_to_predict'][0] = 1   # keeps its identifier
            if agents_cfg:   # followable motion: straight lines at some speed
                for o in range(N):
                    x0, y0, sp = r.randint(-400, 400) / 8, 8 * o + r.randint(8) / 8, r.randint(4, 48) / 8
                    k0 = 0
                    for w in ('past', 'current', 'future'):
                        k1 = ex[f'state/{w}/x'].shape[1]
                        ex[f'state/{w}/x'][o] = x0 + np.round(0.8 * sp * np.arange(k0, k0 + k1)) / 8
                        ex[f'state/{w}/y'][o] = y0
                        ex[f'state/{w}/bbox_yaw'][o] = 0
                        ex[f'state/{w}/velocity_x'][o] = sp
                        ex[f'state/{w}/velocity_y'][o] = 0
                        k0 += k1
            for w in ('past', 'current', 'future'):
                ex[f'state/{w}/valid'][:N] |= (r.rand(N, ex[f'state/{w}/valid'].shape[1]) < 0.8)
                ex[f'state/{w}/valid'][e] = 1
        path = os.path.join(c.tmp, f'factory{j}.tfrecord')
        with tf.io.TFRecordWriter(path) as wr:
            for ex in recs:
                wr.write(dc.serialize(ex))
        wt = int(r.choice([-1, 2]))
        dcfg = wc.DatasetConfig(path=path, max_num_rg_points=25, max_num_objects=N, num_shards=1)
        ec = wc.EnvironmentConfig(max_num_objects=N, init_steps=W, controlled_object=wc.ObjectType.SDC, sim_agents=agents_cfg,
                                  rewards=wc.LinearCombinationRewardConfig(rewards={'wx_x': float(wt)}))
        w = c.guard('make_sdc_dm_environment', dmw.make_sdc_dm_environment, dynamics.StateDynamics(), dcfg, ec)
        acts = [c.guard('create_sim_agents_from_config', agents.create_sim_agents_from_config, a) for a in agents_cfg or []]
        twin = c.guard('construct', pae.PlanningAgentEnvironment, dynamics.StateDynamics(), ec, sim_agent_actors=acts, sim_agent_params=[{}] * len(acts))
        tstep, treset = jax.jit(twin.step), twin.reset
        from waymax import dataloader
        gen = dataloader.simulator_state_generator(dcfg)
        next(gen)   # the wrapper keeps one scenario as a sample
        ev, nres, tst = [], 0, None
        xof = lambda i, t: recs[i]['state/future/x'][egos[i], t - 11] if t >= 11 else recs[i]['state/past/x'][egos[i], t] if t < 10 else recs[i]['state/current/x'][egos[i], 0]
        # whole short episodes, one after another
        ops = ['step'] + (['reset'] + ['step', 'read'] * (min(T - W, 4)) + ['step'] * 2) * 2
        for op in ops:
            x = (r.randint(-60 * K, 60 * K, 1) / K).astype(np.float32)
            a = jnp.asarray(np.array([x[0], x[0] + 1, 0, 0, 0], np.float32))
            out, ts = dm_call(w, op, a)
            e = dict(op=op, out=out, ax=wx.q(x, K), rew='none', disc='none')
            if op == 'reset':
                nres += 1
                tst = c.guard('twin reset', treset, next(gen))
            elif op == 'step' and out in ('MID', 'LAST'):
                from waymax import datatypes as dt
                tst = c.guard('twin step', tstep, tst, dt.Action(data=a, valid=jnp.ones((1,), bool)))
            if out in ('FIRST', 'MID', 'LAST', 'state'):
                st = ts if out == 'state' else ts.observation
                h, tw = scen.host(st), scen.host(tst)
                t, i = int(h.timestep), int(h.object_metadata.ids[0]) - 10000
                e.update(scen=nres if i == nres % K0 else -1, t=t, ox=wx.q(h.sim_trajectory.x[egos[nres % K0], t].reshape(-1), K),
                         same=int(out == 'state' or wx.digest(h) == wx.digest(scen.host(w.simulation_state))), twin=int(wx.digest(h) == wx.digest(tw)))
                oth = np.arange(N) != egos[nres % K0]
                moved += int(bool(acts) and bool((h.sim_trajectory.x[oth, t] != h.log_trajectory.x[oth, t]).any()))
                if not acts:   # nobody else acts: the others replay the log
                    e['logged'] = int(all((getattr(h.sim_trajectory, f)[oth, t] == getattr(h.log_trajectory, f)[oth, t]).all() for f in ('x', 'y', 'yaw', 'vel_x', 'vel_y', 'valid')))
                if out != 'state':
                    if ts.reward is not None:
                        e['rew'] = wx.q(np.atleast_1d(np.asarray(ts.reward)).ravel(), K)
                    if ts.discount is not None:
                        e['disc'] = wx.q(np.atleast_1d(np.asarray(ts.discount, np.float32)).ravel(), K)
            ev.append(e)
        lens = [T] * 24
        traces.append(dict(w=W, lens=lens, logx=[[wx.q(float(xof(k % K0, W - 1)), K)] for k in range(1, 25)], weight=wt, bar=10 ** 6 * K, batch=[], planning=1, ev=ev))
    c.extra.update(factory_environments=n, factory_states_moved_by_agents=moved)
    return traces


def run_c16(c):
    r = c.rng()
    episode_replay(c, r)
    tr = factory_traces(c, c.rng('factory'), 3 if not c.thorough else 18)
    tr += episode_traces(c, r, 6 if not c.thorough else 40)
    c.log(f'recorded {len(tr)} call histories')
    c.judge('TraceEpisode', tr)


# ------------------------------------------------- C17 functional episode API
def run_c17(c):
    import jax, jax.numpy as jnp
    from waymax import config as wc, dynamics, env as wenv, datatypes as dt
    from waymax.env import planning_agent_environment as pae
    from waymax.env.wrappers import brax_wrapper as bw
    r = c.rng()
    register_x_metric()
    traces = []
    for j in range(9 if not c.thorough else 54):
        N, T = [(3, 6), (4, 5)][j % 2] if j % 9 not in (4, 8) else (12, 17) if j % 9 == 4 else (131, 6) if c.seed % 2 else (3, 134)
        planning, mode = j % 3 == 1, ['vmap', 'batch', 'single'][(j // 2) % 3]
        term = int(j % 4 == 3)
        w = int(r.randint(1, T)) if T < 11 else 11 if T < 100 else 131
        w = w if N < 100 else 4
        cls = 'SDC' if planning else ['SDC', 'VALID', 'MODELED'][j % 3]
        m = dict(kind='state', dtinv=1) if j % 2 else dict(kind='delta', dtinv=8)
        dyn = dynamics.StateDynamics() if m['kind'] == 'state' else dynamics.DeltaGlobal(dt=0.125, max_dx=1e3, max_dy=1e3)
        wt = int(r.choice([-2, 1, 3]))
        ec = wc.EnvironmentConfig(max_num_objects=N, init_steps=w, controlled_object=wc.ObjectType(cls), allow_new_objects_after_warmup=bool(j % 2),
                                  metrics=wc.MetricsConfig(metrics_to_run=('wx_x',)), rewards=wc.LinearCombinationRewardConfig(rewards={'wx_x': float(wt)}))
        base = observing(pae.PlanningAgentEnvironment if planning else wenv.BaseEnvironment)
        env = c.guard('construct', terminating(base, 0.0) if term else base, dyn, ec)
        brax = c.guard('BraxWrapper', bw.BraxWrapper, env, dyn, ec)
        B = (5 if mode != 'single' else 3) if N * T < 400 else 1
        scs = [scen.rand_scenario(r, N, T) for _ in range(B)]
        st0 = scen.to_state(scen.stack(scs), timestep=0)
        V = (lambda f: jax.jit(jax.vmap(f))) if mode == 'vmap' else jax.jit
        reset, step = V(brax.reset), V(brax.step)
        k5 = 5 if m['kind'] == 'state' else 3
        acts = [(r.randint(-60 * K, 60 * K, (B, N, k5)) / (K if k5 == 5 else 20 * K)) for _ in range(T - w)]
        acts = [(np.rint(a * K) / K).astype(np.float32) for a in acts]

        def run(s0, sel):
            ts = c.guard('brax reset', reset, s0)
            out = [scen.host(ts)]
            for a in acts:
                a = sel(a)
                if planning:
                    a = a[..., 0, :]
                ts = c.guard('brax step', step, ts, dt.Action(data=jnp.asarray(a), valid=jnp.ones(a.shape[:-1] + (1,), bool)))
                out.append(scen.host(ts))
            return out
        if mode == 'single':
            runs = [run(scen.idx(st0, b), lambda a: a[b]) for b in range(B)]
            pick = lambda k, b: runs[b][k]
        else:
            rr = run(st0, lambda a: a)

            def pick(k, b):
                ts = rr[k]
                return scen.idx(ts.replace(state=ts.state.replace(timestep=np.zeros(B, np.int32) + np.asarray(ts.state.timestep))), b)
        for b in range(B):
            sc, s0 = scs[b], scen.host(scen.idx(scen.host(st0), b))
            ev = []
            for k in range(len(acts) + 1):
                ts = pick(k, b)
                s = ts.state
                e = dict(op='step' if k else 'reset', t=int(s.timestep), sim=scen.slots(s.sim_trajectory), world=scen.world(s), logdig=wx.digest(s.log_trajectory),
                         obs=dict(t=int(ts.observation['t']), x=wx.q(ts.observation['x'], K)),
                         met=[[a, int(bb)] for a, bb in zip(wx.q(ts.metrics['wx_x'].value, K), ts.metrics['wx_x'].valid)],
                         rew=wx.q(np.atleast_1d(ts.reward), K), disc=wx.q(np.asarray(ts.discount, np.float32), K), done=int(ts.done))
                if k:
                    e['act'] = wx.q(acts[k - 1][b][:1] if planning else acts[k - 1][b], K)
                ev.append(e)
            meta = sc['meta']
            traces.append(dict(cfg=dict(w=w, inject=j % 2, model=m, kind='planning' if planning else 'base', cls=cls, mode=mode, weight=wt, term=term, bar=0),
                               meta=dict(sdc=meta['is_sdc'].astype(int).tolist(), modeled=meta['is_modeled'].astype(int).tolist(), valid=meta['is_valid'].astype(int).tolist()),
                               agents=[], log=scen.slots(sc['log']), world0=scen.world(s0), logdig0=wx.digest(s0.log_trajectory), ev=ev))
    c.log(f'recorded {len(traces)} wrapper runs')
    c.judge('TraceBrax', traces)


# ------------------------------------------------------------ C38 declared
M3 = 1000


def bnd(a):
    a = np.asarray(a, np.float64).ravel()
    return [wx.OFF if v == np.inf else -wx.OFF if v == -np.inf else int(np.rint(v * M3)) for v in a]


def arr_spec(s, bounded=False):
    d = dict(shape=[int(x) for x in s.shape], dtype=str(np.dtype(s.dtype)))
    if bounded:
        full = lambda v: np.broadcast_to(np.asarray(v), s.shape)
        d.update(lo=bnd(full(s.minimum)), hi=bnd(full(s.maximum)))
    return d


def made(x):
    return dict(shape=[int(v) for v in x.shape], dtype=str(np.dtype(x.dtype)))


def spec_models(r, thorough):
    from waymax import dynamics as d
    lim = [float(v) for v in np.round(r.uniform(0.5, 9, 3), 2)]
    lim[2] = min(lim[2], 3.0)
    out = [(dict(kind='state', lim=[], bins=[], norm=0), d.StateDynamics),
           (dict(kind='global', lim=[6.0, 6.0, np.pi], bins=[], norm=0), d.DeltaGlobal),
           (dict(kind='local', lim=lim, bins=[], norm=0), lambda: d.DeltaLocal(max_dx=lim[0], max_dy=lim[1], max_dyaw=lim[2])),
           (dict(kind='bike', lim=[6.0, 0.3], bins=[], norm=0), d.InvertibleBicycleModel),
           (dict(kind='bike', lim=[1.0, 1.0], bins=[], norm=1), lambda: d.InvertibleBicycleModel(max_accel=lim[0], max_steering=0.2, normalize_actions=True)),
           (dict(kind='bike', lim=lim[:2], bins=[], norm=0), lambda: d.InvertibleBicycleModel(max_accel=lim[0], max_steering=lim[1], normalize_actions=False))]
    b3, b2 = [int(x) for x in r.randint(1, 6, 3)], [int(x) for x in r.randint(1, 9, 2)]
    out.append((dict(kind='local', lim=[6.0] * 3, bins=b3, norm=0), lambda: d.DiscreteActionSpaceWrapper(d.DeltaLocal(), np.array(b3), bin_inverse=bool(r.randint(2)))))
    out.append((dict(kind='bike', lim=[6.0, 0.3], bins=b2, norm=0), lambda: d.DiscreteActionSpaceWrapper(d.InvertibleBicycleModel(), np.array(b2))))
    return out


def corner_actions(spec, shape, r, which):
    """In-spec action data of shape `shape`."""
    lo, hi = np.broadcast_to(np.asarray(spec.minimum, np.float64), spec.shape), np.broadcast_to(np.asarray(spec.maximum, np.float64), spec.shape)
    lo, hi = np.maximum(lo, -1e3), np.minimum(hi, 1e3 if not np.issubdtype(spec.dtype, np.integer) else np.inf)
    if which == 0:
        a = np.broadcast_to(lo, shape)
    elif which == 1:
        a = np.broadcast_to(hi, shape)
    elif np.issubdtype(spec.dtype, np.integer):
        a = r.randint(int(lo.min()), int(hi.max()) + 1, shape)
    else:
        a = lo + (hi - lo) * r.rand(*shape)
    return np.asarray(a).astype(spec.dtype)


def finite_valid(s):
    """1 when everything the simulation wrote at valid slots is a number."""
    t = s.sim_trajectory
    v = np.asarray(t.valid)
    return int(all(np.isfinite(np.asarray(getattr(t, f))[v]).all() for f in ('x', 'y', 'yaw', 'vel_x', 'vel_y')))


class Bare:
    """A stateless environment that has no configuration."""
    def __init__(self, env):
        for f in ('reset', 'step', 'observe', 'reward', 'termination', 'truncation', 'action_spec'):
            setattr(self, f, getattr(env, f))


def declared_traces(c, r):
    import jax, jax.numpy as jnp
    from dm_env import specs
    from waymax import config as wc, env as wenv, datatypes as dt
    from waymax.env import planning_agent_environment as pae
    from waymax.env.wrappers import brax_wrapper as bw, dm_env_wrapper as dmw
    traces = []
    T, w = 5, 2
    for j, (m, mk) in enumerate(spec_models(r, c.thorough)):
        for planning in (0, 1):
            N = int(r.randint(2, 5))
            cls = 'SDC' if planning else ['VALID', 'SDC', 'MODELED'][j % 3]
            ec = wc.EnvironmentConfig(max_num_objects=N, init_steps=w, controlled_object=wc.ObjectType(cls), compute_reward=bool(j % 2), metrics=wc.MetricsConfig(metrics_to_run=('log_divergence', 'overlap')),
                                      rewards=wc.LinearCombinationRewardConfig(rewards={'log_divergence': -1.0, 'overlap': 0.5}))
            dyn = mk()
            env = c.guard('construct', pae.PlanningAgentEnvironment if planning else wenv.BaseEnvironment, dyn, ec)
            brax = c.guard('BraxWrapper', bw.BraxWrapper, env, dyn, ec)
            sc = lambda B: scen.to_state(scen.stack([scen.rand_scenario(r, N, T) for _ in range(B)]) if B else scen.rand_scenario(r, N, T), timestep=0)
            ev = []
            dms = [c.guard('DMEnvWrapper', dmw.DMEnvWrapper, iter([sc(0)] * 3), env, squeeze_scalar_actions=bool(q)) for q in (0, 1)]
            for q, e_ in ((0, env), (0, brax), (0, dms[0]), (1, dms[1])):
                sp = c.guard('action_spec', e_.action_spec)
                dm = e_ in dms
                ev.append(dict(op='spec', squeeze=q, act=arr_spec(sp if dm else sp.data, True), valid=[] if dm else [arr_spec(sp.valid)],
                               rew=arr_spec(c.guard('reward_spec', e_.reward_spec)), disc=arr_spec(c.guard('discount_spec', e_.discount_spec), True)))
            # accept/produce: every batch shape abstractly, one for real
            spec = env.action_spec().data
            lead = () if planning else (N,)
            one = sc(0)
            allb = ((), (1,), (3,), (2, 2))
            for bs in allb if c.thorough else (allb[(2 * j + planning) % 4], allb[(2 * j + planning + 2 + j // 2) % 4]):
                lift = lambda x: jax.ShapeDtypeStruct(bs + x.shape, x.dtype)
                s0 = jax.tree_util.tree_map(lift, jax.tree_util.tree_map(jnp.asarray, one))
                a = dt.Action(data=jax.ShapeDtypeStruct(bs + spec.shape, spec.dtype), valid=jax.ShapeDtypeStruct(bs + lead + (1,), np.bool_))
                for via in ((env, brax) if c.thorough else (env,) if (j + planning + len(bs)) % 2 else (brax,)):
                    try:
                        if via is brax:
                            ts = jax.eval_shape(brax.reset, s0)
                            t2 = jax.eval_shape(brax.step, ts, a)
                            s1, s2, rew, disc = ts.state, t2.state, [made(ts.reward), made(t2.reward)], [made(ts.discount), made(t2.discount)]
                        else:
                            s1 = jax.eval_shape(env.reset, s0)
                            s2 = jax.eval_shape(env.step, s1, a)
                            rew, disc = [made(jax.eval_shape(env.reward, s1, a))], []
                        same = jax.tree_util.tree_structure(s1) == jax.tree_util.tree_structure(s2) and all(
                            x.shape == y.shape and x.dtype == y.dtype for x, y in zip(jax.tree_util.tree_leaves(s1), jax.tree_util.tree_leaves(s2)))
                        for k in range(len(rew)):
                            ev.append(dict(op='accept', out='ok', batch=list(bs), state=[int(v) for v in s2.shape], finite=1, rew=[rew[k]], disc=disc[k:k + 1], dv=[], treedef=int(same)))
                    except Exception as e:  # noqa
                        ev.append(dict(op='accept', out=type(e).__name__, msg=str(e)[:200], batch=list(bs)))
            B = 6
            s = jax.jit(jax.vmap(env.reset))(sc(B))
            a = np.concatenate([corner_actions(spec, (2,) + spec.shape, r, k) for k in range(3)])
            try:
                s2 = jax.jit(jax.vmap(env.step))(s, dt.Action(data=jnp.asarray(a), valid=jnp.ones((B,) + lead + (1,), bool)))
                ev.append(dict(op='accept', out='ok', batch=[B], state=[int(v) for v in s2.shape], finite=finite_valid(s2), rew=[], disc=[], dv=[], treedef=1))
            except Exception as e:  # noqa
                ev.append(dict(op='accept', out=type(e).__name__, batch=[B]))
            if not planning:
                try:
                    st = sc(B)
                    ia = jax.jit(jax.vmap(lambda s_: dyn.inverse(s_.log_trajectory, s_.object_metadata, 1)))(st)
                    d = np.asarray(ia.data)[np.asarray(ia.valid)[..., 0]].reshape(-1, ia.data.shape[-1])
                    d = d if len(d) else np.zeros((1, ia.data.shape[-1]))
                    ev.append(dict(op='infer', batch=[B], **made(ia.data), min=bnd(d.min(0)), max=bnd(d.max(0))))
                except Exception as e:  # noqa
                    ev.append(dict(op='accept', out='inverse:' + type(e).__name__, batch=[B]))
            for e_ in (env, brax):
                try:
                    e_.observation_spec()
                    out = 'ok'
                except Exception as e:  # noqa
                    out = type(e).__name__
                ev.append(dict(op='noobs', out=out))
            m2 = dict(m, lim=[int(np.rint(v * M3)) for v in m['lim']])
            traces.append(dict(model=m2, env='planning' if planning else 'base', n=N, ev=ev))
    # the stateful wrapper: declared observation and what it really returns
    for j in range(6 if not c.thorough else 24):
        N, planning, bs = int(r.randint(2, 5)), j % 2, [(), (2,), (2, 3)][j % 3]
        m = [dict(kind='state', lim=[], bins=[], norm=0), dict(kind='global', lim=[], bins=[3, 2, 1], norm=0)][(j // 2) % 2]
        from waymax import dynamics
        dyn = dynamics.StateDynamics() if not m['bins'] else dynamics.DiscreteActionSpaceWrapper(dynamics.DeltaGlobal(), np.array(m['bins']))
        ec = wc.EnvironmentConfig(max_num_objects=N, init_steps=w, rewards=wc.LinearCombinationRewardConfig(rewards={'log_divergence': -1.0}))
        base = pae.PlanningAgentEnvironment if planning else wenv.BaseEnvironment
        obsk = j % 3
        cls_ = observing(base) if obsk == 1 else base
        if obsk == 2:
            class cls_(base):
                def observe(self, state):
                    return dt.sdc_observation_from_state(state, obs_num_steps=2, roadgraph_top_k=4)
        env = c.guard('construct', cls_, dyn, ec)
        env.reset = jax.jit(env.reset)
        one = scen.rand_scenario(r, N, T)
        st = scen.to_state(one, timestep=0)
        for d in reversed(bs):
            st = jax.tree_util.tree_map(lambda x: jnp.stack([x] * d), st)
        q = j % 4 != 3
        w_ = c.guard('DMEnvWrapper', dmw.DMEnvWrapper, iter([st] * 4), env, squeeze_scalar_actions=q)
        cfgs = []
        for e_ in (w_, dmw.DMEnvWrapper(iter([st] * 2), Bare(env))):
            try:
                cfgs.append(int(e_.config is ec))
            except Exception as e:  # noqa
                cfgs.append(type(e).__name__)
        ev0 = dict(op='config', given=str(cfgs[0]), missing=str(cfgs[1]), inner=int(w_.stateless_env is env))
        spec = c.guard('dm observation_spec', w_.observation_spec)
        aspec = w_.action_spec()
        ev = [ev0]
        leaves = jax.tree_util.tree_leaves
        for k in range(T - w + 1):
            if k == 0:
                ts = c.guard('dm reset', w_.reset)
            else:
                a = corner_actions(aspec, bs + aspec.shape, r, (k - 1) % 3)
                try:
                    ts = w_.step(jnp.asarray(a))
                except Exception as e:  # noqa
                    ev.append(dict(op='accept', out=type(e).__name__, msg=str(e)[:200], batch=list(bs)))
                    break
                fin = finite_valid(w_.simulation_state)
                ev.append(dict(op='accept', out='ok', batch=list(bs), state=[int(v) for v in w_.simulation_state.shape], finite=fin, rew=[made(ts.reward)],
                               disc=[] if ts.step_type.name == 'MID' else [made(np.asarray(ts.discount))], dv=[] if ts.step_type.name == 'MID' else [int(v * 1000) for v in np.ravel(ts.discount)], treedef=1))
            isspec = lambda x: isinstance(x, specs.Array)
            same = jax.tree_util.tree_structure(spec, is_leaf=isspec) == jax.tree_util.tree_structure(ts.observation)
            sl = jax.tree_util.tree_leaves(spec, is_leaf=isspec)
            ev.append(dict(op='obs', batch=list(bs), spec=[arr_spec(x) for x in sl], made=[made(x) for x in leaves(ts.observation)], same=int(same)))
        traces.append(dict(model=m, env='planning' if planning else 'base', n=N, ev=ev))
    return traces


def config_replay(c):
    """Every configuration TLC enumerates, on the real constructors."""
    import jax.numpy as jnp
    from waymax import config as wc, dynamics, rewards
    from waymax.dynamics import discretizer as disc
    from waymax.env import planning_agent_environment as pae
    from waymax.env.wrappers import dm_env_wrapper as dmw
    from waymax.dataloader import womd_utils
    res = c.model_check('MCDeclared', min_states=100)
    ag = [make_agent(i, 3, 1) for i in range(3)]

    def build(g):
        f = g['fam']
        if f == 'env':
            wc.EnvironmentConfig(init_steps=g['init'], observation=wc.ObservationConfig(num_steps=g['obs']) if g['obs'] else None)
        elif f == 'top':
            wc.WaymaxConfig(data_config=wc.DatasetConfig(path='/nowhere', include_sdc_paths=bool(g['paths'])), env_config=wc.EnvironmentConfig(metrics=wc.MetricsConfig(metrics_to_run=tuple(g['metrics']))))
        elif f == 'planning':
            pae.PlanningAgentEnvironment(dynamics.StateDynamics(), wc.EnvironmentConfig(controlled_object=wc.ObjectType(g['class'])), sim_agent_actors=ag[:g['actors']], sim_agent_params=[{}] * g['params'])
        elif f == 'reward':
            rewards.LinearCombinationReward(wc.LinearCombinationRewardConfig(rewards={k: 1.0 for k in g['metrics']}))
        elif f == 'grid':
            disc.Discretizer(-jnp.ones(g['lo']), jnp.ones(g['hi']), jnp.full(g['bins'], 3))
        elif f == 'factory':
            dmw.make_sdc_dm_environment(dynamics.StateDynamics(), wc.DatasetConfig(path='/nowhere'), wc.EnvironmentConfig(controlled_object=wc.ObjectType(g['class'])))
        elif f == 'paths':
            womd_utils.get_features_description(include_sdc_paths=bool(g['paths']), num_paths=3 if g['num'] else None, num_points_per_path=4 if g['pts'] else None)
    bad = 0
    for m in res.msgs:
        try:
            build(m['g'])
            out = 'ok'
        except Exception as e:  # noqa
            out = type(e).__name__
        # a rejection is any exception; a scalar grid mismatch may be caught by the array library
        if (out == 'ok') != m['ok']:
            bad += 1
            if bad <= 3:
                c.fail('config.' + m['g']['fam'], dict(config=m['g'], got=out, accepted=m['ok']))
    c.traces += len(res.msgs)
    c.extra['model_behaviours_replayed_in_impl'] = len(res.msgs)
    c.log(f'replayed {len(res.msgs)} configurations')


def run_c38(c):
    r = c.rng()
    config_replay(c)
    tr = declared_traces(c, r)
    c.log(f'recorded {len(tr)} environments')
    c.judge('TraceDeclared', tr)


# --------------------------------------------------------- C07 batch = alone
def vals(tree):
    """Leaves of one scenario's result -> (exact ints, 1/1000 ints)."""
    import jax
    x, v = [], []
    for a in jax.tree_util.tree_leaves(tree):
        a = np.asarray(a)
        if a.dtype.kind == 'f':
            v += wx.fx(a.ravel(), 1000)
        else:
            x += a.astype(np.int64).ravel().tolist()
    return x, v


def noisy(r, sc):
    """Moves the log off the lattice so that no predicate is decided by a tie."""
    for f in ('x', 'y', 'yaw', 'length', 'width'):
        a = sc['log'][f]
        n = r.uniform(0.0005, 0.01, a.shape if f in 'xyyaw' else a[:, :1].shape)
        sc['log'][f] = (a + n).astype(np.float32)
    return sc


def run_c07(c):
    import jax, jax.numpy as jnp
    import metric_check as mc
    from waymax import config as wc, dynamics, env as wenv, datatypes as dt
    from waymax.env import planning_agent_environment as pae
    r = c.rng()
    c.model_check('MCBatch', min_states=1000)
    N, T = mc.N, 6
    mk = [('global', lambda: dynamics.DeltaGlobal()), ('bike', lambda: dynamics.InvertibleBicycleModel()), ('state', lambda: dynamics.StateDynamics()),
          ('local', lambda: dynamics.DeltaLocal()), ('norm', lambda: dynamics.InvertibleBicycleModel(normalize_actions=True)),
          ('discrete', lambda: dynamics.DiscreteActionSpaceWrapper(dynamics.DeltaLocal(), np.array([4, 4, 4]))),
          ('search', lambda: dynamics.DiscreteActionSpaceWrapper(dynamics.InvertibleBicycleModel(), np.array([4, 4]), bin_inverse=False))]
    quick = [(0, 0, 'VALID', ('batch', 'batch2', 'clocks')), (1, 1, 'SDC', ('batch', 'vmap', 'mixed')), (2, 0, 'MODELED', ('batch2', 'vmap', 'eager')),
             (3, 1, 'SDC', ('batch2', 'clocks')), (5, 0, 'VALID', ('batch', 'mixed')), (4, 0, 'SDC', ('batch',))]
    every = ('batch', 'batch2', 'vmap', 'mixed', 'clocks', 'eager')
    plan = quick if not c.thorough else quick + [(i, p, k, every) for i in range(len(mk)) for p in (0, 1) for k in (('SDC',) if p else ('VALID', 'MODELED', 'SDC'))]
    traces = []
    for j, (mi, planning, cls, modes) in enumerate(plan):
        name, make = mk[mi]
        w = int(r.randint(2, 4))
        B = 4
        names = ALL if j % 2 == 0 else tuple(r.permutation(ALL)[:5])
        rw = {n: float(r.choice([-1, 2, 0.5])) for n in r.permutation(ALL)[:4]}
        ec = wc.EnvironmentConfig(max_num_objects=N, init_steps=w, controlled_object=wc.ObjectType(cls), allow_new_objects_after_warmup=bool(j % 2),
                                  metrics=wc.MetricsConfig(metrics_to_run=names), rewards=wc.LinearCombinationRewardConfig(rewards=rw))
        dyn = make()
        if planning and j % 6 != 4:      # other agents drive in the scene as well
            from waymax import agents
            others = lambda s: ~s.object_metadata.is_sdc
            acts_ = [agents.create_constant_speed_actor(dynamics.StateDynamics(), others, 3.0)] if j % 2 else []
            if j % 6 == 1 or not j % 2:
                acts_.append(agents.IDMRoutePolicy(is_controlled_func=lambda s: ~s.object_metadata.is_sdc & (s.object_metadata.ids % 2 == 0)))
            env = c.guard('construct', pae.PlanningAgentEnvironment, dyn, ec, sim_agent_actors=acts_, sim_agent_params=[{}] * len(acts_))
        else:
            env = c.guard('construct', pae.PlanningAgentEnvironment if planning else wenv.BaseEnvironment, dyn, ec)
        spec = env.action_spec().data
        lead = () if planning else (N,)
        scs = [noisy(r, mc.scenario(r, N, T)['sc']) for _ in range(2 * B)]
        st = scen.to_state(scen.stack(scs[:B]), timestep=0)
        oth = scen.to_state(scen.stack(scs[B:]), timestep=0)
        n = 2
        acts = []
        for k in range(n):
            a = np.stack([corner_actions(spec, spec.shape, r, 2) for _ in range(B)])
            if name == 'state':
                near = np.stack([np.stack([s['log'][f][:, w + k] for f in ('x', 'y', 'yaw', 'vel_x', 'vel_y')], -1) for s in scs[:B]])
                a = (near + r.uniform(-2, 2, near.shape)).astype(np.float32)
                a = a[:, 0] if planning else a
            acts.append((a, (r.rand(B, *lead, 1) < 0.85)))

        def adv(s, a):
            return env.step(s, a), env.metrics(s), env.reward(s, a), (env.termination(s), env.truncation(s))

        def episode(V, s0, shp):
            """V compiles; shp maps (B, ...) arrays to the layout wanted."""
            R, A = V(env.reset), V(adv)
            s = R(jax.tree_util.tree_map(lambda x: jnp.asarray(shp(np.asarray(x))), s0))
            out = [('reset', scen.host(s))]
            for a, v in acts:
                nxt, met, rew, end = A(s, dt.Action(data=jnp.asarray(shp(a)), valid=jnp.asarray(shp(v))))
                out += [('metrics', scen.host(met)), ('reward', scen.host(rew)), ('end', scen.host(end)), ('step', scen.host(nxt))]
                s = nxt
            return out
        # alone: one compiled program, one scenario at a time
        R1, A1 = jax.jit(env.reset), jax.jit(adv)

        def alone(b):
            cast = lambda x: jnp.asarray(np.asarray(x)[b])
            s = c.guard('reset', R1, jax.tree_util.tree_map(cast, st))
            out, states = [('reset', scen.host(s))], [s]
            for a, v in acts:
                nxt, met, rew, end = c.guard('step/metrics/reward', A1, s, dt.Action(data=jnp.asarray(a[b]), valid=jnp.asarray(v[b])))
                out += [('metrics', scen.host(met)), ('reward', scen.host(rew)), ('end', scen.host(end)), ('step', scen.host(nxt))]
                states.append(nxt)
                s = nxt
            return out, states
        ref = [alone(b) for b in range(B)]

        def unbatch(tree, dims, b):
            """Component b of a batched result; a scalar clock is shared."""
            ix = np.unravel_index(b, dims) if dims else ()
            own = 1 if mode == 'mixed' else 0     # leading axes every leaf must have

            def leaf(x):
                x = np.asarray(x)
                if x.ndim < len(ix) and x.ndim == own and x.dtype.kind in 'ib':
                    return x[ix[:own]]
                return x[ix] if x.ndim >= len(ix) else np.zeros(97, np.int8)   # wrong shape: never equal
            return jax.tree_util.tree_map(leaf, tree)
        ident = lambda x: x
        two = lambda x: x.reshape((2, 2) + x.shape[1:])
        ev = []

        def compare(mode, what, b, a_tree, b_tree):
            ax, av = vals(a_tree)
            bx, bv = vals(b_tree)
            ev.append(dict(op='lift', out='ok', mode=mode, what=what, ax=ax, av=av, bx=bx, bv=bv))
        for mode in modes:
            try:
                if mode == 'clocks':
                    # one batch whose members are at different times
                    pick = [int(x) for x in r.randint(0, n, B)]
                    pick[:2] = [0, 1][::-1 if j % 4 else 1]
                    s = jax.tree_util.tree_map(lambda *x: jnp.stack(x), *[ref[b][1][pick[b]] for b in range(B)])
                    a = np.stack([acts[pick[b]][0][b] for b in range(B)])
                    v = np.stack([acts[pick[b]][1][b] for b in range(B)])
                    grid = (2, 2) if j % 2 or c.thorough and r.rand() < 0.5 else (B,)
                    lay = lambda x: jnp.asarray(x).reshape(grid + np.shape(x)[1:])
                    nxt, met, rew, end = jax.jit(adv)(jax.tree_util.tree_map(lay, s), dt.Action(data=lay(a), valid=lay(v)))
                    for b in range(B):
                        for what, tree in (('metrics', met), ('reward', rew), ('end', end), ('step', nxt)):
                            want = [x for x in ref[b][0] if x[0] == what][pick[b]][1]
                            compare(mode, what, b, want, unbatch(scen.host(tree), grid, b))
                    continue
                V = {'batch': jax.jit, 'batch2': jax.jit, 'vmap': lambda f: jax.jit(jax.vmap(f)), 'mixed': lambda f: jax.jit(jax.vmap(f)), 'eager': ident}[mode]
                shp = two if mode in ('batch2', 'mixed') else ident
                dims = (2, 2) if mode in ('batch2', 'mixed') else (B,)
                if mode == 'eager':
                    # uncompiled, alone
                    s = env.reset(jax.tree_util.tree_map(lambda x: jnp.asarray(np.asarray(x)[0]), st))
                    got = [('reset', scen.host(s))]
                    for a, v in acts[:1]:
                        nxt, met, rew, end = adv(s, dt.Action(data=jnp.asarray(a[0]), valid=jnp.asarray(v[0])))
                        got += [('metrics', scen.host(met)), ('reward', scen.host(rew)), ('end', scen.host(end)), ('step', scen.host(nxt))]
                    for (what, want), (_, tree) in zip(ref[0][0], got):
                        compare(mode, what, 0, want, tree)
                    continue
                got = episode(V, st, shp)
            except Exception as e:  # noqa
                if not wx.in_repo(e):
                    raise
                ev.append(dict(op='lift', out=type(e).__name__, msg=str(e)[:300], mode=mode, what='call'))
                continue
            for k, (what, tree) in enumerate(got):
                for b in range(B):
                    compare(mode, what, b, ref[b][0][k][1], unbatch(tree, dims, b))
            if mode != modes[0] and not c.thorough:
                continue
            # exchange every scenario but one
            RV, AV = V(env.reset), V(adv)
            for keep in ((0, 3) if c.thorough else (int(r.randint(B)),)):
                m = np.arange(B) != keep
                mix = lambda x, y: jnp.asarray(shp(np.where(m.reshape((B,) + (1,) * (np.ndim(x) - 1)), np.asarray(y), np.asarray(x))))
                s = RV(jax.tree_util.tree_map(mix, st, oth))
                out = [('reset', scen.host(s))]
                for a, v in acts:
                    a2 = np.where(m.reshape((B,) + (1,) * (a.ndim - 1)), a[::-1], a)
                    v2 = np.where(m.reshape((B,) + (1,) * (v.ndim - 1)), ~v, v)
                    nxt, met, rew, end = AV(s, dt.Action(data=jnp.asarray(shp(a2)), valid=jnp.asarray(shp(v2))))
                    out += [('metrics', scen.host(met)), ('reward', scen.host(rew)), ('end', scen.host(end)), ('step', scen.host(nxt))]
                    s = nxt
                for (what, t1), (_, t2) in zip(got, out):
                    ev.append(dict(op='isolated', what=what, mode=mode, a=wx.digest(unbatch(t1, dims, keep)), b=wx.digest(unbatch(t2, dims, keep))))
        c.log(f'{name} {"planning" if planning else cls} {modes}')
        traces += [dict(t, cfg=dict(model=name, planning=planning, cls=cls)) for t in chunked(ev, 10)]
    c.judge('TraceBatch', traces)
