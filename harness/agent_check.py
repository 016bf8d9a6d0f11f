"""C30-C33: reference actors (Agents.tla, TraceAgents.tla)."""
import numpy as np
import wx, scen
from dyn_check import D, S, act_scale, cur_of, model, params, scaled

RULES = ('sdc', 'non_sdc', 'all', 'none', 'valid', 'type1', 'now', 'clock')


def chunked(ev, n=16):
    return [dict(ev=ev[i:i + n]) for i in range(0, len(ev), n)]


def rule_fn(rule):
    import jax.numpy as jnp

    def f(state):
        m = state.object_metadata
        if rule == 'sdc':
            return m.is_sdc
        if rule == 'non_sdc':
            return ~m.is_sdc
        if rule == 'all':
            return jnp.ones_like(m.is_sdc)
        if rule == 'none':
            return jnp.zeros_like(m.is_sdc)
        if rule == 'valid':
            return m.is_valid
        if rule == 'type1':
            return m.object_types == 1
        t = jnp.asarray(state.timestep)
        if rule == 'now':
            v = state.sim_trajectory.valid
            return jnp.take_along_axis(v, jnp.broadcast_to(t[..., None, None], v.shape[:-1] + (1,)), -1)[..., 0]
        return jnp.broadcast_to((jnp.arange(1, m.is_sdc.shape[-1] + 1) + t[..., None]) % 2 == 0, m.is_sdc.shape)
    return f


# ------------------------------------------------------------------ scenes
def road_log(r, N, T):
    """Objects on smooth paths, with gaps, parked ones and early ends."""
    d = scen.rand_traj(r, N, T)
    for o in range(N):
        style = r.randint(6)
        h = r.uniform(-3.1, 3.1)
        k = r.uniform(-0.08, 0.08) if style != 1 else 0.0
        s = r.uniform(0.2, 2.0, T)
        if style == 2:
            s[:] = 0
        if style == 3:
            s[T // 2:] = 0
        x, y = r.uniform(-15, 15, 2)
        for t in range(T):
            d['x'][o, t], d['y'][o, t], d['yaw'][o, t] = x, y, h
            v = s[t] * 10
            d['vel_x'][o, t], d['vel_y'][o, t] = v * np.cos(h), v * np.sin(h)
            x, y, h = x + s[t] * np.cos(h), y + s[t] * np.sin(h), h + k
        if style == 4:
            d['yaw'][o] = (d['yaw'][o] + np.pi) % (2 * np.pi) - np.pi
        d['z'][o] = np.round(r.uniform(-1, 1), 2) + (0 if r.rand() < 0.5 else 0.05 * np.arange(T))
        v = np.ones(T, bool)
        if r.rand() < 0.4:
            v[:r.randint(0, 3)] = False
        if r.rand() < 0.4:
            v[T - r.randint(0, 4):] = False if r.rand() < 0.7 else True
        if r.rand() < 0.4:
            v &= r.rand(T) < 0.7
        d['valid'][o] = v
        d['length'][o], d['width'][o] = r.uniform(1, 5), r.uniform(0.6, 2.4)
    d['x'] = np.where(d['valid'], d['x'], np.float32(-1))
    d['y'] = np.where(d['valid'], d['y'], np.float32(-1))
    return {k: np.asarray(v, np.float32) if v.dtype.kind == 'f' else v for k, v in d.items()}


def road_scene(r, N, T, t=None):
    """scenario, simulated trajectory and clock: the current slot is off the log."""
    sc = scen.rand_scenario(r, N, T)
    sc['log'] = road_log(r, N, T)
    sc['meta']['is_valid'] = sc['log']['valid'].any(-1)
    t = int(r.randint(0, T - 1)) if t is None else t
    sim = {k: v.copy() for k, v in sc['log'].items()}
    for o in range(N):
        style = r.randint(5)
        q = int(r.randint(0, T)) if style != 0 else t
        if style == 4:
            q = T - 1
        if not sc['log']['valid'][o].any():
            q = t
        elif not sc['log']['valid'][o, q]:
            q = int(r.choice(np.nonzero(sc['log']['valid'][o])[0]))
        off = r.uniform(-0.6, 0.6, 2) if style < 3 else r.uniform(-0.02, 0.02, 2)
        if r.rand() < 0.12:
            off = r.uniform(-9, 9, 2)
        sp = r.choice([0.0, 0.4, 3.0, 8.0, 15.0]) * r.uniform(0.8, 1.2)
        yaw = sim['yaw'][o, q] + r.uniform(-0.3, 0.3)
        for f, v in (('x', sim['x'][o, q] + off[0]), ('y', sim['y'][o, q] + off[1]), ('z', sim['z'][o, q]), ('yaw', yaw),
                     ('vel_x', sp * np.cos(yaw)), ('vel_y', sp * np.sin(yaw))):
            sim[f][o, t] = v
        sim['valid'][o, t] = r.rand() < 0.85
        sim['length'][o], sim['width'][o] = sim['length'][o, 0], sim['width'][o, 0]
    return sc, sim, t


def lane_scene(r, N, T, t=None):
    """Vehicles close ahead of, beside and behind each other."""
    sc, sim, t = road_scene(r, N, T, t)
    lead = 0
    a = r.uniform(-3, 3)
    c, s = np.cos(a), np.sin(a)
    x0, y0 = r.uniform(-10, 10, 2)
    for o in range(N):
        u = [0, r.uniform(3, 17), r.uniform(-14, -3), r.uniform(2, 14), r.uniform(-10, 18)][o % 5]
        w = [0, r.uniform(-0.8, 0.8), r.uniform(-0.5, 0.5), r.uniform(-5, 5), r.uniform(-3, 3)][o % 5]
        h = a + (r.uniform(-0.1, 0.1) if o % 5 < 3 else r.uniform(-3, 3))
        v = r.choice([0.0, 2.0, 6.0, 12.0]) * r.uniform(0.7, 1.3)
        sim['length'][o], sim['width'][o] = r.uniform(2, 5), r.uniform(1, 2.2)
        for f, val in (('x', x0 + u * c - w * s), ('y', y0 + u * s + w * c), ('yaw', h), ('vel_x', v * np.cos(h)), ('vel_y', v * np.sin(h)), ('z', 0)):
            sim[f][o, t] = val
        sim['valid'][o, t] = r.rand() < 0.85
        # its own path passes through its place, in its direction
        for q in range(T):
            e = 1.5 * (q - t) * [1.0, 0.4][r.randint(2) if q < 0 else 0]
            for f, val in (('x', x0 + u * c - w * s + e * np.cos(h)), ('y', y0 + u * s + w * c + e * np.sin(h)), ('yaw', h), ('z', 0)):
                sc['log'][f][o, q] = val
        sc['log']['length'][o], sc['log']['width'][o] = sim['length'][o, 0], sim['width'][o, 0]
        sc['log']['valid'][o] = (r.rand(T) < 0.9) if r.rand() < 0.4 else True
    return sc, sim, t


def moved(items, r):
    """The same scenes somewhere else (up to a kilometre away), as float32 data."""
    for sc, sim, _ in items:
        for f, o in zip('xy', r.randint(-1000, 1000, 2)):
            for d in (sc['log'], sim):
                d[f] = np.where(d['valid'] | (d[f] != -1), d[f] + o, d[f]).astype(np.float32)
    return items


def batch_state(items):
    scs, sims, ts = zip(*items)
    return scen.to_state(scen.stack(list(scs)), sim=scen.stack(list(sims)), timestep=np.array(ts))


def now(sim, o, t):
    return cur_of(sim, (o, t))


def fx5(a):
    return [wx.fx(np.asarray(v), s) for v, s in zip(a, (D, D, S, D, D))]


def obj_rows(sc, sim, t):
    m = sc['meta']
    return [dict(sdc=int(m['is_sdc'][o]), type=int(m['object_types'][o]), valid=int(m['is_valid'][o]), cv=int(sim['valid'][o, t])) for o in range(len(m['ids']))]


def claim_event(actor, rule, sc, sim, t, got):
    return dict(op='claim', actor=actor, rule=rule, obj=obj_rows(sc, sim, t), t=int(t), got=np.asarray(got).astype(int).tolist())


def caller(c, what, agent, jit=True):
    import jax
    f = lambda params, s: agent.select_action(params, s, agent.init(jax.random.PRNGKey(0), s), jax.random.PRNGKey(1))
    f = jax.jit(f) if jit else f
    return lambda s, params=None: c.guard(what, f, params if params is not None else {}, s)


# ------------------------------------------------------------------ C30
def bounds_of(kind, p):
    hi = {'state': [wx.OFF] * 5, 'global': [p['maxdx'], p['maxdy'], p['maxdyaw']], 'bike': [S, S] if p['norm'] else [p['maxacc'], p['maxsteer']]}
    hi['local'] = hi['global']
    return [-v for v in hi[kind]], hi[kind]


def run_c30(c):
    import jax, jax.numpy as jnp
    from waymax import agents, config as cfg, datatypes as dt, dynamics, env as wenv
    from waymax.agents import constant_speed, sim_agent
    r = c.rng()
    N, T, B = 5, 9, 6
    ev, traces = [], []
    kinds = ['state', 'global', 'local', 'bike']
    reps = 2 if not c.thorough else 8
    for j in range(len(kinds) * reps):
        kind = kinds[j % 4]
        p = params(r, kind, j // 4 + (j % 2 if c.thorough else 0))
        m = c.guard('construct', model, kind, p)
        lo, hi = bounds_of(kind, p)
        sc_ = act_scale(kind, p)
        items = [road_scene(r, N, T) for _ in range(B)]
        # half of the scenes: the simulation is close to the log
        for b, (sc, sim, t) in enumerate(items):
            if b % 2:
                for f in ('x', 'y', 'yaw', 'vel_x', 'vel_y'):
                    e = {'x': 0.8, 'y': 0.8, 'yaw': 0.1}.get(f, 1.0)
                    sim[f][:, t] = sc['log'][f][:, t + 1] + r.uniform(-e, e, N)
        state = batch_state(items)
        rule = RULES[j % len(RULES)]
        dflt = j % 5 == 0
        expert = agents.create_expert_actor(m) if dflt else agents.create_expert_actor(m, is_controlled_func=rule_fn(rule))
        variants = [('expert', 'sdc' if dflt else rule, expert, None, None)]
        for sp in (None, float(np.round(r.uniform(0, 9), 2)) if j % 3 else 0.0):
            rl = RULES[(j + 3 + (sp is None)) % len(RULES)]
            variants.append(('const', rl, agents.create_constant_speed_actor(m, rule_fn(rl), sp), sp is None, sp or 0.0))
        for name, rl, actor, keep, sp in variants:
            call = caller(c, f'{name} actor', actor, jit=(j % 2 == 0))
            o = call(state)
            data, valid, ctl = np.asarray(o.action.data), np.asarray(o.action.valid), np.asarray(o.is_controlled)
            if data.shape != (B, N, len(sc_)) or valid.shape != (B, N, 1) or ctl.shape != (B, N):
                c.fail(f'{name}.shape', dict(data=data.shape, valid=valid.shape, ctl=ctl.shape))
                continue
            for b, (sc, sim, t) in enumerate(items):
                ev.append(claim_event(name, rl, sc, sim, t, ctl[b]))
                for k in range(N):
                    e = dict(kind=kind, p=p, cur=now(sim, k, t), out=scaled(data[b, k], sc_), valid=int(valid[b, k, 0]), lo=lo, hi=hi)
                    if name == 'expert':
                        ev.append(dict(e, op='expert', nxt=now(sc['log'], k, t + 1)))
                    else:
                        ev.append(dict(e, op='const', keep=int(keep), sp=wx.fx(np.float32(sp), D), ctl=int(ctl[b, k])))
        if j >= len(kinds):
            continue
        # more objects, a longer log, a later clock
        big = [road_scene(r, 20, 30, int(r.randint(11, 29))) for _ in range(2)]
        big = moved(big, r) if kind != 'bike' else big
        if j == c.seed % 4 or c.thorough:   # more objects and steps than a byte can number
            big += [road_scene(r, 131, 134, int(r.randint(128, 133)))]
        for one in ([big[:2]] + [big[2:]] if len(big) > 2 else [big]):
          st = batch_state(one)
          for name, rl, actor, keep, sp in (('expert', rule, agents.create_expert_actor(m, is_controlled_func=rule_fn(rule)), None, None), ('const', rule, agents.create_constant_speed_actor(m, rule_fn(rule), None), True, 0.0)):
              o = caller(c, f'{name} actor', actor)(st)
              for b, (sc, sim, t) in enumerate(one):
                  ev.append(claim_event(name, rl, sc, sim, t, np.asarray(o.is_controlled)[b]))
                  for k in range(len(sim['x'])):
                      e = dict(kind=kind, p=p, cur=now(sim, k, t), out=scaled(np.asarray(o.action.data)[b, k], sc_), valid=int(np.asarray(o.action.valid)[b, k, 0]), lo=lo, hi=hi)
                      ev.append(dict(e, op='expert', nxt=now(sc['log'], k, t + 1)) if name == 'expert' else dict(e, op='const', keep=1, sp=0, ctl=int(np.asarray(o.is_controlled)[b, k])))
    # histories: the expert drives every object of the real environment
    for j, kind in enumerate(kinds):
        p = params(r, kind, 0)
        m = model(kind, p)
        items = [road_scene(r, N, T, 0) for _ in range(3)]
        for sc, _, _ in items:
            sc['log']['valid'][:, 0] = True
            bad = (sc['log']['x'] == -1) & (sc['log']['y'] == -1)
            sc['log']['valid'] &= ~bad
        e = wenv.MultiAgentEnvironment(dynamics_model=m, config=cfg.EnvironmentConfig(max_num_objects=N, controlled_object=cfg.ObjectType.VALID, init_steps=2))
        expert = agents.create_expert_actor(m, rule_fn(RULES[(j * 3 + 4) % 8]))
        call = caller(c, 'expert actor', expert)
        st = c.guard('reset', jax.jit(e.reset), scen.to_state(scen.stack([i[0] for i in items])))
        step = jax.jit(e.step)
        for q in range(T - 2):
            o = call(st)
            nx = c.guard('step', step, st, o.action)
            a, b_ = scen.host(st.sim_trajectory), scen.host(nx.sim_trajectory)
            t = int(np.max(np.asarray(st.timestep)))
            for b, (sc, _, _) in enumerate(items):
                simd = {f: np.asarray(getattr(a, f))[b] for f in ('x', 'y', 'yaw', 'vel_x', 'vel_y', 'valid')}
                outd = {f: np.asarray(getattr(b_, f))[b] for f in ('x', 'y', 'yaw', 'vel_x', 'vel_y', 'valid')}
                ev.append(claim_event('expert', RULES[(j * 3 + 4) % 8], sc, simd, t, np.asarray(o.is_controlled)[b]))
                for k in range(N):
                    if sc['meta']['is_valid'][k]:
                        w = now(outd, k, t + 1)
                        ev.append(dict(op='reach', kind=kind, p=p, cur=now(simd, k, t), nxt=now(sc['log'], k, t + 1), out=[w[f] for f in ('x', 'y', 'yaw', 'vx', 'vy')], valid=w['valid']))
            st = nx
    # sim-agent base class and the config builder
    items = [road_scene(r, N, T) for _ in range(B)]
    state = batch_state(items)
    from waymax.agents import agent_builder
    acts = [('frozen', 'non_sdc', sim_agent.FrozenSimPolicy())]
    acts += [('frozen', rl, sim_agent.FrozenSimPolicy(rule_fn(rl))) for rl in (('now', 'clock') if not c.thorough else RULES)]
    mk = lambda ot: agent_builder.create_sim_agents_from_config(cfg.SimAgentConfig(agent_type=cfg.SimAgentType.IDM, controlled_objects=ot))
    acts += [('idm_config', 'sdc', c.guard('agent_builder', mk, cfg.ObjectType.SDC)), ('idm_config', 'non_sdc', c.guard('agent_builder', mk, cfg.ObjectType.NON_SDC)),
             ('idm', 'non_sdc', agents.IDMRoutePolicy()), ('constspeed', 'non_sdc', constant_speed.ConstantSpeedPolicy(3.0))]
    for name, rl, a in acts:
        o = caller(c, name, a)(state)
        for b, (sc, sim, t) in enumerate(items):
            ev.append(claim_event(name, rl, sc, sim, t, np.asarray(o.is_controlled)[b]))
            if name == 'frozen':
                for k in range(N):
                    ev.append(dict(op='frozen', cur=now(sim, k, t), out=fx5(np.asarray(o.action.data)[b, k]), valid=int(np.asarray(o.action.valid)[b, k, 0])))
        if name == 'frozen' and a.name != 'FrozenSimPolicy':
            c.fail('frozen.name', dict(got=a.name))
    for ot in (cfg.ObjectType.MODELED, cfg.ObjectType.VALID):
        try:
            mk(ot)
            c.fail('builder.unsupported_objects_accepted', dict(ot=str(ot)))
        except NotImplementedError:
            pass
    traces += chunked(ev)
    c.model_check('MCFixed')
    c.judge('TraceAgents', traces, only=['claim', 'expert', 'const', 'frozen'])


# ------------------------------------------------------------------ C31
def run_c31(c):
    import jax, jax.numpy as jnp
    from waymax import datatypes as dt
    from waymax.agents import actor_core
    r = c.rng()
    res = c.model_check('MCMerge', min_states=300)
    cases = res.msgs
    NA, NO = 3, 3
    # every case of the model, as one batch and one by one
    own = np.array([m['own'] for m in cases])
    order = np.array([m['ord'] for m in cases])
    outs = []
    for a in range(NA):
        who = order[:, a:a + 1]
        ix = np.arange(1, NO + 1)[None]
        claim = own == who
        outs.append(actor_core.WaymaxActorOutput(actor_state=None, is_controlled=jnp.asarray(claim),
                    action=dt.Action(data=jnp.asarray((10 * who + ix)[..., None], jnp.float32), valid=jnp.asarray(((who + ix) % 2 == 1)[..., None]))))
    got = c.guard('merge_actions', actor_core.merge_actions, outs)
    gd, gv = np.asarray(got.data)[..., 0], np.asarray(got.valid)[..., 0]
    for b, m in enumerate(cases):
        for i in range(NO):
            if own[b, i] and (gd[b, i] != m['res'][i][0] or int(gv[b, i]) != m['res'][i][1]):
                c.fail('merge.replay', dict(case=m, got=[float(gd[b, i]), int(gv[b, i])]))
    c.traces += len(cases)
    c.extra['model_behaviours_replayed_in_impl'] = len(cases)
    ev = []
    for j in range(24 if not c.thorough else 240):
        na, N, A = int(r.randint(1, 5)), int(r.randint(1, 7)), int(r.choice([1, 2, 3, 5]))
        if j % 8 == 7:
            na, N = 7, [40, 140, 300][(j // 8) % 3]
        shape = [(N,), (2, N), (2, 3, N)][j % 3]
        owner = r.randint(0, na + 1, shape)
        if j % 4 == 0:
            owner = r.randint(1, na + 1, shape)
        dtype = np.int32 if A == 1 and j % 2 else np.float32
        outs, raw = [], []
        for a in range(na):
            d = (r.randint(-1000, 1000, shape + (A,)) * (1 if dtype == np.int32 else 0.37)).astype(dtype)
            cl = owner == a + 1
            if dtype == np.float32 and j % 5 == 1:
                junk = r.choice([np.nan, np.inf, 1e30, -1], shape + (A,)).astype(np.float32)
                d = np.where(cl[..., None], d, junk)
            v = r.rand(*shape, 1) < 0.6
            raw.append((cl, d, v))
            st = {'h': jnp.full((3,), a)} if j % 2 else None
            outs.append(actor_core.WaymaxActorOutput(actor_state=st, is_controlled=jnp.asarray(cl), action=dt.Action(data=jnp.asarray(d), valid=jnp.asarray(v))))
        fn = jax.jit(actor_core.merge_actions) if j % 6 == 2 else actor_core.merge_actions
        seq = [tuple, list][j % 2](outs)
        g = c.guard('merge_actions', fn, seq)
        gd, gv = np.asarray(g.data), np.asarray(g.valid)
        if gd.shape != shape + (A,) or gv.shape != shape + (1,) or gd.dtype != dtype or gv.dtype != bool:
            c.fail('merge.shape', dict(got=[gd.shape, gv.shape, str(gd.dtype), str(gv.dtype)], want=shape))
            continue
        bits = lambda d, ix: np.ascontiguousarray(d[ix]).view(np.int32).tolist()
        for ix in np.ndindex(*shape[:-1]):
            ev.append(dict(op='merge', outs=[dict(claim=cl[ix].astype(int).tolist(), act=[bits(d, ix + (k,)) for k in range(N)], valid=v[ix][:, 0].astype(int).tolist()) for cl, d, v in raw],
                           got=[[bits(gd, ix + (k,)), int(gv[ix + (k, 0)])] for k in range(N)]))
    try:
        actor_core.merge_actions([])
        c.fail('merge.empty_accepted', {})
    except NotImplementedError:
        pass
    c.judge('TraceAgents', chunked(ev), only=['merge'])


# ------------------------------------------------------------------ C32, C33
def wps(log, o):
    return [[wx.fx(log['x'][o, q], D), wx.fx(log['y'][o, q], D), wx.fx(log['yaw'][o, q], S), int(log['valid'][o, q])] for q in range(log['x'].shape[-1])]


def follow_events(out, speeds, svalid, items, inv):
    data, valid = np.asarray(out.action.data), np.asarray(out.action.valid)
    ev = []
    for b, (sc, sim, t) in enumerate(items):
        for o in range(data.shape[1]):
            ev.append(dict(op='follow', cur=now(sim, o, t), log=wps(sc['log'], o), ns=wx.fx(np.float32(speeds[b, o]), D), nsv=int(svalid[b, o]), inv=int(inv),
                           out=fx5(data[b, o]), valid=int(valid[b, o, 0])))
    return ev


def table_policy(inv, rule):
    """A follower whose chosen speeds are data: sdc_paths.x / .valid [..., 0, :N]."""
    from waymax import agents

    class TablePolicy(agents.WaypointFollowingPolicy):
        def update_speed(self, state, dt=0.1):
            N = state.object_metadata.is_sdc.shape[-1]
            return state.sdc_paths.x[..., 0, :N], state.sdc_paths.valid[..., 0, :N]
    from waymax.agents import actor_core
    actor_core.register_actor_core(TablePolicy)
    return TablePolicy(is_controlled_func=rule_fn(rule), invalidate_on_end=inv)


def table(r, sc, N):
    sc['paths'] = scen.rand_paths(r, 2, max(N, 5))
    sp = r.choice([0.0, 0.3, 0.99, 1.5, 4.0, 12.0, 30.0], N) * r.uniform(0.9, 1.1, N)
    sc['paths']['x'][0, :N] = sp
    sc['paths']['valid'][0, :N] = r.rand(N) < 0.85
    return sc


def run_c33(c):
    import jax, jax.numpy as jnp
    from waymax.agents import constant_speed
    from waymax import agents, config as cfg, dynamics, env as wenv
    r = c.rng()
    follow_replay(c)
    ev = []
    for j in range(4 if not c.thorough else 24):
        inv = j % 2
        N, T, B = [(5, 10), (4, 14), (6, 7), (3, 20)][j % 4] + (12,)
        items = [road_scene(r, N, T) for _ in range(B)]
        items = [(table(r, sc, N), sim, t) for sc, sim, t in items]
        state = batch_state(items)
        a = table_policy(inv, RULES[(j * 3) % 8])
        o = caller(c, 'update_trajectory', a, jit=True)(state)
        sp = np.stack([i[0]['paths']['x'][0, :N] for i in items])
        sv = np.stack([i[0]['paths']['valid'][0, :N] for i in items])
        ev += follow_events(o, sp, sv, items, inv)
        if j < 2:      # one scenario alone, uncompiled
            it = items[0]
            o1 = c.guard('update_trajectory', a.select_action, {}, scen.to_state(it[0], sim=it[1], timestep=it[2]), None, None)
            o1 = jax.tree_util.tree_map(lambda x: x[None], o1)
            ev += follow_events(o1, sp[:1], sv[:1], [it], inv)
    # a longer log, a later clock, more objects, away from the origin
    N, T, B = 14, 40, 3
    items = moved([road_scene(r, N, T, int(r.randint(11, T - 1))) for _ in range(B)], r)
    items = [(table(r, sc, N), sim, t) for sc, sim, t in items]
    for inv in (0, 1):
        o = caller(c, 'update_trajectory', table_policy(inv, 'all'))(batch_state(items))
        ev += follow_events(o, *(np.stack([i[0]['paths'][f][0, :N] for i in items]) for f in ('x', 'valid')), items, inv)
    # more objects and steps than a byte can number
    N, T = 131, 134
    sc, sim, t = road_scene(r, N, T, int(r.randint(128, 133)))
    items = [(table(r, sc, N), sim, t)]
    inv = c.seed % 2
    o = caller(c, 'update_trajectory', table_policy(inv, 'all'))(batch_state(items))
    e = follow_events(o, sc['paths']['x'][:1, :N], sc['paths']['valid'][:1, :N], items, inv)
    ev += e if c.thorough else e[::8] + e[127:]
    # constant-speed followers: closed loop in the environment until everybody is gone
    for j in range(2 if not c.thorough else 8):
        N, T, B = 4, 14, 3
        v = [6.0, 14.0, 0.5, 0.0][j % 4]
        pol = constant_speed.ConstantSpeedPolicy(v) if j % 2 == 0 else None
        if pol is None:
            pol = table_policy(0, 'all')
        items = [road_scene(r, N, T, 0) for _ in range(B)]
        items = [(table(r, sc, N), sim, t) for sc, sim, t in items]
        for sc, _, _ in items:
            sc['log']['valid'][:, :2] = True
        ev += closed_loop(c, pol, items, T - 3, lambda i: (np.full((B, N), v), np.ones((B, N), bool)) if j % 2 == 0 else (np.stack([x[0]['paths']['x'][0, :N] for x in i]), np.stack([x[0]['paths']['valid'][0, :N] for x in i])), int(j % 2 == 0))
    c.judge('TraceAgents', chunked(ev), only=['follow'])


def closed_loop(c, pol, items, steps, speeds, inv, extra=None):
    """The policy drives the real environment (StateDynamics); one event per object and step."""
    import jax
    from waymax import config as cfg, dynamics, env as wenv
    N = items[0][0]['log']['x'].shape[0]
    e = wenv.MultiAgentEnvironment(dynamics_model=dynamics.StateDynamics(), config=cfg.EnvironmentConfig(max_num_objects=N, controlled_object=cfg.ObjectType.VALID, init_steps=2))
    st = c.guard('reset', jax.jit(e.reset), scen.to_state(scen.stack([i[0] for i in items])))
    call, step = caller(c, 'policy', pol), jax.jit(e.step)
    ev = []
    for q in range(steps):
        o = call(st)
        tr = scen.host(st.sim_trajectory)
        ts = np.broadcast_to(np.asarray(st.timestep), (len(items),))
        its = [(sc, {f: np.asarray(getattr(tr, f))[b] for f in scen.SLOT}, int(ts[b])) for b, (sc, _, _) in enumerate(items)]
        s, sv = speeds(its)
        ev += follow_events(o, s, sv, its, inv)
        if extra:
            ev += extra(st, its)
        st = c.guard('step', step, st, o.action)
    return ev


def follow_replay(c):
    """Every successor of the follower model, in the code."""
    import jax
    res = c.model_check('MCFollow', min_states=300)
    paths = {m['path']: m['log'] for m in res.msgs if 'log' in m}
    rows = [m for m in res.msgs if 'cur' in m]
    T = max(len(p) for p in paths.values())
    r = c.rng('replay')
    tot = 0
    for inv in (0, 1):
        sub = [m for m in rows if m['inv'] == inv]
        items = []
        for m in sub:
            sc = scen.rand_scenario(r, 3, T)
            log = paths[m['path']]
            for k in range(T):
                w = log[min(k, len(log) - 1)]
                for o in range(3):
                    sc['log']['x'][o, k], sc['log']['y'][o, k], sc['log']['yaw'][o, k], sc['log']['valid'][o, k] = w[0] / D, w[1] / D, w[2] / S, w[3] == 1 and k < len(log)
            sim = {k: v.copy() for k, v in sc['log'].items()}
            cu = m['cur']
            for o in range(3):
                for f, v in (('x', cu['x'] / D), ('y', cu['y'] / D), ('yaw', cu['yaw'] / S), ('vel_x', cu['vx'] / D), ('vel_y', cu['vy'] / D), ('valid', cu['valid'] == 1)):
                    sim[f][o, 0] = v
            sc['paths'] = scen.rand_paths(r, 2, 5)
            sc['paths']['x'][0, :3] = [0, 5, 12]
            sc['paths']['valid'][0] = True
            items.append((sc, sim, 0))
        o = caller(c, 'update_trajectory', table_policy(inv, 'all'))(batch_state(items))
        data, valid = np.asarray(o.action.data), np.asarray(o.action.valid)
        for b, m in enumerate(sub):
            for k, want in enumerate((m['n0'], m['nx'], m['ny'])):
                tot += 1
                got = fx5(data[b, k])
                ok = any(int(valid[b, k, 0]) == w['valid'] and all(abs(g - x) <= 20 for g, x in zip(got, w['out'])) for w in want)
                if not ok:
                    c.fail('follow.replay', dict(state=m['cur'], path=m['path'], inv=inv, speed=[0, 5, 12][k], got=got, valid=int(valid[b, k, 0]), want=want))
    c.traces += tot
    c.extra['model_behaviours_replayed_in_impl'] = tot
    c.log(f'replayed {tot} steps of the follower model')


def idm_params(r, j):
    if j == 0:
        return {}, dict(vd=300000, s0=20000, amax=20000, bmax=40000, hw=2000, pw=4, fromcur=1, look=10, n=10, dist=100000)
    fc = j % 2 == 0
    p = dict(vd=int(r.randint(5, 35)) * 10000, s0=int(r.randint(5, 50)) * 1000, amax=int(r.randint(5, 30)) * 1000, bmax=int(r.randint(10, 60)) * 1000,
             hw=int(r.randint(5, 30)) * 100, pw=[4, 2, 3, 5][j % 4], fromcur=int(fc), look=int(r.randint(2, 6)), n=[10, 6, 12][j % 3], dist=int(r.randint(40, 160)) * 1000)
    kw = dict(desired_vel=p['vd'] / D, min_spacing=p['s0'] / D, safe_time_headway=p['hw'] / 1000, max_accel=p['amax'] / D, max_decel=p['bmax'] / D, delta=float(p['pw']),
              max_lookahead=p['look'], lookahead_from_current_position=fc, additional_lookahead_points=p['n'], additional_lookahead_distance=p['dist'] / D)
    return kw, p


def idm_events(speed, items, p):
    ev = []
    for b, (sc, sim, t) in enumerate(items):
        f = lambda a, o, k=D: wx.fx(a[o, t], k)
        N = sim['x'].shape[0]
        boxes = [[f(sim['x'], o), f(sim['y'], o), f(sim['length'], o), f(sim['width'], o), f(sim['yaw'], o, S), int(sim['valid'][o, t])] for o in range(N)]
        sp = [wx.fx(np.hypot(sim['vel_x'][o, t].astype(np.float64), sim['vel_y'][o, t]), D) for o in range(N)]
        for i in range(N):
            if not sim['valid'][i, t]:
                continue
            L = sc['log']
            log = [] if p['fromcur'] else [[wx.fx(L['x'][i, q], D), wx.fx(L['y'][i, q], D), wx.fx(L['length'][i, q], D), wx.fx(L['width'][i, q], D), wx.fx(L['yaw'][i, q], S), int(L['valid'][i, q]), wx.fx(L['z'][i, q], D)]
                                           for q in range(L['x'].shape[-1])]
            ev.append(dict(op='idm', i=i + 1, p=p, boxes=boxes, speeds=sp, z=f(sim['z'], i), log=log, out=wx.fx(speed[b, i], D)))
    return ev


def idm_replay(c):
    """The car-following model's first step from every start, in the code."""
    import jax
    from waymax import agents
    res = c.model_check('MCIdm', cfg='MCIdm_t' if c.thorough else None, min_states=500)
    rows = res.msgs
    r = c.rng('replay')
    items = []
    for m in rows:
        sc = scen.rand_scenario(r, 3, 4)
        sim = {k: v.copy() for k, v in sc['log'].items()}
        a = r.uniform(-3, 3)
        for o, (u, v, ok) in enumerate([(0, m['v'], True), (m['gap'] / D + 4.0, m['vl'], m['lead'] == 1), (-4.5, 50000, True)]):
            for f, w in (('x', u * np.cos(a)), ('y', u * np.sin(a)), ('yaw', a), ('vel_x', v / D * np.cos(a)), ('vel_y', v / D * np.sin(a)), ('valid', ok), ('length', 4.0), ('width', 2.0)):
                sim[f][o, 1] = w
        items.append((sc, sim, 1))
    agent = agents.IDMRoutePolicy()
    sp, va = c.guard('update_speed', jax.jit(agent.update_speed), batch_state(items))
    sp = np.asarray(sp)
    for b, m in enumerate(rows):
        if abs(sp[b, 0] * D - m['nv']) > 60 + abs(m['nv'] - m['v']) // 300:
            c.fail('idm.replay', dict(cell=m, got=float(sp[b, 0])))
    c.traces += len(rows)
    c.extra['model_behaviours_replayed_in_impl'] = len(rows)
    c.log(f'replayed {len(rows)} car-following cells')


def run_c32(c):
    import jax
    from waymax import agents
    r = c.rng()
    idm_replay(c)
    ev = []
    for j in range(4 if not c.thorough else 20):
        kw, p = idm_params(r, j)
        N, T, B = [(5, 9), (5, 12), (4, 10), (6, 8)][j % 4] + (14,)
        items = [(lane_scene if b % 4 else road_scene)(r, N, T) for b in range(B)]
        inv = j % 2
        agent = c.guard('IDMRoutePolicy', lambda: agents.IDMRoutePolicy(rule_fn('non_sdc'), invalidate_on_end=bool(inv), **kw))
        state = batch_state(items)
        sp, sv = c.guard('update_speed', jax.jit(agent.update_speed), state)
        sp, sv = np.asarray(sp), np.asarray(sv)
        if sp.shape != (B, N) or not sv.all():
            c.fail('idm.shape', dict(shape=sp.shape, valid=sv.tolist()))
            continue
        ev += idm_events(sp, items, p)
        ev += follow_events(caller(c, 'IDM select_action', agent)(state), sp, sv, items, inv)
    kw, p = idm_params(r, 0)
    agent = agents.IDMRoutePolicy()
    upd = jax.jit(agent.update_speed)
    # more objects, a longer log, a later clock, away from the origin
    items = moved([lane_scene(r, 18, 30, int(r.randint(11, 29))) for _ in range(2 if not c.thorough else 8)], r)
    for kw2, p2 in ((kw, p), idm_params(r, 1)):
        a2 = agents.IDMRoutePolicy(**kw2)
        sp, sv = (np.asarray(x) for x in c.guard('update_speed', jax.jit(a2.update_speed), batch_state(items)))
        ev += idm_events(sp, items, p2)
        ev += follow_events(caller(c, 'IDM select_action', a2)(batch_state(items)), sp, sv, items, 0)
    # more objects and steps than a byte can number
    items = [lane_scene(r, 131, 134, int(r.randint(128, 133)))]
    kw2, p2 = idm_params(r, [0, 1][c.seed % 2])
    a2 = agents.IDMRoutePolicy(**kw2)
    sp, sv = (np.asarray(x) for x in c.guard('update_speed', jax.jit(a2.update_speed), batch_state(items)))
    e = idm_events(sp, items, p2)
    ev += e[::30] + e[-4:]
    items = [lane_scene(r, 4, 14, 1) for _ in range(3 if not c.thorough else 12)]
    for sc, sim, t in items:
        for f in ('x', 'y', 'yaw', 'vel_x', 'vel_y', 'valid'):
            sc['log'][f][:, :2] = sim[f][:, 1:2]
    # chosen speeds are observed before the step
    from waymax import config as cfg, dynamics, env as wenv
    N = items[0][0]['log']['x'].shape[0]
    e = wenv.MultiAgentEnvironment(dynamics_model=dynamics.StateDynamics(), config=cfg.EnvironmentConfig(max_num_objects=N, controlled_object=cfg.ObjectType.VALID, init_steps=2))
    st = c.guard('reset', jax.jit(e.reset), scen.to_state(scen.stack([i[0] for i in items])))
    call, step = caller(c, 'IDM select_action', agent), jax.jit(e.step)
    for q in range(9):
        s, v = (np.asarray(x) for x in c.guard('update_speed', upd, st))
        o = call(st)
        tr = scen.host(st.sim_trajectory)
        ts = np.broadcast_to(np.asarray(st.timestep), (len(items),))
        its = [(sc, {f: np.asarray(getattr(tr, f))[b] for f in scen.SLOT}, int(ts[b])) for b, (sc, _, _) in enumerate(items)]
        ev += idm_events(s, its, p) + follow_events(o, s, v, its, 0)
        st = c.guard('step', step, st, o.action)
    c.judge('TraceAgents', chunked(ev), only=['idm', 'follow'])
