"""C01-C06: the core simulator state machine (Waymax.tla, MCSim.tla, TraceSim.tla)."""
import itertools
import numpy as np
import wx, scen
from scen import K


def make_env(cfg, N):
    """cfg: dict(kind, w, cls, inject, model{kind,dtinv})"""
    from waymax import config as wc, dynamics, env as wenv
    from waymax.env import planning_agent_environment as pae
    m = cfg['model']
    dyn = dynamics.StateDynamics() if m['kind'] == 'state' else dynamics.DeltaGlobal(dt=1.0 / m['dtinv'], max_dx=1e3, max_dy=1e3)
    ec = wc.EnvironmentConfig(max_num_objects=N, init_steps=cfg['w'], controlled_object=wc.ObjectType(cfg['cls']),
                              allow_new_objects_after_warmup=bool(cfg['inject']), compute_reward=False)
    if cfg['kind'] == 'planning':
        return pae.PlanningAgentEnvironment(dyn, ec)
    return wenv.BaseEnvironment(dyn, ec) if cfg['kind'] == 'base' else wenv.MultiAgentEnvironment(dyn, ec)


def obs_event(state, env, op):
    """Projects a real (unbatched host) state to an event."""
    return dict(op=op, t=int(state.timestep), sim=scen.slots(state.sim_trajectory), world=scen.world(state), logdig=wx.digest(state.log_trajectory))


def clock_fields(st, term, trunc):
    return dict(remaining=int(st[0]), done=int(st[1]), term=int(term), trunc=int(trunc))


def record(c, cfgs, B, r, steps=None):
    """Runs the real environments and returns TraceSim traces."""
    import jax, jax.numpy as jnp
    from waymax import datatypes as dt
    traces = []
    for cfg in cfgs:
        N, T, w = cfg['N'], cfg['T'], cfg['w']
        env = c.guard('construct', make_env, cfg, N)
        scs = [scen.rand_scenario(r, N, T, sdc=cfg.get('sdc')) for _ in range(B)]
        prior = [scen.rand_traj(r, N, T) for _ in range(B)]
        if cfg.get('far'):
            for s, p in zip(scs, prior):
                d = r.randint(-6000, 6000, 2)
                scen.shift(s, *d), scen.shift(dict(log=p), *d)
        adim = 5 if cfg['model']['kind'] == 'state' else 3
        nst = T - w if steps is None else min(steps, T - w)
        mode = cfg['mode']
        planning = cfg['kind'] == 'planning'
        if mode == 'batch':
            st0 = scen.to_state(scen.stack(scs), sim=scen.stack(prior), timestep=int(r.randint(-1, T)))
        else:
            pt = r.randint(-1, T, B)     # the clock and history passed in do not matter
            st0 = scen.stack([scen.host(scen.to_state(s, sim=p, timestep=int(q))) for s, p, q in zip(scs, prior, pt)])
            st0 = jax.tree_util.tree_map(jnp.asarray, st0)
        vm = mode in ('vmap', 'vmapjit')
        wrap = (lambda f: jax.jit(jax.vmap(f))) if mode == 'vmapjit' else jax.vmap if mode == 'vmap' else (lambda f: f)
        usekey = cfg.get('rng', 0)
        reset = wrap(lambda s: env.reset(s, jax.random.PRNGKey(3)) if usekey else env.reset(s))
        step = wrap(lambda s, a: env.step(s, a, jax.random.PRNGKey(4)) if usekey else env.step(s, a))
        info = wrap(lambda s: (s.remaining_timesteps, s.is_done, env.termination(s), env.truncation(s)))

        def acts():
            if cfg['model']['kind'] == 'state':
                a = r.randint(-60 * K, 60 * K, (B, N, adim)) / K
            else:
                a = r.randint(-3 * K, 3 * K, (B, N, adim)) / K
            v = r.rand(B, N, 1) < (0.7 if cfg.get('inval') else 2)
            if planning:
                a, v = np.repeat(a[:, :1], N, 1), np.repeat(v[:, :1], N, 1)
            return a.astype(np.float32), v

        def run(states0, actions):
            s = c.guard('reset', reset, states0)
            out = [(s, c.guard('clock queries', info, s))]
            for a, v in actions:
                if planning:
                    a, v = a[..., 0, :], v[..., 0, :]
                s = c.guard('step', step, s, dt.Action(data=jnp.asarray(a), valid=jnp.asarray(v)))
                out.append((s, c.guard('clock queries', info, s)))
            return [(scen.host(a), scen.host(b)) for a, b in out]

        actions = [acts() for _ in range(nst)]
        if vm or mode == 'batch':
            per = [run(st0, actions)]
            def pick(k, b):
                s, i = per[0][k]
                if mode == 'batch':
                    # clock may be shared by the whole batch
                    ts = np.asarray(s.timestep)
                    s2 = s.replace(timestep=np.zeros(B, np.int32) + ts)
                    i = tuple(np.zeros(B, np.asarray(x).dtype) + np.asarray(x) for x in i)
                    return scen.idx(s2, b), tuple(x[b] for x in i)
                return scen.idx(s, b), tuple(np.asarray(x)[b] for x in i)
        else:
            per = [run(scen.idx(st0, b), [(a[b], v[b]) for a, v in actions]) for b in range(B)]
            def pick(k, b):
                return per[b][k]
        # one batch of states at different times, asked as a whole
        late = []
        if cfg.get('clocks', 1):
            ks = r.randint(0, nst + 1, B)
            ks[:2] = [0, nst][:B]
            ks = r.permutation(ks)
            mixed = scen.stack([pick(int(ks[b]), b)[0] for b in range(B)])
            grid = (B // 2, 2) if B % 2 == 0 and r.rand() < 0.5 else (B,)
            mixed = jax.tree_util.tree_map(lambda x: jnp.asarray(x).reshape(grid + np.shape(x)[1:]), mixed)
            ask = c.guard('clock queries of a batch', lambda: (mixed.timestep, mixed.remaining_timesteps, mixed.is_done, env.termination(mixed), env.truncation(mixed)))
            ask = [np.asarray(x).reshape(-1) for x in ask]
            if any(len(x) != B for x in ask):     # never equal to a clock
                late = [dict(op='clock', t=-9, remaining=-9, done=2, term=2, trunc=2)] * B
            else:
                late = [dict(op='clock', **dict(zip(('t', 'remaining', 'done', 'term', 'trunc'), (int(x[b]) for x in ask)))) for b in range(B)]
        for b in range(B):
            sc = scs[b]
            st = scen.idx(scen.host(st0), b)
            ev = []
            for k in range(nst + 1):
                s, i = pick(k, b)
                e = obs_event(s, env, 'reset' if k == 0 else 'step')
                e.update(remaining=int(i[0]), done=int(i[1]), term=int(i[2]), trunc=int(i[3]))
                if k:
                    e['act'] = wx.q(actions[k - 1][0][b], K)
                    e['av'] = actions[k - 1][1][b, :, 0].astype(int).tolist()
                ev.append(e)
            ev += late[b:b + 1]
            traces.append(dict(cfg=dict(w=w, cls=cfg['cls'], inject=cfg['inject'], model=cfg['model'], kind=cfg['kind'], mode=mode),
                               meta=dict(sdc=sc['meta']['is_sdc'].astype(int).tolist(), modeled=sc['meta']['is_modeled'].astype(int).tolist(),
                                         valid=sc['meta']['is_valid'].astype(int).tolist()),
                               log=scen.slots(sc['log']), world0=scen.world(st), logdig0=wx.digest(st.log_trajectory), ev=ev))
    return traces


def random_cfgs(r, n, shapes, thorough=False):
    """A spread of configurations covering class x injection x model x mode."""
    out = []
    combos = [(c, i) for c in ('SDC', 'MODELED', 'VALID') for i in (0, 1)]
    for j in range(n):
        cls, inj = combos[j % 6]
        N, T = shapes[(j // 2) % len(shapes)]
        kind = 'base'
        if j % 7 == 3:
            kind, cls = 'planning', 'SDC'
        mode = 'vmapjit'
        if j % 10 in (1, 4, 8):     # un-jitted modes share one shape (compile cost)
            mode = {1: 'batch', 4: 'eager', 8: 'batch'}[j % 10]
            N, T = shapes[0]
        out.append(dict(kind=kind, cls=cls, inject=inj, N=N, T=T, w=int(r.randint(1, T)), mode=mode,
                        model=dict(kind='state', dtinv=1) if j % 3 == 0 else dict(kind='delta', dtinv=int(r.choice([8, 10, 4]))),
                        inval=int(j % 4 == 1), rng=int(kind == 'planning' and j % 2)))
    # full warm-up: nothing left to simulate
    out.append(dict(kind='base', cls='SDC', inject=1, N=shapes[0][0], T=shapes[0][1], w=shapes[0][1], mode='vmapjit', model=dict(kind='state', dtinv=1)))
    return out


# --------------------------------------------------------------- replay of TLC
def replay_model(c, r, only, cfgname):
    """Every transition TLC enumerated is replayed in the real environment."""
    import jax, jax.numpy as jnp
    from waymax import datatypes as dt
    res = c.model_check('MCSim', cfgname, min_states=1000)
    rows = res.msgs
    if not rows:
        raise wx.Machinery('MCSim printed no transitions')
    groups = {}
    for m in rows:
        key = (m['w'], m['c'], m['i'])
        run = (tuple(m['m']['sdc']), tuple(m['m']['modeled']), tuple(map(tuple, m['lv'])))
        groups.setdefault(key, {}).setdefault(run, {})[m['t']] = m['sim']
    N, T = len(rows[0]['lv']), len(rows[0]['lv'][0])

    def tag(base, o, k):
        return base + 7 * o + 31 * k
    o = np.arange(1, N + 1)[:, None] * np.ones((1, T), int)
    k = np.arange(1, T + 1)[None] * np.ones((N, 1), int)
    basef = dict(x=tag(1, o, k), y=tag(200, o, k), z=tag(400, o, k), vel_x=tag(600, o, k), vel_y=tag(800, o, k),
                 yaw=(o + 2 * k) / K, length=2 + o, width=1 + o, height=3 + o)
    basef = {f: v.astype(np.float32) for f, v in basef.items()}
    basef['timestamp_micros'] = (100000 * k + o).astype(np.int32)
    checked = 0
    Bmax = max(len(v) for v in groups.values())
    for (w, cls, inj), runs in sorted(groups.items()):
        env = c.guard('construct', make_env, dict(kind='base', w=w, cls=cls, inject=inj, model=dict(kind='delta', dtinv=8)), N)
        keys = sorted(runs)
        nreal = len(keys)
        keys = keys + [keys[-1]] * (Bmax - nreal)   # uniform shape: compile once
        B = Bmax
        log = {f: np.repeat(v[None], B, 0) for f, v in basef.items()}
        log['valid'] = np.array([kk[2] for kk in keys], bool)
        valid = log['valid'].any(-1)
        z = np.zeros((B, N))
        meta = dict(ids=z.astype(np.int32), object_types=z.astype(np.int32), is_sdc=np.array([kk[0] for kk in keys], bool),
                    is_modeled=np.array([kk[1] for kk in keys], bool), is_valid=valid, objects_of_interest=z.astype(bool), is_controlled=z.astype(bool))
        tl = scen.stack([scen.rand_tl(r, 1, T)] * B)
        st = scen.to_state(dict(log=log, meta=meta, tl=tl, rg=None, paths=None), timestep=0)
        s = c.guard('reset', jax.vmap(env.reset), st)
        for t in range(w - 1, T - 1):
            act = np.array([[K * (3 + i) + t, K * (5 + 2 * i) + t, 3 + i + t] for i in range(1, N + 1)], np.float32) / K
            a = dt.Action(data=jnp.asarray(np.repeat(act[None], B, 0)), valid=jnp.ones((B, N, 1), bool))
            s = c.guard('step', jax.vmap(env.step), s, a)
            got = np.array([wx.q(np.asarray(getattr(s.sim_trajectory, f)), K) for f in scen.SLOT]).transpose(1, 2, 3, 0)
            want = np.array([runs[kk][t + 1] for kk in keys])
            ts = np.asarray(s.timestep)
            diff = (got != want)
            checked += nreal
            if (ts != t + 1).any():
                c.fail('replay.clock', dict(cfg=[w, cls, inj], t=t)) if _want(only, 'step.clock') else None
            if diff.any():
                ctl = {'SDC': meta['is_sdc'], 'MODELED': meta['is_modeled'], 'VALID': valid if inj else log['valid'][:, :, w - 1]}[cls]
                for b in np.unique(np.nonzero(diff)[0])[:3]:
                    cl = set()
                    for (ob, tt, f) in zip(*np.nonzero(diff[b])):
                        if tt <= t:
                            cl.add('reset.warmup' if tt < w else 'step.past')
                        elif tt > t + 1:
                            cl.add('reset.blank')
                        elif f == 6:
                            cl.add('valid.controlled' if ctl[b, ob] else 'valid.replay')
                        elif f == 7:
                            cl.add('timestamp')
                        elif f in (2, 8, 9, 10):
                            cl.add('carry')
                        else:
                            cl.add('pose.controlled' if ctl[b, ob] else 'pose.replay')
                    bad = sorted(x for x in cl if _want(only, x))
                    if bad:
                        c.fail('replay.' + '+'.join(bad), dict(cfg=[w, cls, inj], t=t, run=keys[b], got=got[b].tolist(), want=want[b].tolist()))
    c.traces += sum(len(v) for v in groups.values())
    c.extra['model_transitions_replayed_in_impl'] = checked
    c.log(f'replayed {checked} model transitions in the real environment')
    if not c.samples:
        c.samples.append(dict(model_transition=rows[0]))


def _want(only, clause):
    return only is None or any(clause == o or clause.startswith(o + '.') for o in only)


SHAPES = [(3, 7), (1, 4), (5, 9)]


def run_sim(c, only, ncfg=10, B=6, replay=True, shapes=SHAPES, extra=None):
    import jax  # noqa
    r = c.rng()
    c.assumptions += ['synthetic lattice scenarios (no dataset available); values exactly representable in float32',
                      'projection harness/scen.py and TLC are trusted']
    if replay:
        replay_model(c, r, only, 'MCSim_T4' if c.thorough else 'MCSim')
    if c.thorough:
        c.model_check('MCSim', 'MCSim_live')
        ncfg, B = ncfg * 8, B * 2
        shapes = shapes + [(8, 12), (2, 3), (4, 20)]
    cfgs = random_cfgs(r, ncfg, shapes)
    if extra:
        cfgs += extra
    tr = record(c, cfgs, B, r)
    # scenes of a realistic kind: many objects, the recorded history length as
    # warm-up, a later clock, far from the origin
    k = 3 if c.thorough else 1
    tr += record(c, [dict(kind='base', cls=('VALID', 'MODELED', 'SDC')[i % 3], inject=int(r.randint(2)), N=20 if i % 2 else 33, T=24 if i % 2 else 14, w=11, mode='vmapjit', far=1,
                          inval=1, model=dict(kind='state', dtinv=1) if i % 2 else dict(kind='delta', dtinv=10)) for i in range(2 * k)], 2, r)
    # recordings longer than those of the dataset
    for i in range(k):
        T = int(r.randint(93, 300))
        tr += record(c, [dict(kind=['base', 'planning'][(i + c.seed) % 2], cls='SDC', inject=0, N=2, T=T, w=T - int(r.randint(2, 6)), mode='vmapjit', model=dict(kind='state', dtinv=1))], 1, r)
    # more objects than the dataset has (its limit is 128)
    for i in range(k):
        n = int(r.randint(129, 300))
        pl = (i + c.seed) % 2 == 0
        tr += record(c, [dict(kind='planning' if pl else 'base', cls='SDC' if pl else 'VALID', inject=int(r.randint(2)), N=n, sdc=int(r.randint(128, n)), T=5, w=3, mode='vmapjit', model=dict(kind='state', dtinv=1))], 1, r)
    c.log(f'recorded {len(tr)} traces')
    c.judge('TraceSim', tr, only=only)
    return r


def run_apply(c, only):
    """Updates applied to histories directly, with and without the fallback."""
    import jax, jax.numpy as jnp
    from waymax import datatypes as dt
    from waymax.dynamics import abstract_dynamics as ad
    r = c.rng('apply')
    ev = []
    for j in range(40 if c.thorough else 8):
        N, T = [(4, 6), (7, 9)][j % 2]
        lead = [(), (2,), (), (2, 2)][j % 4]
        cnt = int(np.prod(lead)) if lead else 1
        sims, logs = ([scen.rand_traj(r, N, T) for _ in range(cnt)] for _ in range(2))
        for d in sims:
            for f in ('vel_x', 'vel_y'):
                d[f] = (r.randint(-50, 51, (N, T)) * 10 / K).astype(np.float32)
            z = r.rand(N, T) < 0.2
            d['vel_x'] = np.where(z, 0, d['vel_x']).astype(np.float32)
            d['vel_y'] = np.where(z & (r.rand(N, T) < 0.5), 0, d['vel_y']).astype(np.float32)
        fb, inj = (j // 2) % 2, j % 2 if j < 4 else int(r.randint(2))
        ctl, uv = r.rand(cnt, N) < 0.7, r.rand(cnt, N) < 0.5
        upd = r.randint(-60 * K, 60 * K, (cnt, N, 5)) / K
        ts = r.randint(0, T - 1, cnt)
        if not lead or j % 3 == 0:
            ts[:] = ts[0]
        sh = lambda a: jnp.asarray(np.asarray(a).reshape(lead + np.asarray(a).shape[1:]))
        tr = lambda ds: dt.Trajectory(**{f: sh(np.stack([d[f] for d in ds])) for f in ds[0]})
        u = dt.TrajectoryUpdate(x=sh(upd[..., :1].astype(np.float32)), y=sh(upd[..., 1:2].astype(np.float32)), yaw=sh(upd[..., 2:3].astype(np.float32)),
                                vel_x=sh(upd[..., 3:4].astype(np.float32)), vel_y=sh(upd[..., 4:].astype(np.float32)), valid=sh(uv[..., None]))
        t = jnp.asarray(ts[0] if not lead or j % 3 == 0 else ts.reshape(lead), jnp.int32)
        f = lambda a, b, cc, d, e: ad.apply_trajectory_update_to_state(a, b, cc, d, e, allow_object_injection=bool(inj), use_fallback=bool(fb))
        if j % 2:
            f = jax.jit(f)
        out = c.guard('apply_trajectory_update_to_state', f, u, tr(sims), tr(logs), sh(ctl), t)
        flat = jax.tree_util.tree_map(lambda x: np.asarray(x).reshape((cnt,) + x.shape[len(lead):]), out)
        for b in range(cnt):
            o = scen.idx(flat, b)
            ev.append(dict(op='apply', sim=scen.slots(sims[b]), log=scen.slots(logs[b]), out=scen.slots(o), t=int(ts[b]), ctl=ctl[b].astype(int).tolist(), uv=uv[b].astype(int).tolist(),
                           upd=wx.q(upd[b], K), yaw=wx.fx(np.asarray(o.yaw)[:, ts[b] + 1], 1000000), fb=fb, inject=inj))
    c.judge('TraceApply', [dict(ev=[e]) for e in ev], only=only, label='updates')


def run_c05(c):
    """Who is controlled; plus rejection of unsupported classes."""
    from waymax import config as wc, dynamics, env as wenv, datatypes as dt
    r = run_sim(c, ['member'], ncfg=16)
    # Unsupported classes must raise instead of controlling anything.
    import jax.numpy as jnp
    ev = []
    for inject in (True, False):
        for cls in wc.ObjectType:
            for via in ('mask', 'step'):
                sc = scen.rand_scenario(r, 3, 5)
                st = scen.to_state(sc, timestep=1)
                out = 'ok'
                try:
                    if via == 'mask':
                        m = dt.get_control_mask(st.object_metadata, cls)
                        got = [int(x) for x in np.asarray(m)]
                    else:
                        e = wenv.BaseEnvironment(dynamics.StateDynamics(), wc.EnvironmentConfig(max_num_objects=3, init_steps=2, controlled_object=cls,
                                                 allow_new_objects_after_warmup=inject, compute_reward=False))
                        e.step(e.reset(st), dt.Action(data=jnp.zeros((3, 5)), valid=jnp.ones((3, 1), bool)))
                        got = []
                except ValueError:
                    out, got = 'ValueError', []
                except Exception as e:  # noqa
                    out, got = type(e).__name__, []
                ev.append(dict(op='mask', cls=cls.value, via=via, out=out, got=got,
                               sdc=sc['meta']['is_sdc'].astype(int).tolist(), modeled=sc['meta']['is_modeled'].astype(int).tolist(), valid=sc['meta']['is_valid'].astype(int).tolist()))
    c.judge('TraceMask', [dict(ev=ev)])
