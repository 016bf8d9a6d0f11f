"""C34, C35, C39: record pipeline, decoding of recorded scenarios, export."""
import os
os.environ['XLA_FLAGS'] = os.environ.get('XLA_FLAGS', '--xla_cpu_multi_thread_eigen=false') + ' --xla_force_host_platform_device_count=2'
import wx
import itertools, zlib
import numpy as np
import jax, jax.numpy as jnp
import tensorflow as tf
from waymax import config as _config, dataloader
from waymax.dataloader import dataloader_utils as du

import warnings
warnings.filterwarnings('ignore', message='Explicitly requested dtype')
tf.get_logger().setLevel('ERROR')
tf.autograph.set_verbosity(0)
FMT = _config.DataFormat.TFRECORD


# ------------------------------------------------------------- record files
class Store:
    """Record files whose records are the two bytes [file, position]."""
    def __init__(self, root):
        self.root, self.made = root, {}

    def path(self, n, base='d'):
        """path of a dataset with n[f] records in file f (sharded unless single file)."""
        key = (tuple(n), base)
        if key not in self.made:
            d = os.path.join(self.root, f'ds{len(self.made)}')
            os.makedirs(os.path.join(d, os.path.dirname(base)), exist_ok=True)
            F = len(n)
            for f in range(F):
                with tf.io.TFRecordWriter(f'{d}/{base}-{f:05d}-of-{F:05d}') as w:
                    for p in range(n[f]):
                        w.write(bytes([f, p]))
            self.made[key] = f'{d}/{base}@{F}'
        return self.made[key]


def raw(s):
    return {'r': tf.cast(tf.io.decode_raw(s, tf.uint8), tf.int32)}


def raw_objects(k):
    """Every record is k objects: unit (file, position*k + object)."""
    def f(s):
        r = tf.cast(tf.io.decode_raw(s, tf.uint8), tf.int32)
        return {'r': tf.stack([tf.repeat(r[0], k), r[1] * k + tf.range(k)], -1)}
    return f


def read(c, path, what, limit=None, **kw):
    """Batches (list of int arrays (..., 2)) of one read; True when exhausted."""
    pre = kw.pop('preprocess_fn', raw)
    ds = c.guard(what, du.tf_examples_dataset, path=path, data_format=FMT, preprocess_fn=pre, **kw)
    out, it = [], iter(ds.as_numpy_iterator())
    while limit is None or len(out) < limit:
        try:
            out.append(np.asarray(c.guard(what, next, it)['r']))
        except StopIteration:
            return out, True
        except wx.ImplError:
            raise
        except Exception as e:  # noqa: the records are there and are readable
            raise wx.ImplError(what, e)
    return out, False


def events(batches, done):
    ev = [dict(op='batch', shape=list(b.shape[:-1]), rs=[[int(f) + 1, int(p)] for f, p in b.reshape(-1, 2)]) for b in batches]
    return ev + [dict(op='end' if done else 'cut')]


def trace(n, S, R, bd, drop, batches, done, shuf=0, order=1, equal=0, **more):
    B = int(np.prod(bd)) if bd else 1
    return dict(g=dict(n=list(n), S=S, R=R or 0, B=B, drop=int(drop)), bd=list(bd), shuf=shuf, ord=order, equal=equal, ev=events(batches, done), **more)


def seq(batches):
    return [[int(f), int(p)] for b in batches for f, p in b.reshape(-1, 2)]


def crc(batches):
    return zlib.crc32(repr([(b.shape, b.tolist()) for b in batches]).encode()) >> 2


def run_c34(c):
    r = c.rng()
    st = Store(c.tmp)
    suf = '_t' if c.thorough else ''
    res = c.model_check('MCPipeline', 'MCPipeline' + suf, min_states=20000)
    c.model_check('MCPipeline', 'MCPipeline_live' + suf, min_states=1000)
    model = res.msgs
    traces = []
    # 1. configurations of the model, replayed on real files
    pick = model if c.thorough else [model[i] for i in r.choice(len(model), 60, replace=False)]
    for m in pick:
        bd = (m['B'],) if m['B'] > 1 or r.rand() < 0.5 else ()
        b, d = read(c, st.path(m['n']), 'tf_examples_dataset', limit=400, repeat=m['R'], batch_dims=bd, num_shards=m['S'], drop_remainder=bool(m['drop']))
        traces.append(trace(m['n'], m['S'], m['R'], bd, m['drop'], b, d, total=m['total'], nbatches=m['batches'], src='model'))
    c.extra['model_configurations_replayed'] = len(pick)

    # 2. larger layouts, two and three batch dimensions, orders not promised, units
    for i in range(120 if c.thorough else 26):
        F = r.randint(1, 7)
        n = [int(x) for x in r.randint(0, 9, F)]
        S, R = r.randint(1, 6), r.randint(1, 4)
        nd = r.randint(0, 4)
        bd = tuple(int(x) for x in r.randint(1, 5 if nd == 1 else 4, nd))
        drop = True if nd > 1 else bool(r.randint(2))
        det = r.rand() < 0.8
        k = r.randint(1, 4)
        kw = dict(batch_by_scenario=False, preprocess_fn=raw_objects(k)) if k > 1 else {}
        b, d = read(c, st.path(n), 'tf_examples_dataset', limit=2000, repeat=R, batch_dims=bd, num_shards=S, drop_remainder=drop, deterministic=det, **kw)
        n2 = [x * k for x in n]
        traces.append(trace(n2, S, R, bd, drop, b, d, order=int(det), src='large'))
        if det:
            b2, _ = read(c, st.path(n), 'tf_examples_dataset', limit=2000, repeat=R, batch_dims=bd, num_shards=S, drop_remainder=drop, **kw)
            traces[-1]['ev'].append(dict(op='same', a=crc(b), b=crc(b2)))

    # 3. endless repetition: every file keeps contributing, whatever the number of shards
    lay = [([1] * 20, 20), ([2] * 34, 17), ([3, 1, 0, 2], 4), ([0, 2], 2), ([5], 3), ([1] * 3, 24)]
    for n, S in (lay if c.thorough else lay[:4] + [lay[r.randint(4, 6)]]):
        B = int(r.randint(1, 4))
        lim = 6 * S * (max(n) * len(n) // max(1, min(S, len(n))) // B + 3)
        b, d = read(c, st.path(n), 'tf_examples_dataset', limit=lim, repeat=None, batch_dims=(B,), num_shards=S)
        traces.append(trace(n, S, None, (B,), True, b, d, src='endless'))

    # 4. seeded shuffling: permutes, reproducible, seeds differ, bounded window
    for i in range(24 if c.thorough else 8):
        F, m = r.randint(1, 7), r.randint(3, 12)
        n = [m] * F
        S, R = r.randint(1, 4), r.randint(1, 3)
        B = int(r.randint(1, 4))
        drop = bool(r.randint(2))
        sd, buf = int(r.randint(0, 1000)) * (i % 4 > 0), int(r.choice([1, 4, 100]))
        kw = dict(repeat=R, batch_dims=(B,), num_shards=S, drop_remainder=drop, shuffle_buffer_size=buf)
        b, d = read(c, st.path(n), 'tf_examples_dataset', limit=2000, shuffle_seed=sd, **kw)
        t = trace(n, S, R, (B,), drop, b, d, shuf=1, equal=1, src=f'seed {sd} buffer {buf}')
        b2, _ = read(c, st.path(n), 'tf_examples_dataset', limit=2000, shuffle_seed=sd, **kw)
        t['ev'].append(dict(op='same', a=crc(b), b=crc(b2)))
        traces.append(t)
    # single file: window; different seeds give different orders
    g1 = trace([24], 1, 1, (), True, [], True)
    for buf in (1, 5, 24):
        orders = []
        for sd in (0, 1, 2, 77):
            b, d = read(c, st.path([24]), 'tf_examples_dataset', limit=500, repeat=2, shuffle_seed=sd, shuffle_buffer_size=buf)
            s = [p for _, p in seq(b)]
            orders.append(s)
            traces.append(dict(g1, ev=[dict(op='window', rs=s, n=24, buffer=buf)], src=f'buffer {buf}'))
        if buf > 1:
            traces.append(dict(g1, ev=[dict(op='mix', orders=orders)]))
            # a seed is enough: each one on its own leaves the recorded order
            for o in orders:
                traces.append(dict(g1, ev=[dict(op='mix', orders=[list(range(24)) * 2, o])]))
    # order of the files (one record each, buffer 1), for every seed including 0
    for sd in (0, 1, 5):
        b, _ = read(c, st.path([1] * 12), 'tf_examples_dataset', limit=50, repeat=1, shuffle_seed=sd, shuffle_buffer_size=1)
        traces.append(dict(g1, ev=[dict(op='mix', orders=[list(range(12)), [f for f, _ in seq(b)]])], src=f'file order seed {sd}'))

    # 5. several hosts: the files are partitioned, also when shuffled
    pc, pi = jax.process_count, jax.process_index
    for F, P, sd in ((5, 2, None), (7, 3, 3), (6, 4, 0), (2, 3, None)):
        files, per = [], []
        for p in range(P):
            try:
                jax.process_count, jax.process_index = (lambda *a, **k: P), (lambda *a, **k: p)
                b, _ = read(c, st.path([2] * F), 'tf_examples_dataset (hosts)', limit=100, repeat=1, shuffle_seed=sd, num_shards=2)
            finally:
                jax.process_count, jax.process_index = pc, pi
            files.append(sorted({f + 1 for f, _ in seq(b)}))
            per.append(len(seq(b)))
        traces.append(dict(trace([2] * F, 1, 1, (), True, [], True), ev=[dict(op='hosts', files=files)], src=f'{P} hosts'))

    # 6. names of sharded files
    for base, N in (('abc', 1), ('x/y', 7), ('d@1/x', 12), ('r', 100), ('q', 99999), ('q', 100000), ('w.tfrecord', 123456), ('a-b', 1000)):
        names = list(c.guard('generate_sharded_filenames', du.generate_sharded_filenames, f'{base}@{N}'))
        idx = sorted({0, N - 1, N // 2, min(N - 1, 9), min(N - 1, 10)})
        traces.append(dict(g1, ev=[dict(op='names', base=base, N=N, count=len(set(names)), idx=idx, names=[names[i] if i < len(names) else '' for i in idx])]))
    p = st.path([2, 3], base='a@b/x')
    b, d = read(c, p, 'path with @', limit=100, repeat=1)
    traces.append(trace([2, 3], 1, 1, (), True, b, d, src='@ in directory'))
    # a single file without shard notation
    single = st.path([5])[:-2] + '-00000-of-00001'
    b, d = read(c, single, 'single file', limit=100, repeat=2, batch_dims=(2,), drop_remainder=False)
    traces.append(trace([5], 1, 2, (2,), False, b, d, src='plain path'))

    # 7. the generator used by simulators: pre, batch, post, devices first
    for dist, bd in ((False, ()), (False, (3,)), (False, (2, 2)), (True, (3,)), (True, ())):
        cfg = _config.DatasetConfig(path=st.path([4, 4, 4]), repeat=1, batch_dims=bd, num_shards=1, distributed=dist)
        post = lambda e: {'v': 3 * (100 * (e['r'][..., 0] + 1) + e['r'][..., 1]), 'r': e['r']}
        lead = ((jax.local_device_count(),) if dist else ()) + bd
        outs = c.guard('get_data_generator', lambda: list(itertools.islice(du.get_data_generator(cfg, raw, post), 100)))
        traces.append(trace([4, 4, 4], 1, 1, lead, True, [np.asarray(o['r']) for o in outs], True, src='generator, postprocessed'))
        for o in outs:
            rs = np.asarray(o['r']).reshape(-1, 2)
            traces.append(dict(g1, ev=[dict(op='gen', shape=list(o['v'].shape), want=list(lead), k=3, got=np.asarray(o['v']).reshape(-1).tolist(), rs=[[int(f) + 1, int(p)] for f, p in rs])], src=f'generator {dist} {bd}'))
        bs = c.guard('get_data_generator', lambda: [np.asarray(o['r']) for o in itertools.islice(du.get_data_generator(cfg, raw), 100)])
        traces.append(trace([4, 4, 4], 1, 1, lead, True, bs, True, src='generator'))
    # every option of a configuration means for the generator what it means for the dataset
    for i in range(40 if c.thorough else 10):
        n = [int(x) for x in r.randint(1, 7, r.randint(1, 5))]
        k = 1 if i % 3 else int(r.randint(2, 4))
        B = int(r.randint(1, 5))
        opt = dict(repeat=int(r.randint(1, 4)), batch_dims=(B,), num_shards=int(r.randint(1, 5)), drop_remainder=bool(i % 2),
                   shuffle_seed=[None, 0, int(r.randint(1, 99))][(i // 2) % 3], shuffle_buffer_size=int(r.choice([2, 5, 100])), batch_by_scenario=k == 1)
        pre = raw if k == 1 else raw_objects(k)
        cfg = _config.DatasetConfig(path=st.path(n), **opt)
        bs = c.guard('get_data_generator', lambda: [np.asarray(o['r']) for o in itertools.islice(du.get_data_generator(cfg, pre), 500)])
        b2, _ = read(c, st.path(n), 'tf_examples_dataset', limit=500, preprocess_fn=pre, **opt)
        t = trace([x * k for x in n], opt['num_shards'], opt['repeat'], (B,), opt['drop_remainder'], bs, True, shuf=int(opt['shuffle_seed'] is not None),
                  order=int(opt['shuffle_seed'] is None), equal=0, src='generator options')
        t['ev'].append(dict(op='same', a=crc(bs), b=crc(b2)))
        traces.append(t)
    try:
        du.tf_examples_dataset(path=st.path([1]), data_format='CSV', preprocess_fn=raw)
        rej = 0
    except ValueError:
        rej = 1
    traces.append(dict(g1, ev=[dict(op='rej', what='format', rejected=rej)]))
    c.assumptions += ['one host per process: several hosts are simulated by substituting jax.process_count/process_index',
                      'orders across files of one loading shard are unspecified; ragged batches of two or more dimensions are unspecified']
    c.judge('TracePipeline', traces)


# -------------------------------------------------- recorded examples (C35)
STATE_F = ('bbox_yaw', 'height', 'length', 'timestamp_micros', 'valid', 'vel_yaw', 'speed', 'velocity_x', 'velocity_y', 'width', 'x', 'y', 'z')
TL_F = ('state', 'valid', 'id', 'x', 'y', 'z', 'timestamp_micros')
DEC = dict(x='x', y='y', z='z', velocity_x='vel_x', velocity_y='vel_y', timestamp_micros='timestamp_micros', valid='valid')
LAT = ('x', 'y', 'z', 'velocity_x', 'velocity_y', 'vel_x', 'vel_y')


def rand_record(r, ident, N=128, L=16, P=25, steps=(10, 1, 80), paths=None):
    """Feature dictionary of one recorded example (numpy, as in a tf.Example)."""
    T = sum(steps)
    lat = lambda shape, lim=40000: (r.randint(-lim, lim, shape) / 8).astype(np.float32)
    full = {}
    nval = r.randint(2, min(N, 24) + 1)
    mode = r.randint(3)
    v = (r.rand(N, T) < [1.0, 0.7, 0.3][mode]) & (np.arange(N)[:, None] < nval)
    full['valid'] = v.astype(np.int64)
    for f in ('x', 'y', 'z', 'velocity_x', 'velocity_y'):
        full[f] = lat((N, T), 40000 if f in 'xyz' else 160)
    full['bbox_yaw'] = (r.uniform(-9, 9, (N, T)) if r.rand() < 0.5 else r.uniform(-3.2, 3.2, (N, T))).astype(np.float32)
    for f, lo, hi in (('length', 1, 6), ('width', 1, 3), ('height', 1, 3)):
        base = r.uniform(lo, hi, (N, 1)) * np.ones((1, T))
        full[f] = (base + r.uniform(-0.3, 0.3, (N, T)) * (r.rand() < 0.6)).astype(np.float32)
        if r.rand() < 0.3:   # sizes that could not be measured
            full[f] = np.where(r.rand(N, T) < 0.3, r.choice([0, -0.5]), full[f]).astype(np.float32)
    full['speed'] = np.hypot(full['velocity_x'], full['velocity_y']).astype(np.float32)
    full['vel_yaw'] = np.arctan2(full['velocity_y'], full['velocity_x']).astype(np.float32)
    full['timestamp_micros'] = (np.arange(T)[None] * 100000 + r.randint(0, 9, (N, T))).astype(np.int64)
    stale = r.rand() < 0.4   # invalid samples hold arbitrary values or the marker
    for f in STATE_F:
        if f != 'valid':
            full[f] = np.where(v | stale, full[f], -1).astype(full[f].dtype)
    tl = dict(state=r.randint(0, 9, (T, L)), valid=(r.rand(T, L) < 0.6).astype(int), id=r.randint(0, 10**6, (T, L)),
              x=lat((T, L)), y=lat((T, L)), z=lat((T, L), 800), timestamp_micros=np.arange(T) * 100000)
    ex, lo = {}, 0
    for when, n in zip(('past', 'current', 'future'), steps):
        for f in STATE_F:
            ex[f'state/{when}/{f}'] = full[f][:, lo:lo + n]
        for f in TL_F:
            a = tl[f][lo:lo + n]
            ex[f'traffic_light_state/{when}/{f}'] = a if f in 'xyz' else a.astype(np.int64)
        lo += n
    anyv = v.any(1)
    track = np.where(anyv, r.randint(0, 2, N), -1)
    track[r.randint(0, nval)] = r.choice([0, 1])
    sdc = np.where(anyv, 0, -1)
    sdc[r.randint(0, nval)] = 1
    ids = np.where(anyv, r.permutation(5000)[:N], -1).astype(np.float32)
    ids[0] = 10000 + ident
    ex.update({'state/id': ids, 'state/type': np.where(anyv, r.randint(1, 5, N), -1).astype(np.float32), 'state/is_sdc': sdc.astype(np.int64),
               'state/tracks_to_predict': track.astype(np.int64), 'state/objects_of_interest': np.where(anyv, r.randint(0, 2, N), -1).astype(np.int64),
               'roadgraph_samples/xyz': lat((P, 3)), 'roadgraph_samples/dir': lat((P, 3), 8), 'roadgraph_samples/valid': (r.rand(P, 1) < 0.8).astype(np.int64),
               'roadgraph_samples/type': r.randint(-1, 20, (P, 1)).astype(np.int64), 'roadgraph_samples/id': r.randint(0, 10**8, (P, 1)).astype(np.int64)})
    if paths:
        M, Q = paths
        ex.update({'path_samples/xyz': lat((M, Q, 3)), 'path_samples/valid': (r.rand(M, Q) < 0.7).astype(np.int64), 'path_samples/id': r.randint(0, 10**6, (M, Q)).astype(np.int64),
                   'path_samples/arc_length': lat((M, Q), 4000), 'path_samples/on_route': (r.rand(M, 1) < 0.5).astype(np.int64)})
    return ex


def serialize(ex):
    feat = {}
    for k, a in ex.items():
        a = np.asarray(a).reshape(-1)
        feat[k] = tf.train.Feature(float_list=tf.train.FloatList(value=a.tolist())) if a.dtype.kind == 'f' else tf.train.Feature(int64_list=tf.train.Int64List(value=a.tolist()))
    return tf.train.Example(features=tf.train.Features(feature=feat)).SerializeToString()


def num(f, a):
    """Integers of field f: lattice, angle, size or plain."""
    if f in LAT:
        return wx.q(a, 8)
    if f in ('bbox_yaw', 'yaw'):
        return wx.fx(a, 1000000)
    if f in ('length', 'width', 'height', 'arc_length'):
        return wx.fx(a, 10000)
    a = np.asarray(a)
    return wx.q(a, 1)


def judge_state(ex, st, r, max_objects=None, windows=('past', 'current', 'future'), paths=False, nobj=5, wrapped=1):
    """Events comparing one unbatched decoded state with its record."""
    N = len(ex['state/id'])
    n = N if max_objects is None else min(N, max_objects)
    steps = [ex[f'state/{w}/x'].shape[1] for w in windows]
    T = sum(steps)
    P, L = len(ex['roadgraph_samples/xyz']), ex['traffic_light_state/past/state'].shape[1]
    log, sim, tl, md, rg = st.log_trajectory, st.sim_trajectory, st.log_traffic_light, st.object_metadata, st.roadgraph_points
    ev = [dict(op='shape', got=[list(np.shape(a)) for a in (log.x, sim.x, tl.state, md.ids, rg.x, st.timestep)], want=[[n, T], [n, T], [L, T], [n], [P], []])]
    if ev[0]['got'] != ev[0]['want']:
        return ev
    objs = sorted(set([0, n - 1] + [int(np.argmax(ex['state/is_sdc'][:n] == 1))] + [int(i) for i in r.randint(0, min(n, 26), nobj)]))

    def part(key, o):
        d = {w: num(key, ex[f'state/{w}/{key}'][o]) if w in windows else [] for w in ('past', 'current', 'future')}
        return d
    for o in objs:
        val = part('valid', o)
        for f, g in DEC.items():
            ev.append(dict(op='line', f=f, o=o, got=num(f, getattr(log, g)[o]), **part(f, o)))
            ev.append(dict(op='start', f=f, o=o, log=num(f, getattr(log, g)[o]), sim=num(f, getattr(sim, g)[o])))
        ev.append(dict(op='yaw', o=o, got=num('yaw', log.yaw[o]), wrapped=wrapped, **part('bbox_yaw', o)))
        ev.append(dict(op='start', f='yaw', o=o, log=num('yaw', log.yaw[o]), sim=num('yaw', sim.yaw[o])))
        for f in ('length', 'width', 'height'):
            ev.append(dict(op='size', f=f, o=o, got=num(f, getattr(log, f)[o]), vp=val['past'], vc=val['current'], vf=val['future'], **part(f, o)))
            ev.append(dict(op='start', f=f, o=o, log=num(f, getattr(log, f)[o]), sim=num(f, getattr(sim, f)[o])))
    for f, g in (('state', 'state'), ('valid', 'valid'), ('id', 'lane_ids'), ('x', 'x'), ('y', 'y'), ('z', 'z')):
        rows = {w: num(f, ex[f'traffic_light_state/{w}/{f}'][:, :6]) if w in windows else [] for w in ('past', 'current', 'future')}
        ev.append(dict(op='light', f=f, got=num(f, np.asarray(getattr(tl, g))[:6]), **rows))
    for f, a, g, k in (('xyz', 0, rg.x, 8), ('xyz', 1, rg.y, 8), ('xyz', 2, rg.z, 8), ('dir', 0, rg.dir_x, 8), ('dir', 1, rg.dir_y, 8), ('dir', 2, rg.dir_z, 8),
                       ('type', 0, rg.types, 1), ('id', 0, rg.ids, 1), ('valid', 0, rg.valid, 1)):
        ev.append(dict(op='plain', f='map_' + f, got=wx.q(g, k), want=wx.q(ex['roadgraph_samples/' + f][:, a], k)))
    if paths:
        p = st.sdc_paths
        for f, g, k in (('valid', p.valid, 1), ('id', p.ids, 1), ('arc_length', p.arc_length, 8), ('on_route', p.on_route, 1)):
            ev.append(dict(op='plain', f='path_' + f, got=wx.q(g, k), want=wx.q(ex['path_samples/' + f], k)))
        for a, g in enumerate((p.x, p.y, p.z)):
            ev.append(dict(op='plain', f='path_xyz', got=wx.q(g, 8), want=wx.q(ex['path_samples/xyz'][..., a], 8)))
    else:
        ev.append(dict(op='plain', f='no_paths', got=int(st.sdc_paths is None), want=1))
    I = lambda a: np.asarray(a).astype(int).tolist()
    ev.append(dict(op='meta', track=I(ex['state/tracks_to_predict']), sdc=I(ex['state/is_sdc']), ooi=I(ex['state/objects_of_interest']), raw_ids=I(ex['state/id']), raw_types=I(ex['state/type']),
                   valid=I(md.is_valid), modeled=I(md.is_modeled), is_sdc=I(md.is_sdc), got_ooi=I(md.objects_of_interest), controlled=I(md.is_controlled), ids=I(md.ids), types=I(md.object_types)))
    ev.append(dict(op='clock', t=np.asarray(st.timestep).reshape(-1).tolist()))
    return ev


def pieces(ev, n=60):
    return [dict(ev=ev[i:i + n]) for i in range(0, len(ev), n)]


def batched_indices(shape):
    return list(itertools.product(*[range(s) for s in shape]))


def format_events(c, r):
    """The record formats callers can ask for, named sizes and defaults."""
    from waymax.dataloader import womd_utils as wu
    ev = []
    names = dict(n='max_num_objects', p='max_num_rg_points', l='num_tls', paths='include_sdc_paths', m='num_paths', q='num_points_per_path')
    for i in range(12):
        a = {k: int(r.randint(1, 50)) for k in names if r.rand() < 0.5} if i else {}
        if i % 3 == 1:
            a['paths'] = 1
        elif 'paths' in a:
            a['paths'] %= 2
        d = c.guard('get_features_description', lambda: wu.get_features_description(**{names[k]: (bool(v) if k == 'paths' else v) for k, v in a.items()}))
        ev.append(dict(op='format', a=a or dict(paths=0), got=[dict(name=k, shape=[int(x) for x in f.shape], type={'float32': 'f', 'int64': 'i'}.get(f.dtype.name, f.dtype.name), required=int(f.default_value is None)) for k, f in d.items()]))
    return ev


def run_c35(c):
    from waymax.dataloader import womd_factories as wf
    import scen
    r = c.rng()
    ev = []
    # 1. behaviours of the model decoded by the real code (all steps, two objects)
    res = c.model_check('MCDecode', 'MCDecode_t' if c.thorough else 'MCDecode', min_states=1000)
    pick = [res.msgs[i] for i in r.choice(len(res.msgs), min(len(res.msgs), 1500 if c.thorough else 150), replace=False)]
    ev += model_decodes(c, pick, r)
    ev += format_events(c, c.rng('format'))
    # 2. whole records through the public generator
    K = 6
    for paths in (None, (3, 7)):
        recs = [rand_record(r, i, paths=paths) for i in range(K)]
        path = os.path.join(c.tmp, f'womd_{bool(paths)}.tfrecord')
        with tf.io.TFRecordWriter(path) as w:
            for e in recs:
                w.write(serialize(e))
        cfgs = [((), None), ((2,), 7), ((1, 3), 128)] if paths is None else [((3,), None), ((2,), 1)]
        for bd, mo in cfgs:
            cfg = _config.DatasetConfig(path=path, repeat=1, batch_dims=bd, num_shards=1, max_num_rg_points=25, max_num_objects=mo, include_sdc_paths=paths is not None,
                                        num_paths=paths[0] if paths else None, num_points_per_path=paths[1] if paths else None)
            got = c.guard('simulator_state_generator', lambda: [scen.host(s) for s in itertools.islice(dataloader.simulator_state_generator(cfg), 200)])
            seen = []
            for s in got:
                ev.append(dict(op='plain', f='batch_shape', got=list(s.shape), want=list(bd)))
                if tuple(s.shape) != bd:
                    continue
                for b in batched_indices(bd):
                    one = scen.idx(s, b) if bd else s
                    ident = int(one.object_metadata.ids[0]) - 10000
                    seen.append(ident)
                    if 0 <= ident < K:
                        ev += judge_state(recs[ident], one, r, mo, paths=paths is not None)
            ev.append(dict(op='plain', f='scenarios', got=sorted(seen), want=list(range(K))))
    # 3. dictionaries: other step counts, windows, unaggregated, batches
    for i in range(24 if c.thorough else 6):
        steps = (int(r.randint(1, 6)), 1, int(r.randint(1, 7)))
        N = int(r.randint(3, 9))
        exs = [rand_record(r, j, N=N, L=6, P=9, steps=steps, paths=(2, 5) if i % 2 else None) for j in range(2)]
        mo = [None, 2, N, N + 3][i % 4]
        T_ = lambda e: {k: tf.convert_to_tensor(v) for k, v in e.items()}
        outs = [c.guard('preprocess_womd_example', dataloader.womd_dataloader.preprocess_womd_example, T_(e), aggregate_timesteps=True, max_num_objects=mo) for e in exs]
        outs = [{k: np.asarray(v) for k, v in o.items()} for o in outs]
        ev.append(dict(op='which', got=wx.q(outs[0]['state/which_time'], 1), np=steps[0], nf=steps[2]))
        want = sorted({k.replace('/past/', '/all/') for k in exs[0] if '/current/' not in k and '/future/' not in k} | {'state/which_time'})
        ev.append(dict(op='keys', got=sorted(outs[0]), want=want))
        both = {k: np.stack([o[k] for o in outs]) for k in outs[0]}
        st = c.guard('simulator_state_from_womd_dict', wf.simulator_state_from_womd_dict, both, include_sdc_paths=bool(i % 2))
        for b in range(2):
            ev += judge_state(exs[b], scen.idx(scen.host(st), b), r, mo, paths=bool(i % 2), nobj=2)
        # the parts of a record on their own
        keep = c.guard('preprocess_womd_example', dataloader.womd_dataloader.preprocess_womd_example, T_(exs[0]), aggregate_timesteps=False, max_num_objects=mo)
        ev.append(dict(op='keys', got=sorted(keep), want=sorted(exs[0])))
        keep = {k: np.asarray(v) for k, v in keep.items()}
        for w in ('past', 'current', 'future'):
            st = c.guard('simulator_state_from_womd_dict', wf.simulator_state_from_womd_dict, keep, time_key=w)
            ev += judge_state(exs[0], scen.host(st), r, mo, windows=(w,), nobj=1, wrapped=0)
    for what, fn in (('time_key_state', wf.simulator_state_from_womd_dict), ('time_key_lights', wf.traffic_lights_from_womd_dict)):
        try:
            fn(both, time_key='history')
            rej = 0
        except ValueError:
            rej = 1
        except KeyError:
            rej = 0
        ev.append(dict(op='rej', what=what, rejected=rej, want=1))
    c.assumptions += ['records are synthetic tf.Examples in the documented WOMD format (the dataset is not available)',
                      'a record whose number of map points differs from max_num_rg_points is rejected by the parser (unspecified here)']
    c.judge('TraceDecode', pieces(ev), only=['decode', 'start', 'reject', 'format'])


def model_decodes(c, msgs, r):
    """Every behaviour is one two-object record; the model gives the decoded lines."""
    from waymax.dataloader import womd_factories as wf
    import scen
    ev = []
    dicts = []
    for m in msgs:
        ex = {}
        for w, k in (('past', 0), ('current', 1), ('future', 2)):
            v, x, s = ([np.array([m['rec'][o][f][k] for o in range(2)]) for f in range(3)])
            for f in STATE_F:
                ex[f'state/{w}/{f}'] = x.astype(np.float32)
            ex[f'state/{w}/valid'] = v.astype(np.int64)
            ex[f'state/{w}/timestamp_micros'] = x.astype(np.int64)
            ex[f'state/{w}/bbox_yaw'] = 0 * x.astype(np.float32)
            for f in ('length', 'width', 'height'):
                ex[f'state/{w}/{f}'] = s.astype(np.float32)
            n = v.shape[1]
            for f in TL_F:
                ex[f'traffic_light_state/{w}/{f}'] = np.zeros((n, 1), np.float32 if f in 'xyz' else np.int64) if f != 'timestamp_micros' else np.zeros(n, np.int64)
        for f, t in (('id', np.float32), ('type', np.float32), ('is_sdc', np.int64), ('tracks_to_predict', np.int64), ('objects_of_interest', np.int64)):
            ex['state/' + f] = np.array([1, 0], t)
        for f in ('xyz', 'dir'):
            ex['roadgraph_samples/' + f] = np.zeros((1, 3), np.float32)
        for f in ('type', 'id', 'valid'):
            ex['roadgraph_samples/' + f] = np.zeros((1, 1), np.int64)
        out = c.guard('preprocess_womd_example', dataloader.womd_dataloader.preprocess_womd_example, {k: tf.constant(v) for k, v in ex.items()}, aggregate_timesteps=True)
        dicts.append({k: np.asarray(v) for k, v in out.items()})
    both = {k: np.stack([d[k] for d in dicts]) for k in dicts[0]}
    st = scen.host(c.guard('simulator_state_from_womd_dict', wf.simulator_state_from_womd_dict, both))
    log = st.log_trajectory
    for i, m in enumerate(msgs):
        for o in range(2):
            d = m['dec'][o]
            ev.append(dict(op='plain', f='model_valid', got=wx.q(log.valid[i, o], 1), want=d['v']))
            ev.append(dict(op='plain', f='model_x', got=wx.q(log.x[i, o], 1), want=d['x']))
            s, n = d['size']
            size = np.float32(-1 if n == 0 else s / n)
            ev.append(dict(op='plain', f='model_size', got=wx.fx(log.length[i, o], 1000), want=[int(np.rint(size * 1000))] * log.x.shape[-1]))
    return ev


# ------------------------------------------------------------- export (C39)
def export_events(c, state, t, desc, what, h=10, tensorflow=False, raw=None):
    """state: host, unbatched; t: its clock."""
    from waymax.dataloader import womd_utils as wu
    fn = wu.simulator_state_to_womd_dict_tensorflow if tensorflow else wu.simulator_state_to_womd_dict
    d = raw if raw is not None else c.guard(what, fn, state, desc)
    d = {k: np.asarray(v) for k, v in d.items()}
    ev = [dict(op='keys', got=sorted(d), want=sorted(desc)),
          dict(op='shape', got=[list(d[k].shape) for k in sorted(d)], want=[list(desc[k].shape) for k in sorted(d)]),
          dict(op='shape', got=[d[k].dtype.kind for k in sorted(d)], want=['f' if desc[k].dtype.is_floating else 'i' for k in sorted(d)])]
    if any(e['got'] != e['want'] for e in ev):
        return ev, d
    sim, tl = state.sim_trajectory, state.log_traffic_light
    N = sim.x.shape[0]
    slot = t + 1
    for o in range(N):
        for f, g in dict(DEC, bbox_yaw='yaw', length='length', width='width', height='height').items():
            ev.append(dict(op='exp', f=f, o=o, t=slot, h=h, line=num(f, getattr(sim, g)[o]), past=num(f, d[f'state/past/{f}'][o]), current=num(f, d[f'state/current/{f}'][o])))
        sl = slice(t - h, t + 1)
        cat = lambda f: np.concatenate([d[f'state/past/{f}'][o], d[f'state/current/{f}'][o]])
        ev.append(dict(op='speed', v=wx.q(sim.valid[o, sl], 1), vx=wx.fx(sim.vel_x[o, sl], 10000), vy=wx.fx(sim.vel_y[o, sl], 10000), speed=wx.fx(cat('speed'), 10000), dir=wx.fx(cat('vel_yaw'), 10000)))
    for f, g in (('state', 'state'), ('valid', 'valid'), ('id', 'lane_ids'), ('x', 'x'), ('y', 'y'), ('z', 'z')):
        for k in range(tl.x.shape[0]):
            ev.append(dict(op='explight', f=f, t=slot, h=h, line=num(f, getattr(tl, g)[k]), past=num(f, d[f'traffic_light_state/past/{f}'][:, k]), current=num(f, d[f'traffic_light_state/current/{f}'][:, k])))
    ts = np.asarray(sim.timestamp_micros)
    if (ts == ts[:1]).all():
        ev.append(dict(op='explight', f='timestamp', t=slot, h=h, line=wx.q(ts[0], 1), past=wx.q(d['traffic_light_state/past/timestamp_micros'], 1), current=wx.q(d['traffic_light_state/current/timestamp_micros'], 1)))
    for k in sorted(d):
        if '/future/' in k:
            ev.append(dict(op='future', f=k, min=int(np.floor(d[k].min())), max=int(np.ceil(d[k].max()))))
    rg = state.roadgraph_points
    for f, a, g in (('xyz', 0, rg.x), ('xyz', 1, rg.y), ('xyz', 2, rg.z), ('dir', 0, rg.dir_x), ('dir', 1, rg.dir_y), ('dir', 2, rg.dir_z), ('type', 0, rg.types), ('id', 0, rg.ids), ('valid', 0, rg.valid)):
        k = 64 if f in ('xyz', 'dir') else 1
        ev.append(dict(op='plain', f='export_map_' + f, want=wx.q(g, k), got=wx.q(d['roadgraph_samples/' + f][:, a], k)))
    md = state.object_metadata
    I = lambda a: np.asarray(a).astype(int).tolist()
    ev.append(dict(op='expmeta', valid=I(md.is_valid), ids=I(md.ids), types=I(md.object_types), is_sdc=I(md.is_sdc), is_ooi=I(md.objects_of_interest), modeled=I(md.is_modeled),
                   id=I(d['state/id']), type=I(d['state/type']), sdc=I(d['state/is_sdc']), ooi=I(d['state/objects_of_interest']), track=I(d['state/tracks_to_predict'])))
    return ev, d


def again_events(c, state, t, d, h=10):
    """Read the exported record again: the same simulated past and present."""
    from waymax.dataloader import womd_factories as wf
    import scen
    sim, md, ev = state.sim_trajectory, state.object_metadata, []
    for w, sl in (('past', slice(t - h, t)), ('current', slice(t, t + 1))):
        s2 = scen.host(c.guard('simulator_state_from_womd_dict', wf.simulator_state_from_womd_dict, d, time_key=w))
        some = np.asarray(sim.valid[:, sl]).any(1)
        for g in ('x', 'y', 'z', 'vel_x', 'vel_y', 'yaw', 'valid', 'timestamp_micros', 'length', 'width', 'height'):
            a, b = np.asarray(getattr(s2.log_trajectory, g)), np.asarray(getattr(sim, g)[:, sl])
            if g in ('length', 'width', 'height'):
                a, b = a[some], b[some]
            ev.append(dict(op='again', f=g, got=num(g, a), want=num(g, b)))
        m2, ok = s2.object_metadata, np.asarray(md.is_valid)
        for g in ('ids', 'object_types', 'is_sdc', 'is_modeled', 'objects_of_interest'):
            ev.append(dict(op='again', f=g, got=wx.q(np.asarray(getattr(m2, g))[ok], 1), want=wx.q(np.asarray(getattr(md, g))[ok], 1)))
        ev.append(dict(op='again', f='is_valid', got=wx.q(m2.is_valid, 1), want=wx.q(ok, 1)))
    return ev


def export_scenario(r, N, T, L, P):
    import scen
    sc = scen.rand_scenario(r, N, T, L=L, P=P)
    sim = scen.rand_traj(r, N, T)
    for d in (sc['log'], sim):
        for k in ('x', 'y', 'z', 'vel_x', 'vel_y'):
            d[k] = (np.rint(d[k] * 8) / 8).astype(np.float32)
        for k in ('length', 'width', 'height'):
            d[k] = (np.ones((1, T)) * r.randint(8, 48, (N, 1)) / 8).astype(np.float32)
    if r.rand() < 0.6:
        sim['timestamp_micros'] = np.repeat(np.arange(T)[None] * 100000, N, 0).astype(np.int32)
    for k in ('x', 'y', 'z'):
        sc['tl'][k] = (np.rint(sc['tl'][k] * 8) / 8).astype(np.float32)
    return sc, sim


def run_c39(c):
    from jax.experimental import checkify
    from waymax.dataloader import womd_utils as wu, womd_factories as wf
    import scen
    r = c.rng()
    ev = []
    c.model_check('MCDecode', 'MCDecode_t' if c.thorough else 'MCDecode', min_states=1000)
    for i in range(30 if c.thorough else 6):
        # the first two are large: more objects, or more steps, than a byte can number
        N, T, L, P = (130, 14, 3, 8) if i == 0 else (3, 138, 2, 5) if i == 1 else (5, 14 + 2 * (i % 2), 3, 8)
        desc = wu.get_features_description(max_num_objects=N, max_num_rg_points=P, num_tls=L)
        jfn = jax.jit(lambda s: wu.simulator_state_to_womd_dict(s, desc))
        for rep in range(4):
            sc, sim = export_scenario(r, N, T, L, P)
            if i == 0 and rep > 1:
                break
            t = [10, int(r.randint(10, T)), T - 1, 11][rep]
            t = t if T < 100 else [10, 130, T - 1, 127][rep]
            st = scen.host(scen.to_state(sc, sim, t))
            raw = c.guard('jit(simulator_state_to_womd_dict)', jfn, st) if rep % 2 else None
            e, d = export_events(c, st, t, desc, 'simulator_state_to_womd_dict', raw=raw, tensorflow=rep == 2)
            ev += e
            if set(d) == set(desc):
                ev += again_events(c, st, t, d)
            if i == 0 and rep == 0:
                few = {k: v for k, v in desc.items() if 'past' in k or 'future' in k or k in ('state/id', 'state/current/x')}
                few['state/id'] = desc['state/id']
                out = c.guard('export of some fields', wu.simulator_state_to_womd_dict, st, few)
                ev.append(dict(op='keys', got=sorted(out), want=sorted(few)))
                ev.append(dict(op='plain', f='some_fields', got=int(all(np.array_equal(np.asarray(out[k]), d[k]) for k in few)), want=1))
    # validation of the amount of history
    sc, sim = export_scenario(r, 4, 16, 2, 6)
    desc = wu.get_features_description(max_num_objects=4, max_num_rg_points=6, num_tls=2)
    chk = jax.jit(checkify.checkify(lambda s: wu.simulator_state_to_womd_dict(s, desc, validate=True)['state/current/x']))
    for t in (9, 10, 11, 15):
        err, _ = c.guard('validate', chk, scen.to_state(sc, sim, t))
        ev.append(dict(op='rej', what='history', rejected=int(err.get() is not None), want=int(t != 10)))
    # a decoded record, replayed by the environment to the current step, exports its own past
    ev += replay_export(c, r)
    c.judge('TraceDecode', pieces(ev))


def replay_export(c, r):
    """record -> decode -> environment replays the log for 10 steps -> export = record."""
    from waymax import env as wenv, dynamics, datatypes
    from waymax.dataloader import womd_utils as wu, womd_factories as wf
    import scen
    ev = []
    N, L, P = 6, 4, 9
    desc = wu.get_features_description(max_num_objects=N, max_num_rg_points=P, num_tls=L)
    for k in range(3 if c.thorough else 1):
        ex = rand_record(r, k, N=N, L=L, P=P)
        ex['state/current/valid'][:] = 1        # every object is present now ...
        for w in ('past', 'future'):
            ex[f'state/{w}/valid'] = np.ones_like(ex[f'state/{w}/valid'])   # ... and always
        for key in list(ex):
            if key.startswith('state/') and key.endswith(('/length', '/width', '/height')):
                ex[key] = np.full_like(ex[key], 2.0)
        out = c.guard('preprocess_womd_example', dataloader.womd_dataloader.preprocess_womd_example, {a: tf.constant(b) for a, b in ex.items()}, aggregate_timesteps=True)
        st = wf.simulator_state_from_womd_dict({a: np.asarray(b) for a, b in out.items()})
        e = wenv.BaseEnvironment(dynamics.StateDynamics(), _config.EnvironmentConfig(max_num_objects=N, init_steps=1, metrics=_config.MetricsConfig(metrics_to_run=('log_divergence',)),
                                 controlled_object=_config.ObjectType.SDC))
        s = c.guard('reset', e.reset, st)
        step = jax.jit(e.step)
        nobody = datatypes.Action(data=jnp.zeros((N, 5)), valid=jnp.zeros((N, 1), bool))
        sdcact = lambda s: datatypes.Action(data=jnp.stack([getattr(s.log_trajectory, f)[:, int(s.timestep) + 1] for f in ('x', 'y', 'yaw', 'vel_x', 'vel_y')], -1), valid=jnp.ones((N, 1), bool))
        for _ in range(10):
            s = c.guard('step', step, s, sdcact(s))
        d = {a: np.asarray(b) for a, b in c.guard('simulator_state_to_womd_dict', wu.simulator_state_to_womd_dict, s, desc, validate=True).items()}
        for w in ('past', 'current'):
            for f in ('x', 'y', 'z', 'velocity_x', 'velocity_y', 'valid', 'timestamp_micros', 'length', 'width', 'height'):
                if f != 'z':   # the simulator carries the height above ground along (C03)
                    ev.append(dict(op='again', f='replay_' + f, got=num(f, d[f'state/{w}/{f}']), want=num(f, ex[f'state/{w}/{f}'])))
            for f in ('state', 'valid', 'id', 'x', 'y', 'z'):
                ev.append(dict(op='again', f='replay_light_' + f, got=num(f, d[f'traffic_light_state/{w}/{f}']), want=num(f, ex[f'traffic_light_state/{w}/{f}'])))
    return ev
