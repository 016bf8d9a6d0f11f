"""Shared machinery: environment set-up, TLC runner, verdict collection, evidence.

A check is   generate -> run the real code -> record JSON traces -> TLC judges
them against a TLA+ module (or: TLC generates behaviours -> replay in the code).
Verdicts are total: TLC prints one line per failed clause, it never just stops.
"""
import os, sys, json, time, subprocess, tempfile, shutil, traceback, re, random, threading, zlib

os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ['TF_CPP_MIN_LOG_LEVEL'] = '3'
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('XLA_FLAGS', '--xla_cpu_multi_thread_eigen=false')
sys.dont_write_bytecode = True

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('WAYMAX_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
SPEC = os.path.join(ROOT, 'spec')
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
OFF = 1073741823  # sentinel: value is not on the lattice (NaN, inf, wrong)


class ImplError(Exception):
    """The code under test raised although the specification says it returns."""
    def __init__(self, what, exc):
        super().__init__(f'{what}: {type(exc).__name__}: {exc}')
        self.what = what


class Machinery(Exception):
    pass


class TLCResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        self.msgs = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                try:
                    self.msgs.append(json.loads(json.loads(line)[2:]))
                except Exception:
                    # TLC escapes only quotes and backslashes
                    s = line[1:-1].replace('\\"', '"').replace('\\\\', '\\')
                    self.msgs.append(json.loads(s[2:]))
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r'Finished computing initial states: (\d+) (?:distinct )?state', out)
        self.initial = int(m[-1]) if m else 0
        self.ok = 'Model checking completed. No error has been found.' in out
        self.violated = re.findall(r'(?:Invariant|Action property|Temporal propert\w+) ?(\w+)? ?(?:is|were|was) violated', out)


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = 'thorough' if 'thorough' in sys.argv[2:] else os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix=f'wx_{pid}_')
        self.outdir = os.path.join(ROOT, 'out', pid)
        self.busy = {}           # calls under way: (thread, what) -> since
        self.failures = []       # dicts
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.clauses = {}
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.known = []
        self.level = 'model_checking'

    def rng(self, salt=0):
        import numpy as np
        return np.random.RandomState((self.seed * 1000003 + zlib.crc32(f'{self.pid}{salt}'.encode())) % (2**31))

    def log(self, *a):
        print(f'[{self.pid} {time.time()-self.t0:6.1f}s]', *a, flush=True)

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, workers=8, timeout=800, extra=(), heap='6g'):
        """Runs TLC on spec/<module>.tla with spec/<cfg>.cfg."""
        cfg = cfg or module
        meta = tempfile.mkdtemp(dir=self.tmp)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ['java', f'-Xmx{heap}', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4', '-Xss64m', '-cp', TLA_CP, 'tlc2.TLC',
               '-metadir', meta, '-workers', str(workers), '-noGenerateSpecTE',
               '-config', f'{cfg}.cfg', *extra, f'{module}.tla']
        t = time.time()
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        r = TLCResult(p.stdout + p.stderr, p.returncode, time.time() - t)
        shutil.rmtree(meta, ignore_errors=True)
        return r

    def model_check(self, module, cfg=None, min_states=2, workers=8, timeout=800, collect=False, env=None, coverage=False):
        """Exhaustive TLC run of a design model; a failure here is a spec bug."""
        r = self.tlc(module, cfg, workers=workers, timeout=timeout, env=env)
        if not r.ok:
            raise Machinery(f'TLC model check of {module}/{cfg} failed:\n' + r.out[-3000:])
        if r.distinct < min_states:
            raise Machinery(f'{module}/{cfg}: only {r.distinct} states')
        self.states += r.distinct
        self.transitions += r.generated
        self.extra.setdefault('models', []).append(dict(module=module, cfg=cfg or module, distinct=r.distinct, generated=r.generated, wall_s=round(r.wall, 1)))
        self.log(f'model {module}/{cfg or module}: {r.distinct} states, {r.generated} generated, {r.wall:.1f}s')
        return r

    def judge(self, module, traces, cfg=None, only=None, workers=8, chunk=None, label=None, replay_of=None, env=None):
        """TLC judges recorded traces.  traces: list of dict with list field 'ev'.

        The module must print  "@@" \\o ToJson([tr|->..,l|->..,bad|->{..}])  per
        failing event and consume every event: states == sum(1+len(ev)).
        """
        if not traces:
            raise Machinery(f'{module}: no traces recorded')
        path = os.path.join(self.tmp, f'{module}_{len(self.extra.get("judged", []))}.json')
        with open(path, 'w') as f:
            json.dump(traces, f, separators=(',', ':'))
        r = self.tlc(module, cfg, env={'TRACE': path, **(env or {})}, workers=workers)
        want = sum(1 + len(t['ev']) for t in traces)
        if not r.ok and 'Parsing or semantic analysis failed' not in r.out and any(k in r.out for k in ('verflow', 'Attempted to', 'was not in the domain', 'No CASE')):
            # a recorded value is so far out of range (or of such a shape) that
            # the specification cannot even evaluate the event: not a behaviour
            # of the model
            self.fail(f'{module}.unevaluable', dict(module=module, label=label, tlc=r.out[-1500:]))
            return 1
        if not r.ok or r.distinct != want:
            raise Machinery(f'TLC judge {module}: ok={r.ok} states={r.distinct} expected={want}\n' + r.out[-3000:])
        nev = want - len(traces)
        self.states += r.distinct
        self.transitions += nev
        self.traces += len(traces)
        self.events += nev
        for t in traces:
            for e in t['ev']:
                k = f"{module}.{e.get('op', 'ev')}"
                self.clauses[k] = self.clauses.get(k, 0) + 1
        self.extra.setdefault('judged', []).append(dict(module=module, label=label, traces=len(traces), events=nev, wall_s=round(r.wall, 1), bytes=os.path.getsize(path)))
        self.log(f'judged {module}{"/" + label if label else ""}: {len(traces)} traces, {nev} events, {r.wall:.1f}s, {os.path.getsize(path)//1024} KiB')
        nbad = 0
        ignored = {}
        for m in r.msgs:
            bad = [b for b in m['bad'] if only is None or any(b == o or b.startswith(o + '.') for o in only)]
            for b in m['bad']:
                if b not in bad:
                    ignored[b] = ignored.get(b, 0) + 1
            if bad:
                nbad += 1
                t = traces[m['tr'] - 1]
                self.fail('+'.join(sorted(bad)), dict(module=module, trace=m['tr'], event=m['l'], bad=sorted(bad), want=m.get('want'),
                          meta={k: v for k, v in t.items() if k != 'ev'}, ev=t['ev'][max(0, m['l'] - 2):m['l']]))
        if ignored:
            self.extra.setdefault('clauses_of_other_properties_failing', {}).update(ignored)
        if not self.samples and traces:
            t = traces[0]
            self.samples.append(_shorten(dict(module=module, trace=t)))
        return nbad

    # ------------------------------------------------------------ verdicts
    def fail(self, clause, detail):
        self.failures.append(dict(clause=clause, **detail))

    def guard(self, what, fn, *a, **k):
        """Calls code under test; an exception, or no answer within five
        minutes, becomes a failed clause."""
        key = (threading.get_ident(), what)
        self.busy.setdefault(key, time.time())
        try:
            return fn(*a, **k)
        except Exception as e:  # noqa
            if in_repo(e):
                raise ImplError(what, e)
            raise
        finally:
            self.busy.pop(key, None)

    def watch(self):
        """Ends the check when the code under test does not answer."""
        while True:
            time.sleep(5)
            for (_, what), t in list(self.busy.items()):
                if time.time() - t > (3000 if self.thorough else 300):
                    self.fail('raised:' + what, dict(error='no answer from the code under test'))
                    rc = self.finish()
                    sys.stdout.flush()
                    os._exit(rc)

    def finish(self):
        known = load_known(self.pid)
        fresh, seen = [], {}
        for f in self.failures:
            k = match_known(known, f)
            if k is None:
                fresh.append(f)
            else:
                seen[k['id']] = k
        for k in known:
            if k['id'] in seen:
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        cov = dict(states=int(self.states), transitions=int(self.transitions),
                   traces_validated_against_impl=int(self.traces), events=int(self.events),
                   event_kinds=self.clauses, samples=self.samples[:4] or ['(no trace)'], **self.extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(fresh))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', f'{self.pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        if fresh:
            os.makedirs(self.outdir, exist_ok=True)
            path = os.path.join(self.outdir, f'violation_{self.tier}_{self.seed}.json')
            with open(path, 'w') as f:
                json.dump(dict(property=self.pid, seed=self.seed, tier=self.tier, count=len(fresh), failures=fresh[:20]), f, indent=1, default=str)
            by = {}
            for f in fresh:
                by[f['clause']] = by.get(f['clause'], 0) + 1
            for c, n in sorted(by.items(), key=lambda x: -x[1])[:12]:
                print(f'  failed clause {c}: {n} event(s)')
            print(f'VIOLATION property={self.pid} replay={path}')
            return 1
        print(f'OK property={self.pid} traces={self.traces} events={self.events} states={self.states} wall={time.time()-self.t0:.1f}s')
        return 0


def in_repo(e):
    """True if any frame of the exception's traceback is waymax code."""
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        for fr in traceback.extract_tb(e.__traceback__):
            if os.path.realpath(fr.filename).startswith(os.path.realpath(REPO) + '/waymax'):
                return True
        e = e.__cause__ or e.__context__
    return False


def load_known(pid):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == pid and k.get('status') == 'known']


def match_known(known, f):
    for k in known:
        if k['clause'] == f['clause'] and all(_get(f, p) == v for p, v in k.get('match', {}).items()):
            return k
    return None


def _get(d, path):
    for p in path.split('/'):
        try:
            d = d[int(p)] if isinstance(d, list) else d[p]
        except Exception:
            return None
    return d


def _shorten(x, n=40):
    if isinstance(x, dict):
        return {k: _shorten(v, n) for k, v in x.items()}
    if isinstance(x, list):
        return [_shorten(v, n) for v in x[:6]] + (['...'] if len(x) > 6 else [])
    return x


def run(pid, fn):
    c = Check(pid)
    threading.Thread(target=c.watch, daemon=True).start()
    rc = 2
    try:
        try:
            fn(c)
        except ImplError as e:
            traceback.print_exc()
            c.fail('raised:' + e.what, dict(error=str(e), tb=traceback.format_exc()[-3000:]))
        except Exception as e:  # noqa
            tb = traceback.format_exc()[-3000:]
            if not isinstance(e, Machinery) and in_repo(e):
                c.fail('raised', dict(error=f'{type(e).__name__}: {e}', tb=tb))
            elif isinstance(e, (IndexError, KeyError, ValueError, TypeError, AttributeError, AssertionError)):
                # what the code returned has a shape or type its interface rules
                # out, so the recorder could not read it
                c.fail('unreadable', dict(error=f'{type(e).__name__}: {e}', tb=tb))
            elif not c.failures:
                raise
            traceback.print_exc()
        rc = c.finish()
    except Exception:
        traceback.print_exc()
        print(f'ERROR machinery failure in check {pid}')
        rc = 2
    finally:
        shutil.rmtree(c.tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


# ------------------------------------------------------------------ lattice
def q(a, k):
    """float array -> nested int list on the lattice 1/k; OFF when not on it."""
    import numpy as np
    a = np.asarray(a)
    if a.dtype == bool:
        return a.astype(int).tolist()
    if a.dtype.kind in 'iu':
        return a.astype(int).tolist()
    s = a.astype(np.float64) * k
    fin = np.isfinite(s) & (np.abs(s) < 1e9)
    r = np.rint(np.where(fin, s, 0))
    ok = fin & (np.abs(np.where(fin, s, 0) - r) < 0.02)
    return np.where(ok, r, OFF).astype(int).tolist()


def fx(a, k):
    """float array -> nearest fixed-point ints at scale k (no lattice test)."""
    import numpy as np
    a = np.asarray(a)
    if a.dtype == bool or a.dtype.kind in 'iu':
        return a.astype(int).tolist()
    s = a.astype(np.float64) * k
    fin = np.isfinite(s) & (np.abs(s) < 1e9)
    return np.where(fin, np.rint(np.where(fin, s, 0)), OFF).astype(int).tolist()


def digest(tree):
    """Order-sensitive digest (30 bit) of all leaves of a pytree."""
    import numpy as np, jax
    h = 0
    for x in jax.tree_util.tree_leaves(tree):
        x = np.asarray(x)
        h = zlib.crc32(str((x.dtype, x.shape)).encode(), h)
        h = zlib.crc32(np.ascontiguousarray(x).tobytes(), h)
    return h >> 2
