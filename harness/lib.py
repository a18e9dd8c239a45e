"""Shared machinery: run TLC on a specification, replay what it generates into
the real code, write evidence, report violations."""
import os, sys, json, subprocess, tempfile, time, traceback, re, shutil, signal, atexit
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('XMPS_REPO', '/repo')
OUT = os.path.join(VERIF, 'out')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
NPROC = int(os.environ.get('VERIF_PROCS', '8'))

SCRATCH = tempfile.mkdtemp(prefix='xmpsv-')
_main_pid = os.getpid()
def _cleanup():
    if os.getpid() == _main_pid:
        shutil.rmtree(SCRATCH, ignore_errors=True)
atexit.register(_cleanup)


class TLCError(Exception):
    pass


class Model:
    """What TLC explored."""
    def __init__(self):
        self.runs = []
    @property
    def states(self):
        return sum(r['distinct'] for r in self.runs)
    @property
    def transitions(self):
        return sum(r['generated'] for r in self.runs)


def _cfg(consts, invariants, properties, spec, constraint=None, postcondition=None, subst=()):
    lines = ['SPECIFICATION %s' % spec]
    def val(v):
        if isinstance(v, bool):
            return 'TRUE' if v else 'FALSE'
        if isinstance(v, (set, frozenset)):
            return '{' + ', '.join(val(x) for x in sorted(v)) + '}'
        if isinstance(v, str):
            return '"%s"' % v
        return str(v)
    for k, v in consts.items():
        if isinstance(v, (list, tuple)):
            raise TLCError('sequences go through subst')
        if isinstance(v, str) and v.startswith('<-'):
            lines.append('CONSTANT %s %s' % (k, v))
        else:
            lines.append('CONSTANT %s = %s' % (k, val(v)))
    for i in invariants:
        lines.append('INVARIANT ' + i)
    for i in properties:
        lines.append('PROPERTY ' + i)
    if constraint:
        lines.append('CONSTRAINT ' + constraint)
    if postcondition:
        lines.append('POSTCONDITION ' + postcondition)
    lines.append('CHECK_DEADLOCK FALSE')
    return '\n'.join(lines) + '\n'


_XV = re.compile(r'^<<"XV", (".*")>>$')

def tlc(model, module, consts, invariants=(), properties=(), spec='Spec', timeout=600, expect_error=False,
        workers=8, heap='6g', postcondition=None, env=None, constraint=None, coverage=False, record=True):
    """Check `module` with TLC; returns the list of emitted JSON values."""
    md = tempfile.mkdtemp(dir=SCRATCH)
    cfg = os.path.join(md, module + '.cfg')
    with open(cfg, 'w') as f:
        f.write(_cfg(consts, invariants, properties, spec, postcondition=postcondition, constraint=constraint))
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp',
           '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar',
           'tlc2.TLC', '-noGenerateSpecTE', '-workers', str(workers), '-config', cfg, '-metadir', os.path.join(md, 'm'),
           os.path.join(SPEC, module + '.tla')]
    if coverage:
        cmd[8:8] = []
        cmd[-1:-1] = ['-coverage', '1']
    t = time.time()
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, cwd=md, env=e)
    out = p.stdout
    rows = []
    for line in out.splitlines():
        m = _XV.match(line)
        if m:
            rows.append(json.loads(json.loads(m.group(1))))
    ok = 'Model checking completed. No error has been found.' in out
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    run = dict(module=module, consts={k: (sorted(v) if isinstance(v, (set, frozenset)) else v) for k, v in consts.items()},
               invariants=list(invariants), properties=list(properties),
               generated=int(m.group(1)) if m else 0, distinct=int(m.group(2)) if m else 0,
               emitted=len(rows), wall_s=round(time.time() - t, 2))
    if coverage:
        run['coverage'] = re.findall(r'^<(\w+) line[^>]*>: (\d+):(\d+)', out, re.M)
    if record:
        model.runs.append(run)
    shutil.rmtree(md, ignore_errors=True)
    if expect_error:
        return ok, out, rows
    if not ok:
        lines = [l for l in out.splitlines() if not l.startswith('<<"XV"')]
        raise TLCError('TLC on %s failed:\n%s' % (module, '\n'.join([l[:400] for l in lines[:-60] if l.startswith('Error')] + [l[:400] for l in lines[-60:]])))
    return rows


# --------------------------------------------------------------------------
class Bad(Exception):
    """A property is violated: key identifies what failed, detail says how."""
    def __init__(self, key, detail=''):
        Exception.__init__(self, key, detail)
        self.key, self.detail = key, detail


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def _one(args):
    fn, case, limit = args
    import numpy as np
    np.random.seed(12345)
    # the limit is on processor time: a busy machine is no reason to complain
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(5*limit)
    devnull = open(os.devnull, 'w')
    so, se = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = devnull           # the library prints
    try:
        n = fn(case)
        return (n if isinstance(n, int) else 1, None)
    except Bad as b:
        return (0, (b.key, b.detail, case))
    except Timeout:
        return (0, ('no-answer', 'no result within %ds' % limit, case))
    except Exception as e:         # a legal call raised
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/xmps/' in f.filename]
        if not where and isinstance(e, (TypeError, ValueError, AttributeError, LookupError, ArithmeticError)):
            # the harness could not use what the code returned (it can on the tree it was written for)
            return (0, ('unusable:%s' % type(e).__name__, traceback.format_exc()[-1500:], case))
        if not where:
            return (0, ('HARNESS:%s' % type(e).__name__, traceback.format_exc()[-1500:], case))
        k = 'raises:%s:%s' % (where[-1].name, type(e).__name__)
        return (0, (k, traceback.format_exc()[-1500:], case))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)
        sys.stdout, sys.stderr = so, se
        devnull.close()


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.model = Model()
        self.tier = TIER
        self.seed = SEED
        self.t0 = time.time()
        self.validated = 0
        self.samples = []
        self.counts = {}
        self.violations = []
        self.notes = {}
        self.quick = TIER != 'thorough'

    def seeds(self, n, thorough=None):
        """A block of n model seeds for this VERIF_SEED (disjoint blocks)."""
        if not self.quick and thorough:
            n = thorough
        lo = 1 + (self.seed - 1) * 100000
        return dict(SeedLo=lo, SeedHi=lo + n - 1)

    def tlc(self, module, consts, **kw):
        return tlc(self.model, module, consts, **kw)

    def replay(self, fn, cases, limit=60, kind=None, chunk=None, procs=None):
        """Run fn on every case in parallel; collect violations."""
        cases = list(cases)
        name = kind or fn.__name__
        if not cases:
            raise RuntimeError('no cases for ' + name)
        procs = procs or NPROC
        work = [(fn, c, limit) for c in cases]
        if procs == 1 or len(cases) == 1:
            res = [_one(w) for w in work]
        else:
            with mp.get_context('fork').Pool(procs) as pool:
                res = pool.map(_one, work, chunksize=chunk or max(1, min(50, len(work) // (procs*4) or 1)))
        ok = 0
        for n, v in res:
            if v is None:
                ok += 1
                self.counts[name + ':checks'] = self.counts.get(name + ':checks', 0) + n
            else:
                if v[0].startswith('HARNESS'):
                    raise RuntimeError('harness error on %s: %s\n%s' % (name, v[0], v[1]))
                self.violations.append((name, fn.__module__, fn.__name__) + v)
        self.validated += ok
        self.counts[name] = self.counts.get(name, 0) + len(cases)
        for c in cases[:2]:
            s = json.dumps(c, default=str)
            if len(self.samples) < 6:
                self.samples.append({'kind': name, 'case': s if len(s) < 700 else s[:700] + '...'})
        return ok

    def fail(self, key, detail, case=None, name='model'):
        self.violations.append((name, '', '', key, detail, case))

    def finish(self):
        known = load_known(self.prop)
        os.makedirs(os.path.join(OUT, 'replays'), exist_ok=True)
        new, seen_known = [], {}
        for v in self.violations:
            key = v[3]
            hit = next((k for k in known if k == key), None)
            if hit:
                seen_known[hit] = v
            else:
                new.append(v)
        for k in seen_known:
            print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, k, known[k]))
        keys = {}
        for v in new:
            keys.setdefault(v[3], []).append(v)
        for i, (k, vs) in enumerate(sorted(keys.items())):
            v = vs[0]
            path = os.path.join(OUT, 'replays', '%s-%d.json' % (self.prop, i))
            with open(path, 'w') as f:
                json.dump(dict(property=self.prop, kind=v[0], module=v[1], function=v[2], key=k, detail=str(v[4]),
                               cases_failing=len(vs), case=v[5]), f, default=str)
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('   %s (%d cases): %s' % (k, len(vs), str(v[4])[-600:]))
        ev = dict(property=self.prop, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=self.seed,
                  level=LEVEL,
                  coverage=dict(states=self.model.states, transitions=self.model.transitions,
                                traces_validated_against_impl=self.validated,
                                samples=self.samples, tlc_runs=self.model.runs, replayed=self.counts,
                                violations_found=len(new), known_findings_seen=sorted(seen_known), **self.notes),
                  assumptions=ASSUMPTIONS, violations=len(new),
                  wall_s=round(time.time() - self.t0, 2))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s %s: %d model states, %d replayed, %d violations, %.1fs' %
              (self.prop, TIER, self.model.states, self.validated, len(new), time.time() - self.t0))
        return 1 if new else 0


LEVEL = 'model_checking'
ASSUMPTIONS = ['the TLA+ specification in /verif/spec states the intended behaviour',
               'TLC evaluates it correctly; its integers are exact (32 bit overflow is an error)',
               'numpy.linalg/einsum used by the replay harness to form dense vectors and compare them is right',
               'agreement within the stated floating point tolerances is agreement']

def load_known(prop):
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out
