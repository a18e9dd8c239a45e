import warnings
import numpy as np
import scipy.linalg
import scipy.linalg._decomp_svd as decomp
from lib import Bad
from chain import cx, close, tensors, same_ray

class Stop(MemoryError):
    pass

class Script:
    """what the drivers do, call by call"""
    def __init__(self):
        self.on = False
    def load(self, log):
        # a call of the fast driver, and what the slow one does if it is asked after it
        self.fast, self.slow, self.fatal, self.calls, self.backups = [], {}, None, 0, 0
        for who, what in log:
            if who == 'fast':
                self.fast.append(what)
            else:
                self.slow[len(self.fast)] = what
        self.on = True
    def ask(self, driver):
        """the outcome of this call"""
        if driver == 'fast':
            self.calls += 1
            out = self.fast[self.calls-1] if self.calls <= len(self.fast) else 'ok'
            if out == 'stops':
                self.fatal = 'stopped'
        else:
            self.backups += 1
            out = self.slow.get(self.calls, 'ok')
            if out == 'diverges':
                self.fatal = 'diverged'
        return out

script = Script()
_funcs = decomp.get_lapack_funcs
_npsvd = np.linalg.svd

def drivers(names, *args, **kw):
    """stands in for the look-up of LAPACK routines: the two drivers follow the script"""
    funcs = _funcs(names, *args, **kw)
    if not script.on or names[0] not in ('gesdd', 'gesvd'):
        return funcs
    real = funcs[0]
    def driver(*a, **k):
        out = script.ask('fast' if names[0] == 'gesdd' else 'slow')
        if out == 'stops':
            raise Stop('no memory')
        res = real(*a, **k)
        if out == 'diverges':
            # what LAPACK leaves behind when it gives up
            return tuple(np.full_like(x, np.nan) for x in res[:-1]) + (1,)
        return res
    driver.typecode, driver.module_name = getattr(real, 'typecode', None), getattr(real, 'module_name', None)
    return (driver,) + tuple(funcs[1:])

def npsvd(*a, **k):
    """numpy's own svd has the fast driver only"""
    if script.on:
        out = script.ask('fast')
        if out == 'stops':
            raise Stop('no memory')
        if out == 'diverges':
            raise np.linalg.LinAlgError('SVD did not converge')
    return _npsvd(*a, **k)

def install():
    decomp.get_lapack_funcs = drivers
    np.linalg.svd = npsvd

def attempt(f):
    install()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return f(), None
    except Exception as e:
        return None, e
    finally:
        script.on = False

def judge(case, where, f):
    """the operation under the script: its result, or None when it had to stop and said so"""
    script.load(case['log'])
    out, err = attempt(f)
    if script.fatal is None:
        if err is not None:
            raise Bad('fallback:raises', '%s: %r after %d calls' % (where, err, script.calls))
        return out
    if err is None:
        raise Bad('fallback:swallowed', '%s: %s but a result was returned' % (where, script.fatal))
    if script.fatal == 'stopped' and not isinstance(err, Stop):
        raise Bad('fallback:other-error', '%s: %r' % (where, err))
    if script.fatal == 'diverged' and not isinstance(err, np.linalg.LinAlgError):
        raise Bad('fallback:error', '%s: %r' % (where, err))
    return None

def factors(A, out, full, where, key):
    U, S, V = out
    n, m = A.shape
    k = min(n, m)
    if U.shape != ((n, n) if full else (n, k)) or V.shape != ((m, m) if full else (k, m)) or S.shape != (k,):
        raise Bad(key + ':shape', where)
    close(key + ':U', U.conj().T@U, np.eye(U.shape[1]), where)
    close(key + ':V', V@V.conj().T, np.eye(V.shape[0]), where)
    close(key + ':product', (U[:, :k]*S)@V[:k], A, where)
    if np.any(S < -1e-12) or np.any(np.diff(S) > 1e-12):
        raise Bad(key + ':sorted', '%s: %s' % (where, S))

def replay(case):
    install()
    from xmps import svd_robust
    from xmps.fMPS import fMPS, vfMPS
    ini = case['ini']
    op = ini['op']
    where = 'seed %s %s %s' % (case['seed'], op, ' '.join('%s:%s' % tuple(x) for x in case['log']))
    if op == 'raw':
        A, full = cx(ini['A']), bool(ini['full'])
        if case['seed'] % 2:
            A = A.real.copy()
        kept = A.copy()
        out = judge(case, where, lambda: [svd_robust.svd(A, full_matrices=full) for _ in range(3)])
        if out is not None:
            for o in out:
                factors(kept, o, full, where, 'svd')
        # without a warning, and when the argument may be overwritten: the fast driver leaves it for the slow one
        out = judge(case, where, lambda: [svd_robust.svd(A, full_matrices=full, warn=False) for _ in range(3)])
        if out is not None:
            for o in out:
                factors(kept, o, full, where, 'svd:quiet')
        spare = [np.array(kept, order='F') for _ in range(3)]
        out = judge(case, where, lambda: [svd_robust.svd(x, full_matrices=full, overwrite_a=True) for x in spare])
        if out is not None:
            for o in out:
                factors(kept, o, full, where, 'svd:overwrite')
            if not script.backups and any(not np.array_equal(x, kept) for x in spare):
                raise Bad('svd:overwritten', where)
        s = judge(case, where, lambda: svd_robust.svd(A, full_matrices=full, compute_uv=False))
        if s is not None:
            close('svd:values', s, _npsvd(kept, compute_uv=False), where)
        v = judge(case, where, lambda: svd_robust.svd(A, full_matrices=full, lapack_driver='gesvd'))
        if v is not None:
            factors(kept, v, full, where, 'gesvd')
        if not np.array_equal(A, kept):
            raise Bad('svd:argument', where)
        for bad in (np.array([[np.nan, 1], [0, 1]]), np.array([[np.inf, 1], [0, 1]])):
            script.load([])
            _, err = attempt(lambda: svd_robust.svd(bad))
            if not isinstance(err, ValueError):
                raise Bad('svd:not-finite', '%s: %r' % (where, err))
        try:
            svd_robust.svd(np.eye(2), lapack_driver='other')
            raise Bad('svd:driver', where)
        except ValueError:
            pass
        return 3
    d, L, k = ini['d'], ini['L'], ini['k']
    psi = cx(ini['psi'])
    m = fMPS(tensors(ini['tensors']))
    state = np.asarray(m.recombine()).copy()
    f = {'lcan': lambda: m.left_canonicalise(), 'rcan': lambda: m.right_canonicalise(),
         'lcan0': lambda: m.left_canonicalise(sweep_back=False), 'rcan0': lambda: m.right_canonicalise(sweep_back=False),
         'lfrom': lambda: fMPS().left_from_state(state), 'rfrom': lambda: fMPS().right_from_state(state),
         'mcan': lambda: m.mixed_canonicalise(k), 'vidal': lambda: vfMPS().from_fMPS(m).to_fMPS(),
         'two': lambda: m.apply_two_site((cx(ini['O']), (ini['i']-1, ini['i'])))}[op]
    out = judge(case, where, f)
    if out is None:
        return 1
    got = np.asarray((m if op == 'two' and not isinstance(out, fMPS) else out).recombine()).reshape(-1)
    same_ray('state:' + op, got, psi, where, tol=1e-7)
    return 1

def run(ctx):
    rows = ctx.tlc('Fallback', dict(ctx.seeds(40, 600), Calls=4 if ctx.quick else 5), invariants=['Backed', 'Honest', 'EmitAtEnd'], properties=['Frame'], timeout=1500)
    ctx.replay(replay, rows, kind='faults', limit=300)
