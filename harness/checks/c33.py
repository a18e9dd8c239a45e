import numpy as np
from lib import Bad
from chain import cx, close, dense

def replay(case):
    from xmps import tests as t
    from xmps.fMPS import fMPS
    n, done = 0, []
    for h in case['hist']:
        done.append(h['op'])
        where = 'seed %s %s: %s' % (case['seed'], case['side'], ' '.join(done))
        As = [cx(M)/(100*k) for M, k in zip(h['Ms'], case['ns'])]
        Ss = [cx(S)/d for S, d in zip(h['Ss'], case['dens'])]
        kept = [A.copy() for A in As], [S.copy() for S in Ss]
        w = dict(h['is'])
        # a deviation within reach of the tolerances of the reports may be called either way
        off = dict(leftenv=max(np.max(np.abs(np.einsum('sab,bc,sdc->ad', A, R, A.conj())-L)) for A, L, R in zip(As, Ss, Ss[1:])),
                   rightenv=max(np.max(np.abs(np.einsum('sab,ac,scd->bd', A.conj(), L, A)-R)) for A, L, R in zip(As, Ss, Ss[1:])))
        for k in off:
            if (off[k] < 1e-9) != w[k]:
                raise Bad('model', '%s: %s %g' % (where, k, off[k]))
        unsure = {k for k in off if 1e-9 < off[k] < 1e-3}
        got = dict(left=t.is_left_canonical(As), right=t.is_right_canonical(As), leftenv=t.is_left_env_canonical(As, Ss),
                   rightenv=t.is_right_env_canonical(As, Ss), rank=t.is_full_rank(Ss), trace=t.has_trace_1(Ss))
        for k in got:
            if k not in unsure and bool(got[k]) != w[k]:
                raise Bad('says:' + k, '%s: says %s' % (where, bool(got[k])))
        for k, f, args in (('left', t.is_left_canonical, As), ('right', t.is_right_canonical, As), ('trace', t.has_trace_1, Ss)):
            flag, err = f(args, error=True)
            if bool(flag) != w[k] or len(err) != len(args):
                raise Bad('error:' + k, '%s: %s %s' % (where, flag, err))
            if k == 'trace':
                close('error:trace', err, [np.trace(S)-1 for S in Ss], where)
            elif bool(np.max(np.abs(err)) < 1e-7) != w[k]:
                raise Bad('error:' + k, '%s: %s' % (where, err))
        # one tensor at a time
        for f, gram, eye in ((t.is_left_canonical, lambda A: np.einsum('sab,sac->bc', A.conj(), A), 2), (t.is_right_canonical, lambda A: np.einsum('sab,scb->ac', A, A.conj()), 1)):
            for A in As:
                if bool(f([A])) != bool(np.max(np.abs(gram(A)-np.eye(A.shape[eye]))) < 1e-6):
                    raise Bad('says:one', where)
        # the state's own summary of its tensors and weights
        m = fMPS([A.copy() for A in As])
        m.update_properties()
        if bool(m.is_left_canonical) != w['left'] or bool(m.is_right_canonical) != w['right']:
            raise Bad('summary:canonical', where)
        for a in ('is_left_env_canonical', 'is_right_env_canonical', 'is_full_rank', 'has_trace_1'):
            if getattr(m, a):
                raise Bad('summary:no-weights', where + ' ' + a)
        size = np.linalg.norm(dense(As))**2
        if abs(size-1) < 1e-9 or abs(size-1) > 1e-3:
            if bool(m.has_norm_1) != (abs(size-1) < 1e-9):
                raise Bad('summary:norm', '%s: norm %s' % (where, size))
        m.Ls = [S.copy() for S in Ss]
        m.update_properties()
        for a, k in (('is_left_canonical', 'left'), ('is_right_canonical', 'right'), ('is_left_env_canonical', 'leftenv'),
                     ('is_right_env_canonical', 'rightenv'), ('is_full_rank', 'rank'), ('has_trace_1', 'trace')):
            if k not in unsure and bool(getattr(m, a)) != w[k]:
                raise Bad('summary:' + k, where)
        if any(not np.array_equal(a, b) for x, y in zip(kept, (As, Ss)) for a, b in zip(x, y)) or any(not np.array_equal(a, b) for a, b in zip(m.data, As)):
            raise Bad('changes', where)
        n += 1
    return n

def run(ctx):
    rows = ctx.tlc('Reports', dict(ctx.seeds(300, 4000), Depth=6), invariants=['Undisturbed', 'TallEnough', 'EmitAtEnd'], timeout=1500)
    ctx.replay(replay, rows, kind='reports', limit=60)
