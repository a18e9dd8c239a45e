import numpy as np
from lib import Bad
from chain import *

def replay_dense(case):
    from xmps.fMPS import fMPS
    i = case['init']; d, L = i['d'], i['L']
    psi = cx(i['psi'])
    # arbitrary tensors: exactly the product of the chosen matrices
    c = fMPS(tensors(i['chain']))
    got = np.asarray(c.recombine())
    if got.shape != (d,)*L:
        raise Bad('recombine:shape', 'seed %s: %r' % (case['seed'], got.shape))
    close('recombine:amplitudes', got.reshape(-1), cx(i['chainv']), 'seed %s' % case['seed'], tol=1e-10)
    state = psi.reshape([d]*L).copy()
    keep = state.copy()
    m = None
    n = 1
    ops = []
    for h in case['hist']:
        ops.append(h['op'])
        where = 'seed %s (%s)' % (case['seed'], ' '.join(ops))
        if h['op'] in ('left', 'right'):
            m = fMPS()
            s0 = state.copy()
            r = m.left_from_state(state) if h['op'] == 'left' else m.right_from_state(state)
            if r is not m and not isinstance(r, fMPS):
                raise Bad('split:return', where)
            m = r
            if not np.array_equal(s0, state):
                raise Bad('split:changes-argument', where)
            if m.L != L or m.d != d or len(m.data) != L:
                raise Bad('split:L-d', where)
            if m.D != max(bonds(m.data)):
                raise Bad('split:D', '%s D=%s bonds %s' % (where, m.D, bonds(m.data)))
        elif h['op'] == 'recombine':
            state = np.asarray(m.recombine())
            if state.shape != (d,)*L:
                raise Bad('recombine:shape', '%s %r' % (where, state.shape))
            same_ray('recombine:ray', state.reshape(-1), psi, where)
            n += 1
            continue
        elif h['op'] == 'lcan': m.left_canonicalise()
        elif h['op'] == 'rcan': m.right_canonicalise()
        elif h['op'] == 'phase':
            state = state*(0.3-1.7j)
            continue
        v = dense(m.data)
        same_ray(h['op'] + ':ray', v, psi, where)
        if not abs(np.linalg.norm(v) - 1) <= TOL:
            raise Bad(h['op'] + ':norm', '%s norm %.9g' % (where, np.linalg.norm(v)))
        for k, A in enumerate(m.data):
            e = left_iso(A) if h['form'] == 'A' else right_iso(A)
            if not e <= TOL:
                raise Bad(h['op'] + ':isometry', '%s site %d: %.3g' % (where, k, e))
        b = bonds(m.data)
        for k in range(L+1):
            if b[k] > min(d**k, d**(L-k)) or b[k] < i['ranks'][k]:
                raise Bad(h['op'] + ':bond', '%s bonds %s' % (where, b))
        # every basis amplitude, by its label
        rs = np.random.RandomState(case['seed'] % 2**31)
        s = m.recombine()
        same_ray(h['op'] + ':recombine', s.reshape(-1), psi, where)
        ratio = None
        for _ in range(4):
            lab = tuple(rs.randint(0, d, L))
            amp = np.ones((1, 1))
            for A, q in zip(m.data, lab):
                amp = amp @ A[q]
            close(h['op'] + ':amplitude', np.array(s[lab]), np.array(amp[0, 0]), where)
        n += 3
    return n

def run(ctx):
    q = ctx.quick
    s = ctx.seeds(900, 9000)
    rows = ctx.tlc('DenseState', dict(s, Depth=4, MaxL=6), invariants=['Holds', 'EmitAtEnd'], properties=['Keeps'])
    ctx.replay(replay_dense, rows, kind='conversions')
    from checks.pool import cases, replay_arith
    ctx.replay(replay_arith, cases(ctx, {'prod', 'append', 'extend', 'pack'}, 150 if q else 1500, 3, 'KindArith', seed0=5000), kind='product-states')
