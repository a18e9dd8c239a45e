import numpy as np
from lib import Bad
from chain import cx, close

def replay_legs(case):
    from xmps.peps_tools import group_legs, ungroup_legs, inverse_transpose
    T = cx(case['init']['data']).reshape(case['init']['dims'])
    T0 = T.copy()
    where = 'seed %s' % case['seed']
    stack, cur, n = [], T, 0
    for h in case['hist']:
        want = cx(h['data']).reshape(h['dims'])
        if h['op'] == 'group':
            parts = [[l - 1 for l in p] for p in h['parts']]
            where += ' group%s' % parts
            before = cur.copy()
            cur2, pipe = group_legs(cur, parts)
            if not np.array_equal(before, cur):
                raise Bad('group:changes-argument', where)
            cur = cur2
            stack.append(pipe)
            perm = sum(parts, [])
            inv = inverse_transpose(perm)
            if [perm[i] for i in inv] != list(range(len(perm))):
                raise Bad('inverse-transpose', '%s: %s' % (where, inv))
        else:
            where += ' ungroup'
            cur = ungroup_legs(cur, stack.pop())
        if tuple(cur.shape) != tuple(h['dims']):
            raise Bad(h['op'] + ':shape', '%s: %r, expected %r' % (where, cur.shape, h['dims']))
        if not np.array_equal(cur, want):
            raise Bad(h['op'] + ':entries', where)
        n += 1
    return n

def replay_trace(case):
    from xmps.tensor import partial_trace, ρA, loc, loc_3, split_up, split_up_3, direct_sum
    i = case['init']; dims = i['dims']
    N = int(np.prod(dims))
    rho = cx(i['data']).reshape(N, N)
    kept = [k - 1 for k in case['kept']]
    m = int(np.prod([dims[k] for k in kept]))
    want = cx(case['data']).reshape(m, m)
    where = 'seed %s dims %s keep %s' % (case['seed'], dims, kept)
    r0 = rho.copy()
    for opt in (False, True):
        got = partial_trace(rho, kept, dims, optimize=opt)
        close('partial_trace', got, want, where, tol=1e-12)
    close('partial_trace', partial_trace(rho, np.array(kept), np.array(dims)), want, where, tol=1e-12)
    close('partial_trace', partial_trace(rho, tuple(kept), tuple(dims)), want, where, tol=1e-12)
    from xmps.spin import partial_trace as another
    close('partial_trace', another(rho, np.array(kept), np.array(dims), optimize=True), want, where, tol=1e-12)
    if not np.array_equal(r0, rho):
        raise Bad('partial_trace:changes-argument', where)
    n = 3
    if i['u']:
        u = cx(i['u'])
        close('rhoA', ρA(u, kept, dims), want, where, tol=1e-12)
        close('rhoA', ρA(u.reshape(dims), kept, dims), want, where, tol=1e-12)
        close('rhoA', ρA(u, np.array(kept), np.array(dims), optimize=True), want, where, tol=1e-12)
        close('rhoA', ρA(u, tuple(kept), tuple(dims)), want, where, tol=1e-12)
        n += 4
    if not case['hist']:
        ds = i['sp']['dims']
        ms = [cx(M).reshape(D, D) for M, D in zip(i['sp']['ms'], ds)]
        K = cx(i['kron']).reshape(int(np.prod(ds)), -1)
        where = 'seed %s factors %s' % (case['seed'], ds)
        close('direct_sum', direct_sum(ms[0], ms[1]), np.block([[ms[0], np.zeros((ds[0], ds[1]))], [np.zeros((ds[1], ds[0])), ms[1]]]), where)
        rect = cx(i['sp']['rect']).reshape(i['sp']['shape'])
        for M in (ms[0], rect.T):
            K2 = np.kron(M, rect); p, q = rect.shape
            for a in np.ndindex(*M.shape):
                for b in np.ndindex(p, q):
                    l = loc(a, b, None, p, q)
                    if not K2[tuple(int(z) for z in l)] == M[a]*rect[b]:
                        raise Bad('loc', '%s: %s %s of %s (x) %s' % (where, a, b, M.shape, rect.shape))
                    n += 1
        if len(ds) == 2:
            p, q = ds
            for a in np.ndindex(p, p):
                for b in np.ndindex(q, q):
                    l = loc(a, b, None, q, q) if p != q else loc(a, b, p)
                    if not K[tuple(int(z) for z in l)] == ms[0][a]*ms[1][b]:
                        raise Bad('loc', '%s: %s %s' % (where, a, b))
            n += p*p*q*q
            h = split_up(K, p) if p == q else split_up(K, p=q, q=q)
            # documented by the tests: indices (row 2, row 1, column 2, column 1)
            close('split_up', h, np.einsum('ij,kl->kilj', ms[0], ms[1]), where, tol=1e-12)
        elif ds[0] == ds[1] == ds[2]:
            D = ds[0]
            for a in np.ndindex(D, D):
                for b in np.ndindex(D, D):
                    for c in np.ndindex(D, D):
                        if not K[tuple(int(z) for z in loc_3(a, b, c, D))] == ms[0][a]*ms[1][b]*ms[2][c]:
                            raise Bad('loc_3', '%s: %s %s %s' % (where, a, b, c))
            close('split_up_3', split_up_3(K, D), np.einsum('ij,kl,mn->ijklmn', *ms), where, tol=1e-12)
            n += D**6
    return n

def run(ctx):
    s = ctx.seeds(1500, 12000)
    rows = ctx.tlc('Layout', dict(s, Depth=3, Mode='legs'), invariants=['Restores', 'SameEntries', 'Emit'], constraint='Bound')
    ctx.replay(replay_legs, rows, kind='regroup')
    s = ctx.seeds(350, 3000)
    rows = ctx.tlc('Layout', dict(s, Depth=3, Mode='trace'), invariants=['Commutes', 'KeepsTrace', 'Emit'])
    ctx.replay(replay_trace, rows, kind='partial-traces')
