import numpy as np
from lib import Bad
from chain import cx, close, own, Watch

def unitary(h, key='num'):
    return cx(h[key])/h['den']

def angle(a):
    return np.arctan2(a[1], a[0])

def orthonormal(G, where, key):
    G = np.asarray(G)
    gram = np.einsum('aij,bji->ab', G, G)
    close(key + ':orthonormal', gram, 2*np.eye(len(G)), where)
    close(key + ':traceless', np.einsum('aii->a', G), np.zeros(len(G)), where)
    close(key + ':hermitian', G, np.conj(np.transpose(G, [0, 2, 1])), where)

def matched(basis, want):
    """position and sign of a generator in the basis of the code"""
    for k, b in enumerate(basis):
        for s in (1, -1):
            if np.allclose(s*b, want, atol=1e-10):
                return k, s
    return None

def replay(case):
    watch = Watch()
    cx = watch.cx
    from xmps import spin as sp
    where = 'seed %s' % case['seed']
    q = case['q']
    v, total, U = np.zeros(4**q-1), 0.0, np.eye(2**q)
    count = 0
    for k, h in enumerate(case['hist']):
        op = h['op']
        wh = '%s step %d %s' % (where, k, op)
        if op == 'coord':
            N, A = h['N'], cx(h['A'])
            basis = np.asarray(sp.su(N))
            own('su', lambda: sp.su(N), wh)
            own('lambdas', sp.lambdas, wh)
            own('slambdas', sp.slambdas, wh)
            own('locals', sp.locals, wh)
            if basis.shape != (N*N-1, N, N):
                raise Bad('su:shape', wh)
            orthonormal(basis, wh, 'su')
            got = np.asarray(sp.components(A))
            for g, c in zip(h['gens'], h['c']):
                m = matched(basis, cx(g['m'])*np.sqrt(2/g['n']))
                if m is None:
                    raise Bad('su:set', '%s: N=%d no generator %s' % (wh, N, g))
                close('components', m[1]*got[m[0]], c*np.sqrt(2/g['n'])/2, wh)
            close('components:back', np.tensordot(got, basis, [0, 0]), A, wh)
            if N == 4:
                L = np.asarray(sp.lambdas())
                orthonormal(L, wh, 'lambdas')
                for g in h['gens']:
                    if matched(L, cx(g['m'])*np.sqrt(2/g['n'])) is None:
                        raise Bad('lambdas:set', '%s: %s' % (wh, g))
        elif op == 'turn':
            N = 2**q
            P, t = cx(h['P']), angle(h['a'])
            total += abs(t)
            v = v + t*np.asarray(sp.components(P)).real
            U = unitary(h)
        elif op == 'insert':
            w = np.asarray(sp.insu2N(v, h['where']))
            if np.max(np.abs(np.imag(w))) > 1e-12:
                raise Bad('insu2N:real', wh)
            big = np.tensordot(v, sp.su(2**q), [0, 0])
            keep = list(range(q+1))
            keep.remove({'left': 0, 'mid': q-1, 'right': q}[h['where']])
            E = np.tensordot(w, sp.su(2**(q+1)), [0, 0])
            close('insu2N:generator', sp.partial_trace(E, keep, [2]*(q+1))/2, big, wh)
            close('insu2N:unitary', sp.SU(w.real, 2**(q+1)), unitary(h), wh)
            if h['where'] == 'mid':
                close('SU:2N', sp.SU(v, 2**q, '2N'), unitary(h), wh)
            close('insu2N:trace', sp.partial_trace(sp.SU(w.real, 2**(q+1)), keep, [2]*(q+1))/2, U, wh)
            v, q, U = w.real, q+1, unitary(h)
        elif op == 'symm':
            G, t = cx(h['G']), angle(h['a'])
            S = np.asarray(sp.slambdas())
            if S.shape != (9, 4, 4):
                raise Bad('slambdas:shape', wh)
            m = matched(S, G)
            if m is None:
                raise Bad('slambdas:set', '%s: no generator %s' % (wh, h['G']))
            w = np.zeros(9)
            w[m[0]] = m[1]*t
            close('U4s', sp.U4s(w), unitary(h), wh)
            if not sp.is_swap_symmetric(unitary(h)):
                raise Bad('U4s:symmetric', wh)
            close('U4', sp.U4([np.trace(G@x).real/2*t for x in sp.lambdas()]), unitary(h), wh)
        elif op == 'local':
            t = 2*angle(h['a'])
            n = np.array(h['ax'][:3])/h['ax'][3]
            # the local generators come one qubit after the other
            L = np.asarray(sp.locals())
            if L.shape != (6, 4, 4):
                raise Bad('locals:shape', wh)
            got = [sp.U1(t*n), sp.U2(t*n)]
            want = [unitary(h, 'second'), unitary(h, 'first')]
            for name, a, b in zip(('U1', 'U2'), got, want):
                close(name, a, b, wh)
            for name, f in (('antiferro', sp.antiferro), ('ferro', sp.ferro)):
                x, y, z = f()
                if not sp.pCR(x, y, z):
                    raise Bad(name + ':algebra', wh)
                close(name + ':casimir', (x@x + y@y + z@z)@(x@x), 3*(x@x), wh)
            for a in sp.ferro():
                for b in sp.antiferro():
                    close('spinors:commute', sp.comm(a, b), np.zeros((4, 4)), wh)
        if op in ('turn', 'insert'):
            N = 2**q
            own('SU', lambda: sp.SU(v, N), wh)
            close('SU', sp.SU(v, N), U, wh)
            if N == 4:
                close('SU4', sp.SU4(v), U, wh)
                L = np.asarray(sp.lambdas())
                Q = np.tensordot(v, sp.su(4), [0, 0])
                close('U4', sp.U4([np.trace(Q@x).real/2 for x in L]), U, wh)
            if N == 8:
                close('SU8', sp.SU8(v), U, wh)
            if total < np.pi - 0.1:
                close('extractv', np.asarray(sp.extractv(U)), v, wh, tol=1e-7)
                close('to_new_v', np.asarray(sp.to_new_v(v)), v, wh, tol=1e-7)
            ph = np.exp(1j*(1 + k))
            if not sp.equal_up_to_phase(ph*U, U) or not sp.equal_up_to_phase(U, -U):
                raise Bad('equal_up_to_phase:phase', wh)
            for W in (U@np.diag([1]*(N-1) + [-1]), 2*U, np.zeros((N, N))):
                if sp.equal_up_to_phase(U, W) or sp.equal_up_to_phase(W, U):
                    raise Bad('equal_up_to_phase:different', wh)
        watch.check(wh)
        count += op != 'none'
    return count

def run(ctx):
    rows = ctx.tlc('LieAlg', dict(ctx.seeds(150, 3000), Depth=6), invariants=['Unitary', 'Composed', 'Commuting', 'Orthogonal', 'Spanning', 'EmitAtEnd'], timeout=1500)
    ctx.replay(replay, rows, kind='unitary', limit=120)
