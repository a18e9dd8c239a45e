import numpy as np
from lib import Bad
from chain import Watch, close, dense

def zero(key, x, where):
    close(key, x, np.zeros(np.shape(x)), where)

def unitary(key, U, n, where):
    if np.shape(U) != (n, n):
        raise Bad(key + ':shape', '%s: %s' % (where, np.shape(U)))
    close(key, U.conj().T@U, np.eye(n), where)

def replay(case):
    watch = Watch()
    cx, tensors = watch.cx, watch.tensors
    from xmps import tensor as tn
    from xmps.fMPS import fMPS
    n, done = 0, []
    for h in case['hist']:
        op = h['op']
        done.append(op)
        where = 'seed %s: %s' % (case['seed'], ' '.join(done))
        if op == 'embed':
            v = cx(h['v'])
            for w in (v, v.reshape(2, -1)) if len(v) % 2 == 0 else (v,):
                u = tn.embed(w)
                unitary('embed', u, len(v), where)
                close('embed:vector', u[:, 0], v/np.sqrt(h['n']), where)
                close('embed:rest', u[:, 1:]@u[:, 1:].conj().T, cx(h['rest'])/h['n'], where)
            if len(v) == 4:
                close('deembed', tn.deembed(u), (v/np.sqrt(h['n'])).reshape(2, 2), where)
        elif op == 'extend':
            Q, P, k, s = cx(h['Q'])/h['n'], cx(h['rest'])/h['n']**2, h['k'], h['size']
            D = [None, s, s+1, s+3][h['more']]
            for flip in (False, True):
                U = tn.unitary_extension(Q.conj().T if flip else Q, D)
                if flip:
                    U = U.conj().T
                unitary('extend', U, D or s, where)
                close('extend:given', U[:s, :k], Q, where)
                zero('extend:below', U[s:, :k], where)
                close('extend:rest', U[:s, k:s]@U[:s, k:s].conj().T, P, where)
                close('extend:outside', U[s:, s:], np.eye((D or s)-s), where)
            close('eye_like', tn.eye_like(Q), np.eye(s), where)
        elif op == 'null':
            A = cx(h['A'])
            if h['rank'] < len(A):
                continue
            N = tn.get_null_space(A)
            if N.shape != (A.shape[1], A.shape[1]-len(A)):
                raise Bad('null:shape', '%s: %s' % (where, N.shape))
            zero('null', A@N, where)
            close('null:orthonormal', N.conj().T@N, np.eye(N.shape[1]), where)
        elif op in ('uqr', 'urq'):
            A = cx(h['A'])
            if h['rank'] < min(A.shape):
                continue
            kept = A.copy()
            a, b = (tn.uqr if op == 'uqr' else tn.urq)(A)
            q, r = (a, b) if op == 'uqr' else (b.conj().T, a.conj().T)
            m = min(A.shape)
            if a.shape != (A.shape[0], m) or b.shape != (m, A.shape[1]):
                raise Bad(op + ':shape', '%s: %s %s' % (where, a.shape, b.shape))
            close(op + ':product', a@b, cx(h['A']), where)
            close(op + ':isometry', q.conj().T@q, np.eye(m), where)
            zero(op + ':triangular', np.tril(a if op == 'urq' else b, -1), where)
            d = np.diag(r)
            if not (np.all(d.real > 0) and np.max(np.abs(d.imag)) < 1e-9):
                raise Bad(op + ':unique', '%s: diagonal %s' % (where, d))
            close(op + ':gram', r.conj().T@r, cx(h['gram']), where)
            close(op + ':operand', A, kept, where, tol=0)
        elif op == 'svd':
            A, sv, D = cx(h['A'])/h['scale'], np.array(h['sv'], dtype=float), h['D']
            U, S, V = tn.tr_svd(A, D)
            if U.shape != (len(A), D) or S.shape != (D, D) or V.shape != (D, len(A)):
                raise Bad('svd:shape', where)
            close('svd:values', np.diag(S), sv[:D], where)
            zero('svd:diagonal', S - np.diag(np.diag(S)), where)
            close('svd:left', U.conj().T@U, np.eye(D), where)
            close('svd:right', V@V.conj().T, np.eye(D), where)
            close('svd:best', np.linalg.norm(A - U@S@V)**2, np.sum(sv[D:]**2), where)
        elif op == 'cut':
            A, S, V, U, B = (cx(h[k]) for k in 'ASVUB')
            mul = lambda f, g, k: np.array([x@f@g for x in k])
            for D, minD, keep, wl, wr in ((h['D'], True, h['D'], h['left'], h['right']), (h['D'], False, h['D'], h['left'], h['right']),
                                  (None, True, h['nz'], h['leftAll'], h['rightAll']), (None, False, len(S), h['leftAll'], h['rightAll'])):
                a, s, v = tn.truncate_A(A, S, V, D, minD)
                if a.shape != (2, A.shape[1], keep) or s.shape != (keep, keep) or v.shape != (keep, V.shape[1]):
                    raise Bad('cut:left:shape', '%s D=%s: %s %s %s' % (where, D, a.shape, s.shape, v.shape))
                close('cut:left', np.array([x@s@v for x in a]), cx(wl), where)
                u, s, b = tn.truncate_B(U, S, B.transpose(0, 1, 2), D, minD)
                if u.shape != (U.shape[0], keep) or s.shape != (keep, keep) or b.shape != (2, keep, B.shape[2]):
                    raise Bad('cut:right:shape', '%s D=%s' % (where, D))
                close('cut:right', np.array([u@s@x for x in b]), cx(wr), where)
            if tn.rank(S) != h['nz']:
                raise Bad('rank', where)
        elif op == 'eig':
            M = cx(h['M'])
            V, D = tn.diagonalise(M)
            unitary('eig', V, len(M), where)
            close('eig:product', V@D@V.conj().T, M, where)
            d = np.diag(D)
            close('eig:diagonal', D, np.diag(d), where)
            if not np.all(np.diff(d.real) <= 1e-9):
                raise Bad('eig:order', '%s: %s' % (where, d))
            for k, t in enumerate(h['tr']):
                close('eig:powers', np.sum(d**(k+1)), t, where)
        elif op == 'phase':
            M, w = cx(h['M']), complex(*h['w'])
            r = cx(h['given'])/abs(w)
            x = tn.rotate_to_hermitian(r)
            if min(np.max(np.abs(x-M)), np.max(np.abs(x+M))) > 1e-9:
                raise Bad('phase', where)
            p, y = tn.rotate_to_hermitian(r, ret_phase=True)
            close('phase:pair', [y, p*y], [x, r], where)
            if not abs(abs(p)-1) < 1e-9:
                raise Bad('phase:modulus', where)
        elif op == 'exp':
            A, v = cx(h['A']), cx(h['v'])
            close('exp', tn.lanczos_expm(A, v, h['p']/2), cx(h['y'])/48, where)
        elif op == 'sum':
            close('sum', tn.direct_sum(cx(h['A']), cx(h['B'])), cx(h['m']), where, tol=0)
        elif op == 'dots':
            Ms = cx(h['Ms'])
            for name, got, want in (('ldot', tn.ldot(cx(h['L']), Ms), 'lm'), ('rdot', tn.rdot(Ms, cx(h['R'])), 'mr'),
                                    ('T', tn.T(Ms), 't'), ('H', tn.H(Ms), 'h'), ('C', tn.C(Ms), 'c'),
                                    ('T:one', tn.T(Ms[0]), None), ('H:one', tn.H(Ms[0]), None)):
                w = cx(h[want]) if want else cx(h[name[0].lower()])[0]
                close('stack:' + name, got, w, where, tol=1e-12)
        elif op == 'pad':
            a, b = fMPS(tensors(h['A'])), fMPS(tensors(h['B']))
            p, q = tn.mps_pad(a.copy(), b.copy())
            for x, v in ((p, h['a']), (q, h['b'])):
                close('pad:state', dense(x.data), cx(v), where)
                got = [[int(s) for s in A.shape[1:]] for A in x.data]
                if got != h['bonds']:
                    raise Bad('pad:shapes', '%s: %s expected %s' % (where, got, h['bonds']))
            if p.structure() != q.structure() or p.structure() != tn.structure(q):
                raise Bad('pad:structure', where)
        elif op == 'iterate':
            if [list(x) for x in tn.single_basis_iterator(h['d'])] != h['one'] or [[list(y) for y in x] for x in tn.basis_iterator(h['d'])] != h['two']:
                raise Bad('iterate', where)
        elif op == 'merge':
            import xmps.fMPS as fm
            d = h['d']
            A, B, U, two, turned, D = cx(h['A']), cx(h['B']), cx(h['U']), cx(h['two']), cx(h['turned']), h['D']
            kept = [A.copy(), B.copy(), U.copy()]
            close('merge:group', fm.group_tensors([A, B]), two, where)
            close('merge:fewer', fm.apply_isometry([A, B], U[:h['k']]), cx(h['fewer']), where)
            def left(key, x):
                x = x.reshape(-1, x.shape[2])
                close(key, x.conj().T@x, np.eye(x.shape[1]), where)
            def right(key, x):
                x = x.transpose(0, 2, 1).reshape(-1, x.shape[1])
                close(key, x.conj().T@x, np.eye(x.shape[1]), where)
            for which, form in (('l', left), ('r', right)):
                a, b = fm.apply_unitary([A, B], U, which)
                if (len(a), len(b), a.shape[1], b.shape[2]) != (d, d, A.shape[1], B.shape[2]) or a.shape[2] != b.shape[1]:
                    raise Bad('merge:shape', where)
                close('merge:' + which, fm.group_tensors([a, b]), turned, where)
                form('merge:form:' + which, (a, b)['lr'.index(which)])
                if not np.any(turned):
                    continue
                m = turned.reshape(d, d, A.shape[1], B.shape[2]).transpose(0, 2, 1, 3).reshape(d*A.shape[1], -1)
                w = np.linalg.svd(m, compute_uv=False)
                for k in (D, min(m.shape)):
                    k = min(k, len(w))
                    if k < len(w) and w[k-1] - w[k] < 1e-6*w[0]:
                        continue
                    a, b = fm.apply_unitary([A, B], U, which, D=k)
                    if a.shape[2] != k or b.shape[1] != k:
                        raise Bad('merge:kept', '%s: %s %s D=%d' % (where, a.shape, b.shape, k))
                    form('merge:cut-form:' + which, (a, b)['lr'.index(which)])
                    got = fm.group_tensors([a, b])
                    # the nearest one of this rank, of size one
                    close('merge:size', np.linalg.norm(got), 1, where)
                    close('merge:best', np.vdot(turned, got), np.sqrt(np.sum(w[:k]**2)), where)
            for x, y in zip((A, B, U), kept):
                close('merge:argument', x, y, where, tol=0)
        elif op == 'orders':
            import xmps.fMPS as fm
            import xmps.fPEPS as fp
            for f in (fm.factors, fp.factors):
                a, b = f(h['N'])
                if a*b != h['N'] or abs(a-b) != h['gap']:
                    raise Bad('factors', '%s: %d = %s*%s' % (where, h['N'], a, b))
            J, k = cx(h['J']).real, h['n']
            close('symplectic', fm.sympmat(k), J, where, tol=0)
            C = fm.changebasis(k)
            close('side by side', C@np.arange(1, 2*k+1), np.array(h['pairs']), where, tol=0)
            close('side by side:form', C@fm.sympmat(k)@C.T, np.kron(np.eye(k), [[0, 1], [-1, 0]]), where, tol=0)
        elif op == 'haar':
            u, w = tn.haar_unitary(h['n']), tn.haar_unitary(h['n'])
            unitary('haar', u, h['n'], where)
            if np.allclose(u, w):
                raise Bad('haar:same', where)
        watch.check(where)
        n += 1
    return n

def run(ctx):
    rows = ctx.tlc('Helpers', dict(ctx.seeds(300, 5000), Depth=17), invariants=['Facts', 'EmitAtEnd'], timeout=1500)
    ctx.replay(replay, rows, kind='requests', limit=60)
