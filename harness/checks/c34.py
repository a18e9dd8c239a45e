import numpy as np
from lib import Bad
from chain import cx, close

def same_matrix(key, got, want, where, tol=1e-7):
    """equal up to a number"""
    g, w = np.ravel(got), np.ravel(want)
    if not np.all(np.isfinite(g)) or not np.linalg.norm(g) > 1e-12:
        raise Bad(key, '%s: %s' % (where, g))
    g, w = g/np.linalg.norm(g), w/np.linalg.norm(w)
    r = np.linalg.norm(g - w*np.vdot(w, g))
    if not r <= tol:
        raise Bad(key, '%s: off the exact ray by %.3g' % (where, r))

def positive(key, m, where):
    # the fixed point of a map that keeps matrices positive is positive
    m = np.asarray(m)
    close(key, m, m.conj().T, where, tol=1e-6*np.linalg.norm(m))
    if np.min(np.linalg.eigvalsh((m+m.conj().T)/2)) < -1e-6*np.linalg.norm(m):
        raise Bad(key, where)

def replay(case):
    from xmps.iMPS import iMPS, ivMPS, Map, TransferMatrix
    from xmps.fMPS import fMPS
    A, B, x, y = (cx(case['ini'][k]) for k in 'ABxy')
    done, n = [], 0
    for h in case['hist']:
        op = h['op']
        done.append(op)
        where = 'seed %s d=%d D=%d: %s' % (case['seed'], A.shape[0], A.shape[1], ' '.join(done))
        D = A.shape[1]
        E = Map(A, B)
        own = TransferMatrix(A)
        kept = A.copy(), B.copy()
        if op == 'push':
            z = cx(h['v'])
            close('push:mv', np.reshape(E.mv(x.reshape(-1)), (D, D)), z, where, tol=1e-11)
            close('push:operator', np.reshape(E.aslinearoperator()@x.reshape(-1), (D, D)), z, where, tol=1e-11)
            if np.array_equal(A, B):
                close('push:own', np.reshape(own.mv(x.reshape(-1)), (D, D)), z, where, tol=1e-11)
            x = z
        elif op == 'pull':
            z = cx(h['v'])
            close('pull:mvr', np.reshape(E.mvr(y.reshape(-1)), (D, D)), z, where, tol=1e-11)
            close('pull:operator', np.reshape(E.aslinearoperator().H@y.reshape(-1), (D, D)), z, where, tol=1e-11)
            if np.array_equal(A, B):
                close('pull:own', np.reshape(own.mvr(y.reshape(-1)), (D, D)), z, where, tol=1e-11)
            y = z
        elif op == 'matrix':
            close('matrix', E.asmatrix(), cx(h['m']), where, tol=1e-11)
            close('matrix:own', own.asmatrix(), cx(h['own']), where, tol=1e-11)
            close('matrix:state', iMPS([A.copy()]).transfer_matrix().asmatrix(), cx(h['own']), where, tol=1e-11)
            # the same with weights on the bond to the right: legs (row, column) of the ket, then of the bra
            W = np.diag(np.arange(1, D+1)[::-1]/D)
            v = ivMPS([(A.copy(), W.copy())])
            close('matrix:weights', np.asarray(v.transfer_matrix()).transpose(0, 2, 1, 3).reshape(D*D, D*D), cx(h['own'])@np.kron(W, W), where, tol=1e-11)
            close('matrix:weights:joined', v.to_iMPS().transfer_matrix().asmatrix(), cx(h['own'])@np.kron(W, W), where, tol=1e-11)
        elif op == 'swap':
            A, B, x, y = B, A, cx(h['x']), cx(h['y'])
            continue
        elif op in ('gaugeA', 'gaugeB', 'both', 'scaleB', 'merge'):
            A, B = cx(h['A']) if 'A' in h else A, cx(h['B']) if 'B' in h else B
            if 'x' in h:
                x, y = cx(h['x']), cx(h['y'])
            continue
        elif op == 'new':
            x, y = cx(h['x']), cx(h['y'])
            continue
        elif op == 'fixed':
            M = sum(np.kron(a, b.conj()) for a, b in zip(A, B))
            w, V = np.linalg.eig(M)
            order = np.argsort(-np.abs(w))
            gap = len(w) == 1 or abs(w[order[1]]) < 0.9*abs(w[order[0]])
            if not gap or abs(w[order[0]]) < 1e-6 or np.linalg.cond(V) > 1e6:
                continue
            top = w[order[0]]
            if h['has']:
                close('fixed:model', top, complex(*h['ev']), where, tol=1e-8)
            sc = abs(top)
            R = cx(h['R']) if h['has'] else V[:, order[0]].reshape(D, D)
            wl, Vl = np.linalg.eig(M.conj().T)
            L = cx(h['L']) if h['has'] else Vl[:, np.argmax(np.abs(wl))].reshape(D, D)
            start = np.random.RandomState(case['seed']).randn(D, D) + 1j
            for r0 in (None, start):
                for rot in (True, False):
                    eta, r = E.right_fixed_point(r0, rotate=rot)
                    close('fixed:right-value', np.squeeze(eta)/sc, top/sc, where, tol=1e-7)
                    same_matrix('fixed:right', r, R, where)
                    if rot and not abs(np.imag(np.asarray(r)[0, 0])) <= 1e-7*np.linalg.norm(r):
                        raise Bad('fixed:phase', where)
                    if rot and np.array_equal(A, B):
                        positive('fixed:right-positive', r, where)
                eta, l = E.left_fixed_point(r0)
                close('fixed:left-value', np.squeeze(eta)/sc, np.conj(top)/sc, where, tol=1e-7)
                same_matrix('fixed:left', l, L, where)
                close('fixed:left-norm', np.linalg.norm(l), 1, where)
                if np.array_equal(A, B):
                    positive('fixed:left-positive', l, where)
            if np.array_equal(A, B):
                eta, l, r = own.eigs()
                positive('eigs:left-positive', l, where)
                positive('eigs:right-positive', r, where)
                close('eigs:value', np.squeeze(eta)/sc, top/sc, where, tol=1e-7)
                same_matrix('eigs:left', l, L, where)
                same_matrix('eigs:right', r, R, where)
                close('eigs:pairing', np.trace(l@r), 1, where)
        elif op == 'ask':
            r, l, lam = cx(h['r']), cx(h['l']), complex(*h['lam'])
            if bool(E.is_right_eigenvector(r, 1/lam)) != h['right']:
                raise Bad('ask:right', '%s: says %s' % (where, not h['right']))
            if bool(E.is_left_eigenvector(l, 1/lam.conjugate())) != h['left']:
                raise Bad('ask:left', '%s: says %s' % (where, not h['left']))
            e = Map(A/np.sqrt(complex(lam)), B/np.conj(np.sqrt(complex(lam))))
            if bool(e.is_right_eigenvector(r)) != h['right'] or bool(e.is_left_eigenvector(l)) != h['left']:
                raise Bad('ask:default', where)
        elif op == 'items':
            z = complex(*h['z'])
            f, g = fMPS([A.copy(), B.copy()]), fMPS([B.copy(), A.copy()])
            close('items:chain', [(f+g).data, (f-g).data, (f*z).data, (z*f).data, (f/2).data],
                  [[cx(h['plus'])]*2, [cx(h['minus']), -cx(h['minus'])], [cx(h['times']), z*B], [cx(h['times']), z*B], [A/2, B/2]], where)
            close('items:chain:call', [f(1), f(2), f[0], f[1]], [A, B, A, B], where, tol=0)
            close('items:chain:operand', [f.data, g.data], [[A, B], [B, A]], where, tol=0)
            a, b = iMPS([A.copy(), B.copy()]), iMPS([B.copy(), A.copy()])
            got = a + b
            close('items:add', got.data, [cx(h['plus'])]*2, where)
            got = a - b
            close('items:sub', got.data, [cx(h['minus']), -cx(h['minus'])], where)
            close('items:mul', (a*z).data[0], cx(h['times']), where)
            close('items:rmul', (z*a).data[0], cx(h['times']), where)
            for s in (np.complex128(z), np.array(z)): # numpy's own scalars, from either side
                close('items:numpy', [(s*a).data, (a*s).data, (s*f).data, (f*s).data], [[cx(h['times']), z*B]]*4, where)
                if not (isinstance(s*a, iMPS) and isinstance(s*f, fMPS)):
                    raise Bad('items:numpy:kind', where)
            for s in (np.int64(2), np.float32(2)):
                close('items:numpy', [(s*a).data, (s*f).data, (f/s).data, (a/s).data], [[2*A, 2*B]]*2 + [[A/2, B/2]]*2, where)
            if z:
                close('items:div', (a/(1/z)).data[0], cx(h['times']), where)
            close('items:operand', [a.data, b.data], [[A, B], [B, A]], where, tol=0)
            v = a.serialize()
            close('items:vector', iMPS().deserialize(v, A.shape[0], D, 2).data, a.data, where, tol=0)
            if len(a) != 2 or a.period != 2 or a.d != A.shape[0] or a.D != D or a.shape != A.shape:
                raise Bad('items:size', where)
            for k in (1, 2):
                close('items:call', a(k), a[k-1], where, tol=0)
        elif op == 'carry':
            f = fMPS([cx(t) for t in h['w']])
            keep = [t.copy() for t in f.data]
            m, m2 = cx(h['m']), cx(h['m2'])
            for i, j in ((1, 3), (2, 3), (3, 3)):
                F = f.left_transfer(m, i, j)
                close('carry:left', [F(k) for k in range(i, j+1)], [cx(z) for z in h['lefts'][i-1:]], where + ' %d..%d' % (i, j), tol=1e-11)
                close('carry:left:one', f.left_transfer(m, i, j, ret_all=False), cx(h['lefts'][i-1]), where + ' %d..%d' % (i, j), tol=1e-11)
            rights = [cx(z) for z in h['rights']]
            F = fMPS(f.data + [f.data[0]]).right_transfer(m, 0, 3)
            close('carry:right', [F(1), F(2), F(3)], rights, where, tol=1e-11)
            close('carry:right:one', f.right_transfer(m, 0, 2, ret_all=False), rights[1], where, tol=1e-11)
            close('carry:right:one', f.right_transfer(m, 0, 1, ret_all=False), m, where, tol=1e-11)
            G = f.right_transfer(np.array([m, m2]), 0, 2) # further legs stay in front
            close('carry:right:many', G(2), [rights[1], cx(h['right2'])], where, tol=1e-11)
            close('carry:operand', f.data, keep, where, tol=0)
        elif op == 'equal':
            O = cx(h['other'])
            for cls in (iMPS, fMPS):
                a, o = cls([A.copy()]), cls([O])
                for p, q, want in ((a, o, h['same']), (o, a, h['same']), (a, a.copy(), True),
                                   (a, cls([A, A]), False), (cls([A, A]), a, False),
                                   (cls([A, A]), cls([A, O]), h['same']), (cls([A, A]), cls([O, A]), h['same']),
                                   (a, cls([np.pad(A, ((0, 0), (0, 1), (0, 1)))]), False)):
                    if bool(p == q) != want or bool(p != q) == want:
                        raise Bad('equal', '%s: %s %d and %d tensors, expected %s' % (where, cls.__name__, len(p), len(q), want))
        if not (np.array_equal(A, kept[0]) and np.array_equal(B, kept[1])):
            raise Bad('operand', where)
        n += 1
    return n

def run(ctx):
    rows = ctx.tlc('Transfer', dict(ctx.seeds(400, 6000), Depth=8), invariants=['Adjoint', 'Represented', 'Fixed', 'EmitAtEnd'], timeout=1500)
    ctx.replay(replay, rows, kind='maps', limit=60)
