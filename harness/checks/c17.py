"""Linear response: answers to generated sequences of requests."""
import numpy as np
from lib import Bad
from chain import *
from checks.c16 import tangents, velocity

def apply_terms(ts, V, d, L):
    """sum of two-site terms on dense vectors (columns)"""
    out = np.zeros_like(V, dtype=complex)
    n = V.shape[1]
    for k, t in enumerate(ts):
        out += np.einsum('st,atbn->asbn', t, V.reshape(d**k, d*d, d**(L-2-k), n)).reshape(V.shape)
    return out

def second(As, bi, i, bj, j):
    """dense chain with two tensors replaced"""
    return dense([bi if m == i else bj if m == j else A for m, A in enumerate(As)])

class Point:
    """What the answers have to be at the state m is in."""
    def __init__(self, m, ts, d, L, psi, where):
        self.m, self.ts, self.d, self.L, self.where = m, ts, d, L, where
        As = m.data
        v = dense(As)
        if psi is not None:
            same_ray('state', v, psi, where)
        l, r = m.get_envs()
        self.l, self.r = l, r
        self.basis = []          # per site: (tensors, dense vectors), in the order of the blocks
        dims = m.tangent_space_dims()
        for n, A in enumerate(As):
            vL = m.left_null_projector(n, l, get_vL=True)[1]
            g, e = dims[n]
            if vL.shape != (d, A.shape[1], g) or e != A.shape[2]:
                raise Bad('dims', '%s: site %d: null space %s, tensor %s, dims %s' % (where, n, vL.shape, A.shape, dims[n]))
            # the null space itself: orthonormal, complete, orthogonal to the tensor
            if g:
                close('vL:orthonormal', np.einsum('sab,sac->bc', vL.conj(), vL), np.eye(g), where)
            M = np.einsum('sab,ac,scd->bd', vL.conj(), root(l(n-1)).conj().T, A)
            close('vL:orthogonal', M, 0*M, where)
            if g != d*A.shape[1] - A.shape[2]:
                raise Bad('vL:complete', '%s: site %d has %d null vectors' % (where, n, g))
            il, ir = np.linalg.inv(root(l(n-1)).conj().T), np.linalg.inv(root(r(n)))
            ten, vec = [], []
            for a in range(g):
                for b in range(e):
                    x = np.zeros((g, e)); x[a, b] = 1
                    B = il@vL@x@ir
                    ten.append(B)
                    vec.append(dense([B if k == n else C for k, C in enumerate(As)]))
            self.basis.append((ten, np.array(vec).reshape(len(ten), d**L)))
        self.psi = v
        self.hpsi = apply_terms(ts, v[:, None], d, L)[:, 0]
        T = np.concatenate([x[1] for x in self.basis])
        close('basis:orthonormal', T.conj()@T.T, np.eye(len(T)), where, tol=1e-6)
        self.T = T
    def F1(self, i, j):
        ti, tj = self.basis[i][1], self.basis[j][1]
        return ti.conj()@apply_terms(self.ts, tj.T.astype(complex), self.d, self.L)
    def two(self, i, j):
        """d_i d_j psi for all pairs of basis vectors"""
        if i == j:
            return np.zeros((len(self.basis[i][0]), len(self.basis[j][0]), len(self.psi)))
        return np.array([[second(self.m.data, a, i, b, j) for b in self.basis[j][0]] for a in self.basis[i][0]]
                        ).reshape(len(self.basis[i][0]), len(self.basis[j][0]), len(self.psi))
    def F2(self, i, j):
        return self.two(i, j).conj()@self.hpsi
    def velocity(self):
        """projection of -i H psi, and its parts site by site"""
        x = -1j*(self.T.conj()@self.hpsi)
        out, k = [], 0
        for ten, vec in self.basis:
            out.append((sum([c*t for c, t in zip(x[k:k+len(ten)], ten)], 0), x[k:k+len(ten)]@vec if len(ten) else 0*self.psi))
            k += len(ten)
        return out
    def gamma(self, i, j, k, v):
        return -self.two(i, j).conj()@v

def root(e):
    return np.linalg.cholesky(e)

def flat(G, n, m, where, key):
    G = np.asarray(G)
    if G.ndim != 4 or G.shape[0]*G.shape[1] != n or G.shape[2]*G.shape[3] != m:
        raise Bad(key + ':shape', '%s: %s for %d x %d' % (where, G.shape, n, m))
    return G.reshape(n, m)

def opened(pt, F, i, j, H, kw, want, ket, case, where, key):
    """the block with the legs of the tensors open, closed here"""
    m = pt.m
    if kw or case['seed'] % 3 or max(A.size for A in m.data) > 20:
        return
    G = np.asarray(F(i, j, H, testing=True))
    if G.shape != m.data[i].shape + m.data[j].shape:
        raise Bad(key + ':shape', '%s: %s for sites %d, %d of %s' % (where, G.shape, i, j, m.structure()))
    bi = [(pt.l(i-1)@x@pt.r(i)).conj() for x in pt.basis[i][0]]
    bj = [pt.l(j-1)@x@pt.r(j) for x in pt.basis[j][0]]
    bj = bj if ket else [x.conj() for x in bj]
    if bi and bj:
        close(key, np.einsum('abcdef,xabc,ydef->xy', G, np.array(bi), np.array(bj)), want, where, tol=1e-5)

def jacobian(pt, ts, H, where):
    """the matrices of the linearised flow against the basis at pt"""
    N = len(pt.T)
    if N == 0:
        return 0
    J1, J2, G = pt.m.jac(H, real_matrix=False)
    T = pt.T
    HT = apply_terms(ts, T.T.astype(complex), pt.d, pt.L)
    close('jac:J1', J1, -1j*(T.conj()@HT), where, tol=1e-6)
    want2, want3, off = np.zeros((N, N), complex), np.zeros((N, N), complex), [0]
    for b in pt.basis:
        off.append(off[-1] + len(b[0]))
    vel = pt.velocity()
    for i in range(pt.L):
        for j in range(pt.L):
            sl = (slice(off[i], off[i+1]), slice(off[j], off[j+1]))
            want2[sl] = -1j*pt.F2(i, j)
            want3[sl] = pt.gamma(i, j, None, sum(x[1] for x in vel))
    close('jac:J2', J2, want2, where, tol=1e-6)
    close('jac:Gamma', G, want3, where, tol=1e-5)
    J = pt.m.jac(H)
    J1, J2 = -1j*(T.conj()@HT), want2 + want3
    x = np.random.randn(N) + 1j*np.random.randn(N)
    y = J1@x + J2@x.conj()
    got = np.asarray(J)@np.concatenate([x.real, x.imag])
    close('jac:real', got, np.concatenate([y.real, y.imag]), where, tol=1e-5)
    O = np.block([[np.zeros((N, N)), np.eye(N)], [-np.eye(N), np.zeros((N, N))]])
    close('jac:hamiltonian', O@J, (O@J).T, where, tol=1e-6)
    close('ddA', pt.m.ddA_dt(x, H), y, where, tol=1e-5)
    return 6

def replay_requests(case):
    from xmps.fMPS import fMPS
    i0 = case['init']; d, L = i0['d'], i0['L']
    As = tensors(i0['tensors'])
    psi = cx(i0['psi']) if i0['psi'] else None
    vec = dense(As)
    for k in range(1, L):
        s = np.linalg.svd(vec.reshape(d**k, -1)/np.linalg.norm(vec), compute_uv=False)
        if s[As[k].shape[1]-1] < 2e-2:
            return 0
    m = fMPS([np.array(A) for A in As])
    m.left_canonicalise()
    ts = None
    n, done, pt, blocks = 0, [], None, {}
    for h in case['hist']:
        op = h['op']
        done.append(op + (str(tuple(h[x] for x in 'ij')) if 'i' in h else ''))
        where = 'seed %s L=%d (%s)' % (case['seed'], L, ' '.join(done))
        if op in ('lcan', 'rcan', 'terms'):
            if op == 'lcan': m.left_canonicalise()
            elif op == 'rcan': m.right_canonicalise()
            else: ts = [cx(t) for t in h['ts']]
            pt, blocks = None, {}
            continue
        if pt is None:
            pt = Point(m, ts, d, L, psi, where)
        H = [t.reshape([d]*4) for t in ts] if case['seed'] % 2 else [t.copy() for t in ts]
        if op in ('F1', 'F2', 'gamma', 'open'):
            i, j = h['i'], h['j']
            ni, nj = len(pt.basis[i][0]), len(pt.basis[j][0])
            id = None if h['memo'] == 0 else 'memo%s' % h['memo']
            if op == 'F1':
                kw = {}
                if h['full'] and d**L <= 256:
                    kw, H = dict(fullH=True), apply_terms(ts, np.eye(d**L, dtype=complex), d, L)
                want = pt.F1(i, j)
                got = flat(m.F1(i, j, H, id=id, **kw), ni, nj, where, op)
                close('F1', got, want, where, tol=1e-6)
                opened(pt, m.F1, i, j, H, kw, want, True, case, where, 'F1:open')
            elif op == 'F2':
                kw = {}
                if h['full'] and d**L <= 256:
                    kw, H = dict(fullH=True), apply_terms(ts, np.eye(d**L, dtype=complex), d, L)
                want = pt.F2(i, j)
                got = flat(m.F2(i, j, H, id=id, **kw), ni, nj, where, op)
                close('F2', got, want, where, tol=1e-6)
                opened(pt, m.F2, i, j, H, kw, want, False, case, where, 'F2:open')
            elif op == 'gamma':
                k = min(i, j)
                B, v = pt.velocity()[k]
                if np.ndim(B) == 0:
                    B = 0*m.data[k]
                got = flat(m.christoffel(i, j, k, id=id, closed=(None, None, pt.l(k-1)@B@pt.r(k))), ni, nj, where, op)
                close('gamma', got, pt.gamma(i, j, k, v), where, tol=1e-5)
            else:
                if max(m.data[x].size for x in (i, j)) > 20:
                    continue
                k = h['k']
                G = m.christoffel(i, j, k, id=id)
                want = [m.data[x].shape for x in (i, j, k)]
                if G.shape != sum(want, ()):
                    raise Bad('open:shape', '%s: %s for %s' % (where, G.shape, want))
                # close it with basis vectors
                two = pt.two(i, j)
                for a, Ba in enumerate(pt.basis[i][0][:3]):
                    for b, Bb in enumerate(pt.basis[j][0][:3]):
                        for c, (Bc, vc) in enumerate(zip(pt.basis[k][0][:3], pt.basis[k][1][:3])):
                            X = [pt.l(y-1)@x@pt.r(y) for x, y in ((Ba, i), (Bb, j), (Bc, k))]
                            got = np.einsum('abcdefghi,abc,def,ghi->', G, X[0].conj(), X[1].conj(), X[2])
                            close('open', got, -np.vdot(two[a, b], vc), where + ' k=%d' % k, tol=1e-5)
            n += 1
        elif op == 'jac':
            n += jacobian(pt, ts, H, where)
            # the same state with environments that are not diagonal
            mo = fMPS([np.array(A) for A in As])
            if case['seed'] % 3 == 0:
                mo.data[0] = mo.data[0]/np.linalg.norm(vec)
            elif case['seed'] % 3 == 1: mo.left_orthogonalise()
            else: mo.mixed_orthogonalise(case['seed'] % L)
            if mo.structure() == m.structure():
                n += jacobian(Point(mo, ts, d, L, psi, where + ' orthogonal'), ts, H, where + ' orthogonal')
        elif op == 'dA':
            dA = m.dA_dt(H)
            v = velocity(m.data, dA.data, where)
            close('dA', v, sum(x[1] for x in pt.velocity()), where, tol=1e-6)
            n += 1
    return n

def run(ctx):
    q = ctx.quick
    s = ctx.seeds(260, 2500)
    rows = ctx.tlc('Response', dict(s, Depth=9, MaxL=5, MinL=2, MaxD=3, Joined=False), invariants=['Remembered', 'Hessian', 'EmitAtEnd'], timeout=1500)
    ctx.replay(replay_requests, rows, kind='requests', limit=200)
    s = ctx.seeds(24, 200)
    rows = ctx.tlc('Response', dict(s, Depth=12, MaxL=13, MinL=12, MaxD=2, Joined=False), invariants=['Remembered', 'EmitAtEnd'], timeout=1500)
    ctx.replay(replay_requests, rows, kind='long-chains', limit=400)
    # the design with the names of the sites run together, on chains of more than eleven sites, has to fail
    s = ctx.seeds(40)
    ok, out, _ = ctx.tlc('Response', dict(s, Depth=12, MaxL=13, MinL=12, MaxD=2, Joined=True), invariants=['Remembered'], expect_error=True, timeout=600)
    ctx.notes['joined_names_refuted'] = (not ok) and 'Remembered is violated' in out
    if not ctx.notes['joined_names_refuted']:
        raise RuntimeError('the model does not see names of sites run together:\n' + out[-2000:])
