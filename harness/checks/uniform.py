"""Walks real uniform infinite states along the classes of Uniform.tla."""
import copy
import numpy as np
from lib import Bad
from chain import *

KINDS = ['FixedPoints', 'Environments', 'SamePairing', 'SameValues', 'SameEnergy', 'Telescope', 'SelfOverlap', 'EmitAtEnd']

def classes(ctx, n, depth, seed0=0):
    s = ctx.seeds(n)
    s = dict(SeedLo=s['SeedLo']+seed0, SeedHi=s['SeedHi']+seed0)
    return ctx.tlc('Uniform', dict(s, Depth=depth, Kinds='<- KindsAll'), invariants=KINDS, timeout=2400)

def both(fs):
    """tensor product of site tensors"""
    out = fs[0]
    for b in fs[1:]:
        out = np.einsum('sab,tcd->stacbd', out, b).reshape(out.shape[0]*b.shape[0], out.shape[1]*b.shape[1], -1)
    return out

def pair_op(hs, ds):
    """tensor product of two-site operators"""
    out, d = hs[0], ds[0]
    for h, e in zip(hs[1:], ds[1:]):
        a, b = out.reshape([d]*4), h.reshape([e]*4)
        out = np.einsum('abcd,efgh->aebfcgdh', a, b).reshape((d*e)**2, (d*e)**2)
        d *= e
    return out

def frac(x):
    return x[0]/x[1]

class Class:
    """the exact data of one state"""
    def __init__(self, case):
        ini = case['ini']
        self.fs = ini['fs']
        self.ini = ini
        self.ds = [f['d'] for f in self.fs]
        self.A = both([cx(f['A']) for f in self.fs])
        self.N = float(np.prod([f['N'] for f in self.fs]))
        l = kron(*[cx(f['l']) for f in self.fs])
        self.w2 = np.sort(np.linalg.eigvalsh(l/np.trace(l)))[::-1]     # r = 1 in the gauge of the model
        self.d, self.D = self.A.shape[0], self.A.shape[1]
        self.ops = [kron(*[cx(O[q]) for O in ini['O']]) for q in range(3)]
        self.vals = [float(np.prod([frac(E[q]) for E in ini['E1']])) for q in range(3)]
        self.h = pair_op([cx(h) for h in ini['h']], self.ds)
        self.e = float(np.prod([frac(x) for x in ini['E2']]))
        T = np.einsum('sab,scd->acbd', self.A, self.A.conj()).reshape(self.D**2, -1)/self.N
        ev = np.sort(np.abs(np.linalg.eigvals(T)))[::-1]
        self.ratio = ev[1] if len(ev) > 1 else 0.0

    def gauge(self, h):
        S = [np.eye(f['D']) for f in self.fs]
        S[h['f']-1] = cx(h['S'])
        return kron(*S)

def moved(A, S):
    return S @ A @ np.linalg.inv(S)

def values(A, ops):
    """one-site expectation values of a uniform tensor, by dense fixed points"""
    l, r, lam = envs(A)
    return [np.real(np.einsum('ca,sab,ts,tcd,bd->', l, A, O, A.conj(), r, optimize=True)/lam) for O in ops]

def envs(A):
    D = A.shape[1]
    T = np.einsum('sab,scd->acbd', A, A.conj()).reshape(D*D, D*D)
    w, v = np.linalg.eig(T)
    i = np.argmax(np.abs(w))
    r = v[:, i].reshape(D, D)
    w2, v2 = np.linalg.eig(T.T)
    l = v2[:, np.argmax(np.abs(w2))].reshape(D, D).T      # [bra, ket]
    return l/np.trace(l@r), r, w[i]

def value2(A, h):
    l, r, lam = envs(A)
    d = A.shape[0]
    AA = np.einsum('sab,tbc->stac', A, A).reshape(d*d, A.shape[1], -1)
    return np.real(np.einsum('ca,sab,ts,tcd,bd->', l, AA, h, AA.conj(), r, optimize=True)/lam**2)

def check_form(key, m, hand, C, where):
    A, L = m.data[0], m.L
    D = C.D
    off = L - np.diag(np.diag(L))
    if off.size and np.max(np.abs(off)) > 1e-12:
        raise Bad(key+':weights-diagonal', where)
    close(key+':weights', np.diag(L).real**2, C.w2, where, tol=1e-6)
    id, W = np.eye(D), {'l': (np.eye(D), L@L), 'r': (L@L, np.eye(D)), 'm': (L, L)}[hand]
    l, r = W
    close(key+':left', sum(a.conj().T@l@a for a in A), l, where+' '+hand, tol=1e-6)
    close(key+':right', sum(a@r@a.conj().T for a in A), r, where+' '+hand, tol=1e-6)

def replay_forms(case):
    from xmps.iMPS import iMPS
    C = Class(case)
    if C.ratio > 0.97 or C.w2[-1] < 1e-6:
        return 0
    m = iMPS([C.A.copy()])
    old, n, done = [], 0, []
    tol = 1e-6
    for h in case['hist']:
        op = h['op']
        done.append(op + ('-' + h['hand'] if op == 'canon' else ''))
        where = 'seed %s %s D=%d (%s)' % (case['seed'], [f['kind'] for f in C.fs], C.D, ' '.join(done))
        if op == 'gauge':
            m[0] = moved(m[0], C.gauge(h))
            continue
        if op == 'scale':
            m[0] = complex(*h['by'])*m[0]
            continue
        if op == 'canon':
            ways = [lambda: m.canonicalise(h['hand'])] + ([{'l': m.left_canonicalise, 'r': m.right_canonicalise}[h['hand']]] if h['hand'] in 'lr' else [])
            out = ways[(len(done)+int(case['seed'])) % len(ways)]()
            if out is not m or m.canonical != h['hand']:
                raise Bad('canon:says', where)
            check_form('canon', m, h['hand'], C, where)
            close('canon:values', values(m.data[0], C.ops), C.vals, where, tol=tol)
            n += 1
            continue
        keep = np.array(m.data[0])
        form = h['as'] if h['as'] != 'none' else None
        if op == 'vidal':
            v = m.canonicalise(to_vidal=True)
            G, L = v.data[0]
            close('vidal:weights', np.diag(L).real**2, C.w2, where, tol=tol)
            close('vidal:left', sum((L@g).conj().T@(L@g) for g in G), np.eye(C.D), where, tol=tol)
            close('vidal:right', sum((g@L)@(g@L).conj().T for g in G), np.eye(C.D), where, tol=tol)
            close('vidal:E', [v.E(O) for O in C.ops], C.vals, where, tol=tol)
            close('vidal:to_iMPS', [v.to_iMPS().E(O) for O in C.ops], C.vals, where, tol=tol)
            close('vidal:object', values(m.data[0], C.ops), C.vals, where, tol=tol)
            n += 1
            continue
        if op == 'mixed':
            if C.ratio < 0.9:
                AL, AR, Cm = m.mixed()
                AL, AR = AL[0], AR[0]
                close('mixed:left', sum(a.conj().T@a for a in AL), np.eye(C.D), where, tol=tol)
                close('mixed:right', sum(a@a.conj().T for a in AR), np.eye(C.D), where, tol=tol)
                close('mixed:centre', AL@Cm, Cm@AR, where, tol=tol)
                sv = np.linalg.svd(Cm)[1]
                close('mixed:weights', (sv/np.linalg.norm(sv))**2, C.w2, where, tol=tol)
                close('mixed:values', values(AL, C.ops), C.vals, where, tol=tol)
                n += 1
        elif op == 'measure':
            close('E', [m.E(O, form) for O in C.ops], C.vals, where + ' in %s' % form, tol=tol)
            close('Es', m.Es(C.ops, form), C.vals, where + ' in %s' % form, tol=tol)
            close('E:norm', m.E(np.eye(C.d), form), 1, where, tol=tol)
            n += 1
        elif op == 'bare':
            close('E:bare', [m.E(O) for O in C.ops], C.vals, where, tol=tol)
            close('Es:bare', m.Es(C.ops), C.vals, where, tol=tol)
            n += 1
        elif op == 'energy':
            m.energy([C.h])
        elif op == 'overlap':
            S = np.eye(C.D) + 0.3*np.triu(np.ones((C.D, C.D)), 1)
            other = iMPS([moved(C.A, S)*0.4j])
            k2 = np.array(other.data[0])
            close('overlap:self', np.squeeze(m.overlap(other)), 1, where, tol=1e-5)
            if not np.array_equal(other.data[0], k2):
                raise Bad('overlap:operand', where)
            n += 1
        elif op == 'copy':
            old.append((m, keep))
            m = m.copy()
        if not np.array_equal(m.data[0], keep):
            raise Bad('operand:' + op, where + ': the tensor was changed')
        for o, k in old:
            if not np.array_equal(o.data[0], k):
                raise Bad('copy', where + ': the original of a copy was changed')
    return n
