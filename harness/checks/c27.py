import numpy as np
from lib import Bad
from chain import *

def velocity(As, dA, where):
    if [np.shape(b) for b in dA] != [np.shape(a) for a in As]:
        raise Bad('dA:shapes', '%s: %s against %s' % (where, [np.shape(b) for b in dA], [np.shape(a) for a in As]))
    return sum(dense([dA[n] if m == n else A for m, A in enumerate(As)]) for n in range(len(As)))

def project(psi, L, d, v, ranks):
    """v without what no tangent vector of the single chain's double can carry: projection on the tangent
    space of the doubled chain at this vector, from the vector's own Schmidt spaces"""
    q = d*d
    P = []
    for k in range(L+1):
        m = psi.reshape(q**k, -1)
        u, s, w = np.linalg.svd(m, full_matrices=False)
        r = int(np.sum(s > 1e-8*s[0]))
        P.append((u[:, :r], w[:r]))
    def left(k, x):
        u = P[k][0]
        x = x.reshape(q**k, -1)
        return (u@(u.conj().T@x)).reshape(-1)
    def right(k, x):
        w = P[k][1]
        x = x.reshape(q**k, -1)
        return ((x@w.conj().T)@w).reshape(-1)
    out = 0
    for k in range(L):
        out = out + left(k, right(k+1, v))
        if k < L-1:
            out = out - left(k+1, right(k+1, v))
    return out

def replay(case, which='xmps.fMPS'):
    import importlib
    from xmps.fMPS import fMPS
    fTFD = importlib.import_module(which).fTFD
    old = which != 'xmps.fMPS'
    d, L, i = case['d'], case['L'], case['init']
    q = d*d
    m = fTFD().from_fMPS(fMPS(tensors(i['tensors']))) if i['pure'] else fTFD(tensors(i['tensors']))
    amp, done, n = cx(i['amp']), [], 0
    close('double', dense(m.data), amp, 'seed %s %s' % (case['seed'], which))
    if (m.d, m.L) != (q, L):
        raise Bad('double:sizes', 'seed %s: d=%s L=%s' % (case['seed'], m.d, m.L))
    fresh = True  # the tensors carry this very vector, not only its ray
    for h in case['hist']:
        op = h['op']; done.append(op)
        where = 'seed %s %s (%s)' % (case['seed'], which, ' '.join(done))
        square = all(int(np.sqrt(b))**2 == b for b in bonds(m.data))
        if op == 'swap':
            if not square:
                return n
            kept = [x.copy() for x in m.data]
            w = m.symmetry()
            for a, b in zip(kept, m.data):
                close('swap:argument', b, a, where)
            back = w.symmetry()
            if not isinstance(w, fTFD) or not back == m:
                raise Bad('swap:involution', where)
            m = w
            amp = cx(h['amp'])
            (close if fresh else same_ray)('swap', dense(m.data), amp, where)
        elif op == 'act':
            m = m.apply((cx(h['O']), h['k']))
            amp = cx(h['amp'])
            (close if fresh else same_ray)('act', dense(m.data), amp, where)
        elif op == 'load':
            m = m.from_fMPS(fMPS(tensors(h['tensors'])))
            amp, fresh = cx(h['amp']), True
            close('load', dense(m.data), amp, where)
        elif op in ('lcan', 'rcan', 'mixed'):
            m = {'lcan': m.left_canonicalise, 'rcan': m.right_canonicalise, 'mixed': lambda: m.mixed_canonicalise(h['k'])}[op]()
            fresh = False
            same_ray(op, dense(m.data), amp, where)
        elif op == 'copy':
            c = m.copy()
            if not isinstance(c, fTFD):
                raise Bad('copy:kind', '%s: a copy of a double is a %s' % (where, type(c).__name__))
            if not c == m:
                raise Bad('copy', where)
            c[0] = 0*c[0]
            (close if fresh else same_ray)('copy:shared', dense(m.data), amp, where)
            m = m.copy()
        elif op == 'symm' and not old:
            if not square:
                return n
            s = m.symmetrise()
            v = dense(s.data)
            w = v.reshape([d, d]*L).transpose([x for j in range(L) for x in (2*j+1, 2*j)]).reshape(-1)
            close('symm:even', w, v, where)
            if m == m.symmetry():
                close('symm:fixed', v, 2**L*dense(m.data), where)
        elif op == 'look':
            ops = [cx(o) for o in h['ops']]
            e = np.array(h['e'])/h['n']
            for lr in (0, 1)[:1 if old else 2]:
                kw = {} if old else {'lr': lr}
                close('look:Es%d' % lr, m.Es(ops, h['k'], **kw), e[:, lr], where)
                close('look:E%d' % lr, np.array([m.E(o, h['k'], **kw) for o in ops]), e[:, lr], where)
                n += 2
            fresh = False
            same_ray('look', dense(m.data), amp, where)
            if not old:
                for b in set(bonds(m.data)):
                    D = int(round(np.sqrt(b)))
                    if D*D != b:
                        continue
                    even, odd, M = m.symm_asymm(b)
                    for key, g, w in (('sum', even+odd, np.eye(b)), ('difference', even-odd, M), ('even', even@even, even),
                                      ('odd', odd@odd, odd), ('even-size', np.trace(even), D*(D+1)//2), ('odd-size', np.trace(odd), D*(D-1)//2)):
                        close('parts:' + key, g, w, where)
                n += 1
            if not old:
                # of a right canonical double: what replaces a tensor is orthogonal to it, and is all that is
                r = m.right_canonicalise().left_canonicalise()
                l = [np.eye(1)]
                for A in r.data:
                    l.append(sum(x.conj().T@l[-1]@x for x in A))
                k = h['k']
                A = r.data[k]
                x = dense(r.data).reshape(q**k if k else 1, -1)
                if min([np.linalg.eigvalsh(w)[0]/np.linalg.eigvalsh(w)[-1] for w in l]) > 1e-6:
                    pr = r.left_null_projector(k)
                    Dl, Dr = A.shape[1:]
                    w, S = np.linalg.eigh(l[k])
                    S = S@np.diag(np.sqrt(w))@S.conj().T
                    # in the metric of the left environment: an orthogonal projector that annihilates the tensor
                    P = np.einsum('ab,ibjc,cd->iajd', S, pr, S).reshape(q*Dl, q*Dl)
                    V = np.einsum('ab,ibc->iac', S, A).reshape(q*Dl, Dr)
                    close('null:projector', P@P, P, where, tol=1e-6)
                    close('null:tensor', P@V, 0*V, where, tol=1e-6)
                    close('null:size', np.trace(P), q*Dl - np.linalg.matrix_rank(V), where, tol=1e-6)
                    n += 1
        elif op == 'against':
            other = fTFD().from_fMPS(fMPS(tensors(h['tensors'])))
            want = cx([h['ov']])[0]
            if fresh:
                close('overlap', m.overlap(other), want, where)
            else:
                close('overlap', abs(m.overlap(other))*np.linalg.norm(amp)/np.linalg.norm(dense(m.data)), abs(want), where)
            # a sum of two doubles; tensors combined one by one
            mine, theirs = dense(m.data), dense(other.data)
            both = m.add(other)
            close('add', dense(both.data), mine+theirs, where, tol=1e-9*max(1., np.abs(mine).max(), np.abs(theirs).max()))
            t, u = 0.5-1.25j, [x.copy() for x in m.data]
            for key, g, w in (('times', m*t, t**L*mine), ('times-left', t*m, t**L*mine), ('divided', m/t, mine/t**L)):
                close('itemwise:' + key, dense(g.data), w, where, tol=1e-9*max(1., np.abs(w).max()))
                if not isinstance(g, fTFD) or g.d != q:
                    raise Bad('itemwise:kind', where + ' ' + key)
            one = (m*t)-m, m+(t*m)
            for key, g, f in (('minus', one[0], t-1), ('plus', one[1], 1+t)):
                close('itemwise:' + key, dense(g.data), f**L*mine, where, tol=1e-9*max(1., abs(f)**L*np.abs(mine).max()))
            for a, b in zip(m.data, u):
                close('itemwise:operand', a, b, where)
            n += 1
        elif op == 'local' and not old:
            from functools import reduce
            prod = fMPS([cx(w).reshape(d, 1, 1) for w in h['ws']])
            den = h['n']*np.prod(np.array(h['ns'], dtype=float))
            close('local', m.local_overlap(prod, h['ks']), np.array(h['single']/den), where)
            close('local:double', m.local_overlap(prod, h['ks'], double=True), np.array(h['pair']/den/np.prod(np.array(h['ns'], dtype=float))), where)
            close('local:mean', np.array(m.approx_overlap(prod, [h['ks'], h['ks']])), np.array(h['single']/den), where)
            n += 3
            fresh = False
        elif op == 'velocity':
            # the doubled operator on the doubled vector: once on each copy
            ts = [cx(t) for t in h['ts']]
            if not old:
                full = sum(np.kron(np.kron(np.eye(d**k), t), np.eye(d**(L-k-2))) for k, t in enumerate(ts))
                close('double:full', m.double(full)@amp, cx(h['hh']), where, tol=1e-9*max(1., np.abs(cx(h['hh'])).max()))
                n += 1
            # where every bond of the single chain is fully used the environments can be inverted
            psi = cx(h['psi'])
            cond = [np.linalg.svd(psi.reshape(d**k, -1)/np.linalg.norm(psi), compute_uv=False) for k in range(1, L)]
            ok = all(int(np.sum(s > 1e-8)) == int(round(np.sqrt(b))) and min(s[s > 1e-8]) > 0.05 for s, b in zip(cond, bonds(m.data)[1:-1]))
            if not ok:
                continue
            m = m.left_canonicalise() if h['e'] % 2 else m.right_canonicalise()
            fresh = False
            if any(b != x for b, x in zip(bonds(m.data)[1:-1], [int(np.sum(s > 1e-8))**2 for s in cond])):
                continue
            ts = [cx(t) for t in h['ts']]
            want = -1j*cx(h['G'])/h['n']/np.linalg.norm(amp)
            now = dense(m.data)
            phase = np.vdot(amp, now); phase /= abs(phase)
            want = project(now, L, d, want*phase, None)
            if L == 2 or True:
                full = sum(np.kron(np.kron(np.eye(d**k), t), np.eye(d**(L-k-2))) for k, t in enumerate(ts))
            for kind in ('list', 'full'):
                dA = m.dA_dt(ts) if kind == 'list' else m.dA_dt(full, fullH=True)
                v = velocity(m.data, dA.data, where)
                close('velocity:' + kind, v, want, where, tol=1e-6*max(1., np.abs(want).max()))
                n += 1
    return n

def replay_old(case):
    return replay(case, 'xmps.projects.fTFD')

def run(ctx):
    rows = ctx.tlc('Double', dict(ctx.seeds(500, 6000), Depth=7), invariants=['Copies', 'TensorsToo', 'Involution', 'Single', 'Squares', 'PairLocal', 'Perp', 'EmitAtEnd'], timeout=1500)
    ctx.replay(replay, rows, kind='double', limit=120)
    ctx.replay(replay_old, rows[:len(rows)//3], kind='double-project', limit=120)
