"""Replays Words.tla: long chains whose states are a few words."""
import numpy as np
from lib import Bad
from chain import *

def vector(ts, d, L):
    v = np.zeros(d**L, dtype=complex)
    for t in ts:
        n = 0
        for x in t['w']:
            n = n*d + x
        v[n] += complex(*t['a'])
    return v

def chain(ts, d, L, turn=0):
    """one bond state per word, in another order on every bond; the amplitude sits on one of the sites"""
    K, at = len(ts), turn % L
    out = []
    for k in range(L):
        A = np.zeros((d, K, K), dtype=complex)
        for x, t in enumerate(ts):
            A[t['w'][k], (x + turn*k) % K, (x + turn*(k+1)) % K] = complex(*t['a']) if k == at else 1
        out.append(A)
    out[0] = out[0].sum(1, keepdims=True)
    out[-1] = out[-1].sum(2, keepdims=True)
    return out

def spectrum(v, d, L):
    v = v/np.linalg.norm(v)
    return [np.linalg.svd(v.reshape(d**k, -1), compute_uv=False) if 0 < k < L else np.ones(1) for k in range(L+1)]

def replay_words(case, focus):
    from xmps.fMPS import fMPS
    i = case['ini']; d, L, s = i['d'], i['L'], case['seed']
    m = fMPS(chain(i['ts'], d, L, s % 7))
    psi = vector(i['ts'], d, L)
    phi = vector(i['us'], d, L)
    def other(): return fMPS(chain(i['us'], d, L, s % 5))
    close('init', dense(m.data), psi, 'initial tensors', tol=1e-12)
    n, c, done = 0, 1., []
    for h in case['hist']:
        op = h['op']; done.append(op)
        where = 'seed %s L=%d d=%d (%s)' % (s, L, d, ' '.join(done))
        form = None
        if op == 'lcan': m = m.left_canonicalise(); form = left_iso
        elif op == 'rcan': m = m.right_canonicalise(); form = right_iso
        elif op == 'mcan': m = m.mixed_canonicalise(h['k']); form = 1
        elif op == 'lorth': m = m.left_orthogonalise(); form = left_iso
        elif op == 'rorth': m = m.right_orthogonalise(); form = right_iso
        elif op == 'morth': m = m.mixed_orthogonalise(h['k']); form = 1
        elif op == 'copy': m = m.copy()
        elif op == 'pack':
            shapes = [A.shape for A in m.data]
            m2 = fMPS().deserialize(m.serialize(real=bool(s % 2)), structure=shapes, real=bool(s % 2))
            if 'pack' in focus:
                if any(not np.array_equal(a, b) for a, b in zip(m.data, m2.data)) or len(m2.data) != L:
                    raise Bad('words:pack', where)
                n += 1
            m = m2
        elif op == 'apply': m = m.apply((cx(h['M']), h['k']))
        elif op == 'gate':
            U = cx(h['M']); U = U/np.linalg.norm(U, 2)
            m = m.apply_two_site((U, (h['i'], h['j'])), which=h['which'])
        elif op == 'add':
            y = other().mul(c)
            m = m.add(y) if s % 2 else y.add(m)
        elif op == 'mul': m = m.mul(complex(*h['z']))
        else: raise ValueError(op)
        if m is None:
            raise Bad('words:%s:returns-none' % op, where)
        psi = vector(h['psi'], d, L)
        v = dense(m.data)
        loud = {'form': form is not None, 'sum': op in ('add', 'mul', 'apply'), 'gate': op == 'gate'}
        if any(loud[f] for f in loud if f in focus):
            same_ray('words:%s:ray' % op, v, psi, where)
            n += 1
        if 'form' in focus and form is not None:
            close('words:%s:norm' % op, np.linalg.norm(v), 1., where)
            for k, A in enumerate(m.data):
                f = form if form != 1 else left_iso if k < h['k'] else right_iso if k > h['k'] else None
                if f and not f(A) <= TOL:
                    raise Bad('words:%s:isometry' % op, '%s: site %d' % (where, k))
            n += 2
        if 'sum' in focus and op in ('add', 'mul', 'apply', 'copy'):
            close('words:%s:vector' % op, v, c*psi, where, tol=1e-8)
            n += 1
        if 'gate' in focus and op == 'gate':
            iso = left_iso(m.data[h['i']]) if h['which'] == 'l' else right_iso(m.data[h['j']])
            if not iso <= TOL:
                raise Bad('words:gate:isometry', '%s sites %d,%d %s' % (where, h['i'], h['j'], h['which']))
            n += 1
        c = np.vdot(psi, v)/np.vdot(psi, psi)
    a = case['ans']
    where = 'seed %s L=%d d=%d (%s)' % (s, L, d, ' '.join(done))
    den = a['den']
    if 'value' in focus:
        O = cx(a['O'])
        for k in (range(L) if s % 2 else reversed(range(L))):
            close('words:E', np.real(m.E(O, k)), a['ones'][k]/den, where + ' site %d' % k)
        close('words:Es', np.real(np.asarray(m.Es([O, np.eye(d)], L-1))).reshape(-1), np.array([a['ones'][L-1]/den, 1.]), where)
        n += L+1
    if 'block' in focus:
        sites = list(range(a['i'], a['i']+a['w']))
        rho = np.asarray(m.rho(sites, single_string=False))
        close('words:rho', rho, cx(a['rho'])/den, where + ' sites %s' % sites)
        two = sites[:2]
        close('words:Ek', np.asarray(m.E_k(cx(a['B']), two)).reshape(-1), np.array([complex(*a['block'])/den]), where + ' sites %s' % two)
        n += 2
    if 'overlap' in focus:
        y = other()
        z = complex(*a['dot'])                                   # <psi|phi>
        close('words:full_overlap', complex(np.squeeze(m.copy().full_overlap(y))), complex(np.conj(c)*z), where, tol=1e-8)
        close('words:overlap', complex(np.squeeze(m.copy().overlap(y))), complex(c*np.conj(z)), where, tol=1e-8)
        close('words:overlap:back', complex(np.squeeze(y.overlap(m.copy()))), complex(np.conj(c)*z), where, tol=1e-8)
        close('words:norm', abs(complex(np.squeeze(m.copy().norm()))), abs(c)**2*den, where, tol=1e-8)
        n += 4
    if 'energy' in focus:
        hs = [cx(t) for t in a['hs']]
        x = m.copy().left_canonicalise() if s % 2 else m.copy().right_canonicalise()
        close('words:energy', x.energy(hs), sum(a['es'])/den, where)
        b = s % (L-1)
        only = [t if k == b else np.zeros_like(t) for k, t in enumerate(hs)]
        close('words:energy:term', x.energy(only), a['es'][b]/den, where + ' bond %d' % b)
        n += 2
    if 'weights' in focus or 'bound' in focus:
        W = spectrum(psi, d, L)
        ranks = [int(np.sum(w > 1e-9)) for w in W]
    if 'weights' in focus:
        x = m.copy().left_canonicalise() if s % 2 else m.copy().right_canonicalise()
        for k in range(L+1):
            Lk = np.asarray(x.Ls[k])
            w = np.sort(np.real(np.diag(Lk)) if Lk.ndim == 2 else np.real(Lk).reshape(-1))[::-1]
            t = np.zeros(max(len(w), len(W[k]))); t[:len(W[k])] = W[k]**2
            g = np.zeros(len(t)); g[:len(w)] = w
            close('words:weights', g, t, '%s cut %d' % (where, k))
            p = W[k][W[k] > 1e-12]**2
            close('words:entropy', np.real(np.asarray(x.entanglement_entropy(k))).reshape(-1), np.array([-np.sum(p*np.log(p))]), '%s cut %d' % (where, k), tol=1e-6)
        n += 2*(L+1)
    if 'bound' in focus:
        D = max(ranks)
        for way in ('left', 'right'):
            x = m.copy()
            x = x.right_canonicalise().left_canonicalise(D) if way == 'left' else x.left_canonicalise().right_canonicalise(D)
            same_ray('words:bound:enough', dense(x.data), psi, where + ' %s D=%d' % (way, D))
            if D > 1:
                E = 1 + s % (D-1)
                x = m.copy()
                x = x.right_canonicalise().left_canonicalise(E) if way == 'left' else x.left_canonicalise().right_canonicalise(E)
                v = dense(x.data)
                if max(bonds(x.data)) > E:
                    raise Bad('words:bound:bond', '%s: bonds %s, bound %d' % (where, bonds(x.data), E))
                close('words:bound:norm', np.linalg.norm(v), 1., where)
                lost = [float(np.sum(w[E:]**2)) for w in W]
                F = abs(np.vdot(psi, v))**2/np.linalg.norm(psi)**2
                if not 1 - sum(lost) - 1e-8 <= F <= 1 - max(lost) + 1e-8:
                    raise Bad('words:bound:weight', '%s: fidelity %.9g, discarded %s' % (where, F, lost))
            n += 4
    if 'vidal' in focus:
        from xmps.fMPS import vfMPS
        from checks.c22 import check_vidal
        grams = [np.array([[[z.real, z.imag] for z in row] for row in np.diag(w**2)]) for w in spectrum(psi, d, L)]
        x = vfMPS().from_fMPS(m.copy())
        check_vidal('words:vidal', x, psi, grams, d, where)
        same_ray('words:vidal:back', dense(x.to_fMPS().data), psi, where, tol=1e-6)
        n += 2
    return n

def words(ctx, n, thorough=None, kinds='AnyCall', MaxLen=12, seed0=0):
    s = ctx.seeds(n, thorough)
    return ctx.tlc('Words', dict(SeedLo=s['SeedLo']+seed0, SeedHi=s['SeedHi']+seed0, MaxLen=MaxLen, Kinds='<- '+kinds),
                   invariants=['Clean', 'Density', 'Apart', 'EmitAtEnd'], properties=['Frame'], timeout=1500)

def replay_form(case): return replay_words(case, {'form'})
def replay_value(case): return replay_words(case, {'value'})
def replay_bound(case): return replay_words(case, {'bound'})
def replay_weights(case): return replay_words(case, {'weights'})
def replay_sum(case): return replay_words(case, {'sum'})
def replay_gate(case): return replay_words(case, {'gate'})
def replay_overlap(case): return replay_words(case, {'overlap'})
def replay_block(case): return replay_words(case, {'block'})
def replay_pack(case): return replay_words(case, {'pack'})
def replay_energy(case): return replay_words(case, {'energy'})
def replay_vidal(case): return replay_words(case, {'vidal'})
