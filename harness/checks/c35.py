"""Asking for random states (Requests.tla)."""
import numpy as np
from lib import Bad
from chain import cx, close, dense, kron

def shapes_of(x, cls):
    if cls == 'ivMPS':
        return [list(np.shape(A)) for A, _ in x.data]
    if cls == 'fPEPS':
        return [list(np.shape(A)) for row in x.data for A in row]
    return [list(np.shape(A)) for A in x.data]

def flat(x, cls):
    if cls == 'ivMPS':
        return np.concatenate([np.ravel(t) for s in x.data for t in s])
    if cls == 'fPEPS':
        return np.concatenate([np.ravel(A) for row in x.data for A in row])
    return np.concatenate([np.ravel(A) for A in x.data])

def ask(x, r):
    c = r['class']
    if c == 'fMPS':
        D = r['D'] or None
        return x.random(r['L'], r['d'], D, real=True) if r['flag'] else x.random(r['L'], r['d'], D)
    if c == 'fTFD':
        return x.random(r['L'], r['d'], r['D'], pure=bool(r['flag']))
    if c in ('iMPS', 'ivMPS'):
        return x.random(r['d'], r['D'], period=r['L'])
    if c == 'fMPO':
        return x.random(r['L'], r['d'], r['D'])
    return x.random(r['L'], r['W'], r['d'], r['D'])

def ranks(psi, d, L, want, where):
    for k, w in enumerate(want, 1):
        s = np.linalg.svd(psi.reshape(d**k, -1), compute_uv=False)
        if not s[w-1] > 1e-9*s[0] or (len(s) > w and not s[w] < 1e-11*s[0]):
            raise Bad('rank', '%s cut %d: expected rank %d, values %s' % (where, k, w, s[:w+1]/s[0]))

def replay(case):
    from xmps.fMPS import fMPS, fTFD
    from xmps.iMPS import iMPS, ivMPS
    from xmps.fPEPS import fMPO, fPEPS
    objs = dict(fMPS=fMPS(), fTFD=fTFD(), iMPS=iMPS(), ivMPS=ivMPS(), fMPO=fMPO(), fPEPS=fPEPS())
    np.random.seed(case['seed'])
    last, n = None, 0
    for step, h in enumerate(case['hist']):
        r = h['req']
        c, L, d = r['class'], r['L'], r['d']
        wh = 'seed %s step %d: %s %s' % (case['seed'], step, h['do'], r)
        if h['do'] == 'ask':
            x = objs[c] = ask(objs[c], r)
            if type(x).__name__ != c:
                raise Bad('class', '%s: %s' % (wh, type(x).__name__))
            got = flat(x, c)
            if c != 'fTFD' or r['flag']:
                if shapes_of(x, c) != [list(t) for t in h['shapes']]:
                    raise Bad('shapes', '%s: %s, expected %s' % (wh, shapes_of(x, c), h['shapes']))
            if not np.isfinite(got).all() or not np.abs(got).max() > 0:
                raise Bad('entries', wh)
            state = np.random.get_state()
            again = flat(ask(type(x)(), r), c)
            np.random.set_state(state)
            if not np.array_equal(flat(ask(type(x)(), r), c), again):
                raise Bad('seed', '%s: the same seed gave another state' % wh)
            if again.shape == got.shape and np.allclose(again, got) and not (c == 'fMPS' and r['flag'] and r['D'] == 1 and L == 1):
                raise Bad('same', '%s: two requests gave the same state' % wh)
            if c == 'iMPS' and getattr(x, 'canonical', None):
                raise Bad('flag', '%s: canonical is %r' % (wh, x.canonical))
            if c == 'fPEPS' and hasattr(x, 'oc'):
                O = np.diag(np.arange(1., d+1)) + np.eye(d, k=1) + np.eye(d, k=-1)
                close('flag:centre', np.ravel(x.iso_E(O)), np.ravel(x.E(O, tuple(x.oc)))/x.norm()**2, wh)
            if c in ('fMPS', 'fTFD'):
                for f in ('canonical', 'orthogonal'):
                    if getattr(x, f):
                        raise Bad('flag', '%s: %s is %r' % (wh, f, getattr(x, f)))
                if x.L != L or len(x) != L or x.d != (d if c == 'fMPS' else d*d):
                    raise Bad('attributes', '%s: L=%s d=%s' % (wh, x.L, x.d))
            if c == 'fMPS':
                if x.D != h['largest']:
                    raise Bad('attributes:D', '%s: %s, expected %s' % (wh, x.D, h['largest']))
                if r['flag'] and np.abs(np.imag(got)).max() > 0:
                    raise Bad('real', wh)
                if not r['flag'] and r['D'] != 1 and not np.abs(np.imag(got)).max() > 0:
                    raise Bad('complex', wh)
                if d == 2 and r['D'] == 1:
                    close('product', np.array([np.linalg.norm(A) for A in x.data]), np.ones(L), wh)
                psi = dense(x.data)
                ranks(psi, d, L, h['ranks'], wh)
                close('structure', np.array(x.create_structure(L, d, r['D'] or None)), np.array(h['shapes'])[:, 1:], wh, tol=0)
                close('structure', np.array(x.create_structure(L, d, r['D'] or None, phys=True)), np.array(h['shapes']), wh, tol=0)
            if c == 'fTFD':
                psi = dense(x.data).reshape([d, d]*L)
                order = [2*k for k in range(L)] + [2*k+1 for k in range(L)]
                M = psi.transpose(order).reshape(d**L, d**L)
                if r['flag']:
                    s = np.linalg.svd(M, compute_uv=False)
                    if len(s) > 1 and not s[1] < 1e-10*s[0]:
                        raise Bad('pure', '%s: %s' % (wh, s[:3]))
                    ranks(dense(x.data), d*d, L, h['ranks'], wh)
                close('symmetric', M/np.linalg.norm(M), M.T/np.linalg.norm(M), wh)
            if c == 'ivMPS':
                for _, W in x.data:
                    w = np.diag(W)
                    if not np.allclose(W, np.diag(w)) or (w < 0).any() or (np.diff(w) > 0).any():
                        raise Bad('weights', wh)
            n += 3
            continue
        if c == 'iMPS':
            objs[c].canonicalise({'left': 'l', 'right': 'r', 'mixed': 'm'}[h['do']])
            if objs[c].canonical != h['do'][0]:
                raise Bad('form', '%s: says %r' % (wh, objs[c].canonical))
            n += 1
            continue
        if c == 'fPEPS':
            x = objs[c]
            x.isometrise((h['k'], h['y']))
            O = np.diag(np.arange(1., d+1)) + np.eye(d, k=1) + np.eye(d, k=-1)
            close('form:lattice', np.ravel(x.iso_E(O)), np.ravel(x.E(O, (h['k'], h['y']))), wh)
            n += 1
            continue
        x = objs['fMPS']
        psi = dense(x.data)
        if h['do'] == 'left':
            x = x.left_canonicalise()
        elif h['do'] == 'right':
            x = x.right_canonicalise()
        elif h['do'] == 'mixed':
            x = x.mixed_canonicalise(h['k'])
        elif h['do'] == 'orthogonal':
            x = x.mixed_orthogonalise(h['k'])
        O = np.diag(np.arange(1., d+1)) + np.eye(d, k=1) + np.eye(d, k=-1)
        e = np.real(np.vdot(psi, np.tensordot(np.kron(np.kron(np.eye(d**h['k']), O), np.eye(d**(L-h['k']-1))), psi, 1))/np.vdot(psi, psi))
        if h['do'] == 'measure':
            y = x.copy()
            y.left_canonicalise()
        else:
            y = x
        close('measured', np.array(y.E(O, h['k'])), np.array(e), wh)
        objs['fMPS'] = x
        n += 1
    return n + aim(case)

def aim(case):
    """a state of a given energy"""
    from xmps.fMPS import fMPS
    a = case['aim']
    if a['lo'] == a['hi'] or case['seed'] % 4:
        return 0
    L = a['L']
    Z, I = np.diag([1., -1]), np.eye(2)
    H = [a['f'][k]*np.kron(Z, I) + a['j'][k]*np.kron(Z, Z) + (a['f'][k+1]*np.kron(I, Z) if k == L-2 else 0) for k in range(L-1)]
    where = 'seed %s aim %s' % (case['seed'], a)
    tol = [1e-3, 1e-5, 1e-7][case['seed'] % 3]
    for attempt in range(4):        # it may say that a start led nowhere, not that every start does
        try:
            x = fMPS().random_with_energy_E(a['target']/4, H, L, 2, 2**(L//2), tol=tol)
            break
        except Exception as e:
            if attempt == 3 or str(e) not in ('Too many iterations', 'local minimum'):
                raise
    psi = dense(x.data)
    psi = psi/np.linalg.norm(psi)
    e = np.sum(np.abs(psi)**2*np.array(a['levels']))
    if not abs(e - a['target']/4) < 1.01*tol + 1e-9:
        raise Bad('aim', '%s: energy %.9g, asked %.9g within %g' % (where, e, a['target']/4, tol))
    if len(x) != L:
        raise Bad('aim:length', where)
    return 1

def run(ctx):
    rows = ctx.tlc('Requests', dict(ctx.seeds(300, 6000), Depth=6), invariants=['Fits', 'NoMore', 'Inside', 'EmitAtEnd'], timeout=1500)
    ctx.replay(replay, rows, kind='requests', limit=120)
