import numpy as np
from lib import Bad
from chain import cx, close, tensors, kron

TOL = 1e-9
X1, Y1, Z1 = np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.array([[1, 0], [0, -1]])

def lattice(js):
    from xmps.fPEPS import fPEPS
    return fPEPS([[cx(t['data']).reshape(t['dims']) for t in row] for row in js])

def put(v, O, k, n, d):
    """one-site operator on place k (from 0) of a vector"""
    return np.moveaxis(np.tensordot(O, v.reshape([d]*n), [1, k]), 0, k).reshape(-1)

def conj_double(A, B):
    from xmps.fPEPS import transfer_tensor
    if B is A:
        t = transfer_tensor(A)
    else:
        t = np.tensordot(A, B.conj(), [0, 0]).transpose([0, 4, 1, 5, 2, 6, 3, 7])
    s = [a*b for a, b in zip(A.shape[1:], B.shape[1:])]
    return t.reshape(s)

def agrees(p, w, h, psi, key, where):
    if (p.Lx, p.Ly) != (w, h) or len(p.data) != h or any(len(r) != w for r in p.data):
        raise Bad(key + ':shape', '%s: %s, expected %sx%s' % (where, (p.Lx, p.Ly), w, h))
    close(key, np.asarray(p.recombine()).reshape(-1), psi, where, tol=TOL*max(1, np.linalg.norm(psi)))

def iso_checks(p, i, j, d, where):
    """the isometric form around (i, j)"""
    x = p.copy()
    A = x.data[j][i].copy()
    x.isometrise((i, j))
    if not np.any(A[tuple(slice(k) for k in x.data[j][i].shape)]):
        return 0            # what the form keeps of the centre is zero
    w, h = x.Lx, x.Ly
    psi = np.asarray(x.recombine()).reshape(-1)
    close('iso:norm', np.vdot(psi, psi), 1, where)
    for y in range(h):
        for z in range(w):
            if (z, y) == (i, j):
                continue
            t = x.data[y][z]
            # legs are (physical, up, right, down, left); those towards the centre
            to = ([1] if y > j else [3] if y < j else []) + ([4] if z > i else [2] if z < i else [])
            M = t.transpose([k for k in range(5) if k not in to] + to).reshape(-1, int(np.prod([t.shape[k] for k in to])))
            if M.shape[0] < M.shape[1]:
                raise Bad('iso:legs', '%s: (%d, %d) %s' % (where, z, y, t.shape))
            close('iso:site', M.conj().T@M, np.eye(M.shape[1]), '%s: (%d, %d) around (%d, %d)' % (where, z, y, i, j))
    close('iso:reported-norm', np.ravel(x.norm()), [1], where)
    rng = np.random.RandomState(w*100 + h*10 + i + j)
    O = rng.randn(d, d) + 1j*rng.randn(d, d)
    O = O + O.conj().T
    e = np.vdot(psi, put(psi, O, j*w+i, w*h, d))
    for y, c in ((x, (i, j)), (x.T, (j, i)), (x.R, (w-1-i, j)), (x.U, (i, h-1-j)), (x.copy(), (i, j))):
        if tuple(y.oc) != c:
            raise Bad('iso:centre', '%s: %s expected %s' % (where, y.oc, c))
        close('iso:value', y.iso_E(O), e, where)
        close('iso:E', np.ravel(y.E(O, c)), [e], where)
    close('iso:many', np.ravel(x.iso_Es([(O,), (np.eye(d), (i, j))])), [e, 1], where)
    return 1

def replay(case):
    from xmps.fPEPS import fPEPS
    from xmps.fMPS import fMPS
    ini, hist = case['ini'], case['hist']
    w, h, d = ini['w'], ini['h'], ini['d']
    psi = cx(ini['psi'])
    where = 'seed %s %sx%s d=%s %s' % (case['seed'], w, h, d, ini['kind'])
    p = lattice(ini['grid'])
    agrees(p, w, h, psi, 'start', where)
    if p.d != d:
        raise Bad('start:d', where)
    n = 1
    if ini['kind'] == 'chain':
        As = tensors(ini['chain'])
        m = fMPS(As)
        q = fPEPS().from_mps(m, w)
        agrees(q, w, h, psi, 'from_mps', where)
        close('from_mps:chain', np.asarray(q.recombine('row_snake')).reshape(-1), np.asarray(m.recombine()).reshape(-1), where)
        if w == h:
            agrees(fPEPS().from_mps(m), w, h, psi, 'from_mps:square', where)
        for j in range(h):
            for i in range(w):
                if q.data[j][i].shape != p.data[j][i].shape:
                    raise Bad('from_mps:legs', where)
        p, n = q, n + 1
    if ini['kind'] == 'product':
        other = lattice(ini['grid'])
        other.data[0][0] = other.data[0][0]*(2-1j)
        rho, rp = p.rho(((0, 0), (w, h))), p.rho_proj(other, ((0, 0), (w, h)))
        for j in range(h):
            for i in range(w):
                t, o = p.data[j][i].reshape(-1), other.data[j][i].reshape(-1)
                close('rho', rho[j, i], np.outer(t, t.conj()), where)
                close('rho_proj', rp[j, i], np.outer(t, o.conj()), where)
        n += 1
    for k, s in enumerate(hist):
        op, wh = s['op'], '%s step %d %s' % (where, k, s['op'])
        before = [[t.copy() for t in row] for row in p.data]
        kept = p
        if op == 'apply':
            p = p.apply(cx(s['O']), (s['i']-1, s['j']-1))
        elif op in 'TRU':
            p = getattr(p, op)
            if op == 'T':
                w, h = h, w
        elif op == 'add':
            o = lattice(s['other'])
            o0 = [[t.copy() for t in row] for row in o.data]
            p = p.add(o)
            if any(not np.array_equal(a, b) for r, q in zip(o.data, o0) for a, b in zip(r, q)):
                raise Bad('add:argument', wh)
        elif op == 'cut':
            q = p.copy()
            f = dict(above='truncate_above', below='truncate_below', left='truncate_left', row='truncate_along_row', column='truncate_along_column')[s['how']]
            q = getattr(q, f)(s['k']-1, s['D'])
            p = q
        elif op == 'trim':
            q, i, j, D = p.copy(), s['i']-1, s['j']-1, s['D']
            r = q.data
            if s['own'] != 1:
                r[j][i] = r[j][i][:, :D, :D, :D, :D]
            if s['own'] != 0:
                if j > 0:
                    r[j-1][i] = r[j-1][i][:, :, :, :D, :]
                if j < h-1:
                    r[j+1][i] = r[j+1][i][:, :D, :, :, :]
            if s['own'] == 1:
                if i > 0:
                    r[j][i-1] = r[j][i-1][:, :, :D, :, :]
                if i < w-1:
                    r[j][i+1] = r[j][i+1][:, :, :, :, :D]
            p = q.fix_neighbours(i, j)
            if [[list(t.shape) for t in row] for row in p.data] != [[list(t) for t in row] for row in p.structure]:
                raise Bad('structure', wh)
        elif op == 'E':
            O = cx(s['O'])
            site = (s['i']-1, s['j']-1)
            nn = float(s['n'])
            sc = max(1.0, abs(nn))
            close('E', np.ravel(p.E(O, site))/sc, [s['e']/sc], wh, tol=TOL)
            close('norm', np.ravel(p.norm())/np.sqrt(sc), [np.sqrt(nn)/np.sqrt(sc)], wh, tol=1e-7)
            if nn > 0:
                q = p.copy().normalise()
                close('normalise', np.ravel(q.norm()), [1], wh)
                v = np.asarray(q.recombine()).reshape(-1)
                r = np.asarray(p.recombine()).reshape(-1)/np.sqrt(nn)
                close('normalise:ray', np.vdot(r, v), np.abs(np.vdot(r, v)), wh)
                close('normalise:vector', v, r, wh)
                close('E:normalised', np.ravel(q.E(O, site)), [s['e']/nn], wh)
                # a turned or flipped lattice, or the arrays it was made from, may
                # be the state's own: normalising one leaves the other as it is
                given = [[t.copy() for t in row] for row in p.data]
                for name, y in (('T', p.T), ('R', p.R), ('U', p.U), ('given', fPEPS([list(row) for row in given], d=p.d, X=p.X))):
                    y.normalise()
                    close('normalise:%s' % name, np.ravel(y.norm()), [1], wh)
                if any(not np.array_equal(a, b) for r, q in zip(p.data, before) for a, b in zip(r, q)):
                    raise Bad('normalise:shared', wh)
                if any(not np.array_equal(a, b) for r, q in zip(given, before) for a, b in zip(r, q)):
                    raise Bad('normalise:given', wh)
                whole = fPEPS([[np.ones(t.shape, dtype=int) for t in row] for row in p.data], d=p.d, X=p.X)
                close('normalise:whole', np.ravel(whole.normalise().norm()), [1], wh)
        elif op == 'Ek':
            got = p.E_k(cx(s['O']), ((s['x']-1, s['y']-1), (s['a'], s['b'])))
            sc = max(1.0, abs(float(s['e'])))
            close('E_k', np.ravel(got)/sc, [s['e']/sc], wh, tol=TOL)
        elif op == 'overlap':
            o = lattice(s['other'])
            e = complex(*s['e'])
            sc = max(1.0, abs(e))
            close('overlap', np.ravel(p.overlap(o))/sc, [e/sc], wh, tol=TOL)
            close('overlap:swapped', np.ravel(o.overlap(p))/sc, [np.conj(e)/sc], wh, tol=TOL)
            close('full_overlap', np.ravel(p.full_overlap(o))/sc, [e/sc], wh, tol=TOL)
            # the doubled network, row by row and column by column
            for name, ms in (('row_mpos', p.row_mpos(o)), ('col_mpos', p.col_mpos(o))):
                t = ms[-1]
                for m in ms[-2::-1]:
                    t = t*m
                close(name, np.ravel(t.recombine())/sc, [e/sc], wh, tol=TOL)
            own = float(np.vdot(np.ravel(p.recombine()), np.ravel(p.recombine())).real)
            for name, ms in (('row_mpos:own', p.row_mpos()), ('col_mpos:own', p.col_mpos())):
                t = ms[-1]
                for m in ms[-2::-1]:
                    t = t*m
                close(name, np.ravel(t.recombine())/max(1, own), [own/max(1, own)], wh, tol=TOL)
        elif op == 'snake':
            close('snake', np.asarray(p.recombine('row_snake')).reshape(-1), cx(s['e']), wh)
        elif op == 'merge':
            x1, x2, y1, y2 = s['x1']-1, s['x2'], s['y1']-1, s['y2']
            if s['how'] == 'rows':
                q, size = p.row_contract(y1, y2), (w, h-(y2-y1)+1)
            elif s['how'] == 'columns':
                q, size = p.col_contract(x1, x2), (w-(x2-x1)+1, h)
            else:
                q, size = p.contract(((x1, y1), (x2-x1, y2-y1))), (w-(x2-x1)+1, h-(y2-y1)+1)
            agrees(q, size[0], size[1], cx(s['e']), 'merge:' + s['how'], wh)
        elif op == 'env':
            i, j = s['i']-1, s['j']-1
            env = p.environment((j, i))
            A = p.data[j][i]
            sc = max(1.0, float(s['n']))
            close('environment:norm', np.sum(env*conj_double(A, A))/sc, s['n']/sc, wh, tol=TOL)
            B = np.tensordot(cx(s['O']), A, [1, 0])
            close('environment:value', np.sum(env*conj_double(B, A))/sc, s['e']/sc, wh, tol=TOL)
        elif op == 'iso':
            # any bonds, cut to what the form allows, give an isometric state
            iso_checks(p, s['i']-1, s['j']-1, d, wh)
        elif op == 'copy':
            q = p.copy()
            q.data[s['j']-1][s['i']-1][:] = 7
            if not (p == p) or (p == q and not np.allclose(before[s['j']-1][s['i']-1], 7)):
                raise Bad('copy:equal', wh)
            # one that claims another centre, or none, is another lattice
            def claims(*a):
                y = p.copy()
                if a:
                    y.oc = a[0]
                return y
            if claims((0, 1)) != claims((0, 1)) or claims((0, 1)) == claims((1, 0)) or claims((0, 1)) == claims() or claims() == claims((0, 1)):
                raise Bad('copy:equal-centre', wh)
            if claims((0, 1)).copy() != claims((0, 1)) or fPEPS(p.data, d=p.d, X=p.X) != claims() or fPEPS(p.data, d=p.d, X=p.X+1) == claims():
                raise Bad('copy:equal-declared', wh)
            # what a lattice is declared to be goes with it
            big = fPEPS([[t.copy() for t in r] for r in p.data], d=p.d, X=p.X + 3)
            for name, y in (('copy', big.copy()), ('T', big.T), ('R', big.R), ('U', big.U)):
                if (y.d, y.X) != (p.d, p.X + 3):
                    raise Bad('copy:declared', '%s: %s d=%s X=%s' % (wh, name, y.d, y.X))
            given = [[2*t for t in r] for r in p.data]
            big.oc = (s['i']-1, s['j']-1)
            y = big.copy(given)
            if getattr(y, 'oc', None) != big.oc:
                raise Bad('copy:given-centre', wh)
            del big.oc
            if hasattr(big.copy(given), 'oc'):
                raise Bad('copy:given-centre', wh)
            y.data[s['j']-1][s['i']-1][:] += 1
            if (y.d, y.X) != (big.d, big.X) or len(y.data) != h or any(len(r) != w for r in y.data):
                raise Bad('copy:given', '%s: d=%s X=%s' % (wh, y.d, y.X))
            for jj in range(h):
                for ii in range(w):
                    here = (jj, ii) == (s['j']-1, s['i']-1)
                    close('copy:given', y.data[jj][ii], 2*p.data[jj][ii] + (1 if here else 0), wh)
                    close('copy:given-argument', given[jj][ii], 2*p.data[jj][ii], wh)
            for part in (p.data[:-1], [r[:-1] for r in p.data]):
                if part and part[0]:
                    o = fPEPS(part, d=p.d, X=p.X)
                    if p == o or o == p:
                        raise Bad('copy:equal-part', wh)
        # whatever was asked, the state it was asked of is as it was
        if any(a.shape != b.shape or not np.array_equal(a, b) for r, q in zip(kept.data, before) for a, b in zip(r, q)):
            raise Bad(op + ':changes-state', wh)
        if 'psi' in s:
            psi = cx(s['psi'])
            agrees(p, w, h, psi, op, wh)
        n += 1
    return n

def run(ctx):
    rows = ctx.tlc('Peps', dict(ctx.seeds(150, 3000), Depth=4, Sums=0), invariants=['Denotes', 'Fits', 'Chained', 'Involutive', 'EmitAtEnd'], timeout=1500)
    ctx.replay(replay, rows, kind='lattice', limit=120)
    rows = ctx.tlc('Peps', dict(ctx.seeds(100, 1500), Depth=2, Sums=1), invariants=['Denotes', 'Fits', 'EmitAtEnd'], timeout=1500)
    ctx.replay(replay, rows, kind='sum', limit=120)
