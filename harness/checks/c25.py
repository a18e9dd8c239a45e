import itertools
import numpy as np
from lib import Bad
from chain import cx, close, own, Watch
from math import comb

def weights(s, n):
    w = np.array([np.sqrt(comb(s, k)) for k in range(s+1)])
    out = np.ones(1)
    for _ in range(n):
        out = np.kron(out, w)
    return out

def replay_walk(case):
    from xmps import spin as sp
    ini = case['ini']
    s, n = ini['two'], ini['len']
    S = s/2
    where = 'seed %s: spin %s, %s sites' % (case['seed'], S, n)
    w = weights(s, n)
    psi = cx(ini['vec'])/w
    x, y, z = sp.spins(S)
    px, py, pz = sp.paulis(S)
    m, p = sp.ladders(S)
    for a in (x, y, z, p, m, px, py, pz):
        if np.asarray(a).shape != (s+1, s+1):
            raise Bad('spins:shape', where)
    # the algebra of one spin
    for name, a, b in (('x+iy', x + 1j*y, p), ('x-iy', x - 1j*y, m), ('paulis', np.array([px, py, pz]), 2*np.array([x, y, z])),
                       ('casimir', x@x + y@y + z@z, S*(S+1)*np.eye(s+1)), ('adjoint', np.conj(np.transpose(p)), m)):
        close('spins:' + name, a, b, where)
    if not sp.CR(x, y, z) or not sp.pCR(px, py, pz) or (s > 0 and (sp.CR(x, z, y) or sp.pCR(x, y, z))):
        raise Bad('CR', where)
    for k in range(3) if s > 0 else ():
        # only one of the relations fails: the commutator of the two that are doubled
        t = [v*(1 if q == k else 2) for q, v in enumerate((x, y, z))]
        u = [v*(1 if q == k else 2) for q, v in enumerate((px, py, pz))]
        if sp.CR(*t) or sp.pCR(*u):
            raise Bad('CR:one', '%s %d' % (where, k))
    close('comm', sp.comm(x, y), 1j*z, where)
    for r in (2, 3, 4):
        eps = np.zeros([r]*r)
        for q in itertools.permutations(range(r)):
            eps[q] = np.linalg.det(np.eye(r)[list(q)])
        close('levi_civita', sp.levi_civita(r), eps, where)
    for f in (sp.spins, sp.paulis, sp.ladders):
        own(f.__name__, lambda: f(S), where)
    for f in (sp.N_body_spins, sp.N_body_paulis, sp.N_body_ladders):
        own(f.__name__, lambda: f(S, n, n), where)
    own('levi_civita', lambda: sp.levi_civita(3), where)
    count = 1
    spins = [None] + [sp.N_body_spins(S, i, n) for i in range(1, n+1)]
    paulis = [None] + [sp.N_body_paulis(S, i, n) for i in range(1, n+1)]
    ladder = [None] + [sp.N_body_ladders(S, i, n) for i in range(1, n+1)]
    for k, h in enumerate(case['hist']):
        o, i = h['op'], h['i']
        wh = '%s step %d: %s at %d' % (where, k, o, i)
        if o in 'xyz':
            A = 2*spins[i]['xyz'.index(o)]
            close('paulis:site', paulis[i]['xyz'.index(o)], A, wh)
        else:
            A = ladder[i]['-+'.index(o)]
        psi = A@psi
        want = cx(h['vec'])/w
        close('spin:' + o, psi, want, wh, tol=1e-10*max(1, np.abs(want).max()))
        psi = want
        count += 1
    for bad in (0, n+1):
        try:
            sp.N_body_spins(S, bad, n)
        except Exception:
            continue
        raise Bad('site:outside', '%s: site %s' % (where, bad))
    return count

def replay_embed(case):
    watch = Watch()
    cx = watch.cx
    from xmps import spin as sp
    from xmps import tensor
    count = 0
    for k, h in enumerate(case['hist']):
        op = h['op']
        where = 'seed %s request %d %s' % (case['seed'], k, op)
        if op == 'site':
            close('n_body', sp.n_body(cx(h['O']), h['i'], h['n']), cx(h['e']), where)
        elif op == 'list':
            where += ' d=%s w=%s n=%s i=%s' % (h['d'], h['w'], h['n'], h['i'])
            # with the local dimension given: bonds, from zero
            close('n_body:list', sp.n_body(cx(h['O']), h['i'], h['n']-1, h['d']), cx(h['e']), where)
            for i in (-1, h['n']-h['w']+1):
                try:
                    sp.n_body(cx(h['O']), i, h['n']-1, h['d'])
                except Exception:
                    continue
                raise Bad('n_body:outside', where)
        elif op == 'wide':
            where += ' d=%s w=%s n=%s i=%s' % (h['d'], h['w'], h['n'], h['i'])
            got = sp.n_body(np.diag(np.array(h['v'], float)), h['i'], h['n']-1, h['d'])
            if np.asarray(got).shape != (len(h['e']),)*2:
                raise Bad('n_body:wide:shape', where)
            close('n_body:wide', np.diag(got), np.array(h['e'], float), where)
            close('n_body:wide:rest', np.array(np.count_nonzero(got)), np.array(np.count_nonzero(h['e'])), where)
        elif op == 'swap':
            close('swap', sp.swap()@cx(h['u']), cx(h['e']), where)
        elif op == 'sym':
            O = cx(h['O'])
            close('swap_symmetrise', 2*sp.swap_symmetrise(O), cx(h['sym2']), where)
            close('swap_antisymmetrise', 2*sp.swap_antisymmetrise(O), cx(h['anti2']), where)
            got = [bool(sp.is_swap_symmetric(a)) for a in (O, cx(h['sym2']), cx(h['anti2']))]
            if got != [h['is'], True, not np.any(cx(h['anti2']))]:
                raise Bad('is_swap_symmetric', '%s: %s' % (where, got))
        elif op == 'comm':
            A, B = cx(h['A']), cx(h['B'])
            close('comm', sp.comm(A, B), cx(h['minus']), where)
            close('acomm', sp.acomm(A, B), cx(h['plus']), where)
            close('swap_rows', sp.swap_rows(A, 0, len(A)-1)[[0, len(A)-1]], A[[len(A)-1, 0]], where)
        elif op == 'trace':
            for mod in (sp, tensor):
                close('partial_trace', mod.partial_trace(cx(h['R']), [q-1 for q in h['keep']], h['dims']), cx(h['e']), where)
        elif op == 'levi':
            n = h['n']
            close('levi_civita', sp.levi_civita(n), np.array(h['e'], float).reshape([n]*n), where)
        elif op == 'gates':
            for name in ('cnot', 'cz', 'swap'):
                own(name, getattr(sp, name.upper() if name != 'swap' else name), where)
                close(name, getattr(sp, name.upper() if name != 'swap' else name)(), cx(h[name]), where)
            t = 0.1 + case['seed'] % 6
            U = sp.CRy(t)
            close('CRy', U[2:, 2:]@U[2:, 2:].T, np.eye(2), where)
            close('CRy:angle', U[2, 2], np.cos(t/2), where)
            close('CRy:control', U[:2], np.eye(4)[:2], where)
        watch.check(where)
        count += 1
    return count

def run(ctx):
    rows = ctx.tlc('Spins', dict(ctx.seeds(120, 3000), Depth=5), invariants=['Algebra', 'Casimir', 'Ends', 'Adjoint', 'Count', 'EmitAtEnd'], timeout=1500)
    ctx.replay(replay_walk, rows, kind='walk', limit=120)
    rows = ctx.tlc('Embed', dict(ctx.seeds(140, 2500), Depth=4), invariants=['Factors', 'Preserved', 'Equally', 'Involutions', 'EmitAtEnd'], timeout=1500)
    ctx.replay(replay_embed, rows, kind='embed', limit=120)
