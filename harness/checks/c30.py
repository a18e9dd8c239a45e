import numpy as np
from lib import Bad
from chain import close, same_ray, own

def replay(case):
    from xmps import mps_examples as ex
    from xmps.spin import spins
    where = 'ends %s' % case['ends']
    count = 0
    for name, table in (('bell', case['bell']), ('comp_z', case['z']), ('comp_x', case['x'])):
        for i in range(1, 5):
            m = getattr(ex, name)(i)
            v = np.asarray(m.recombine()).reshape(-1)
            wh = '%s(%d)' % (name, i)
            same_ray(name, v, np.array(table[i-1], complex), wh)
            close(name + ':norm', np.vdot(v, v), 1, wh)
            close(name + ':norm', m.norm(), 1, wh)
            for j in range(1, 5):
                close(name + ':overlap', abs(getattr(ex, name)(j).overlap(m)), float(i == j), wh)
            count += 1
    for name, k in (('bell', 1), ('comp_z', 2), ('comp_x', 3), ('i_comp_z', 1)):
        own(name, lambda: getattr(ex, name)(k), where)
    own('AKLT', ex.AKLT, where)
    own('i_cat', ex.i_cat, where)
    Sx, Sy, Sz = spins(0.5)
    for i in (1, 2):
        m = ex.i_comp_z(i)
        close('i_comp_z', [m.E(o) for o in (Sx, Sy, Sz)], [0, 0, 1.5 - i], str(i))
    for e in (1e-2, 2e-3):
        # two all-up/all-down chains in equal parts, but for domain walls of weight e
        m = ex.i_cat(e)
        close('i_cat', m.E(Sz), 0, str(e), tol=1e-6)
        close('i_cat:order', m.energy([np.kron(Sz, Sz)]), 0.25, str(e), tol=4*e)
    # the valence-bond chain
    m = ex.AKLT()
    A = m.data[0]
    if A.shape != (3, 2, 2):
        raise Bad('AKLT:shape', str(A.shape))
    close('AKLT:left', sum(a.conj().T@a for a in A), np.eye(2), where)
    close('AKLT:right', sum(a@a.conj().T for a in A), np.eye(2), where)
    block = A
    for h in case['hist']:
        n = h['n']
        if n > 1:
            block = np.einsum('pab,qbc->pqac', block, A).reshape(-1, 2, 2)
        B = block.reshape(-1, 4)
        middles = np.array([sum(1 for c in np.base_repr(t, 3).zfill(n) if c == '1') for t in range(3**n)])
        v = np.array(h['amp'])*np.sqrt(0.5)**middles
        if np.linalg.matrix_rank(B, tol=1e-9) != (3 if n == 1 else 4):
            raise Bad('AKLT:rank', '%s n=%d' % (where, n))
        rest = v - B@np.linalg.lstsq(B, v, rcond=None)[0]
        close('AKLT:space', rest, np.zeros(3**n), '%s n=%d' % (where, n))
        count += 1
    S = spins(1)
    SS = sum(np.kron(s, s) for s in S)
    P2 = SS/2 + SS@SS/6 + np.eye(9)/3
    close('AKLT:energy', m.energy([P2]), 0, where)
    close('AKLT:bond', m.energy([SS]), -4/3, where)
    close('AKLT:spin', [m.E(s) for s in S], np.zeros(3), where)
    return count

def run(ctx):
    rows = ctx.tlc('Named', dict(SeedLo=0, SeedHi=3, MaxL=6 if ctx.quick else 7), invariants=['Families4', 'NoSpinTwo', 'HiddenOrder', 'EmitAtEnd'], timeout=1500)
    ctx.replay(replay, rows, kind='named', limit=120)
