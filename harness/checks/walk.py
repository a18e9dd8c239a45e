"""Replays histories of ChainWalk.tla on a real fMPS.  focus says which
comparisons count for the property being decided."""
import numpy as np
from lib import Bad
from chain import *

def scales(case):
    """The same state in other units: factors (powers of two, so exact) per site."""
    L, s = len(case['init']['tensors']), case['seed']
    f = [1.0]*L
    if s % 5 == 0:
        f[s % L] = 2.0**-42
    elif s % 5 == 1:
        f = [2.0**8]*L
    return f

def build(case):
    from xmps.fMPS import fMPS
    return fMPS([t*f for t, f in zip(tensors(case['init']['tensors']), scales(case))])

FORM_OPS = {'lcan', 'rcan', 'lcan0', 'rcan0', 'mcan', 'lorth', 'rorth', 'morth', 'lpart', 'rpart'}

def check_form(m, h, before, fixed_k=None):
    op = h['op']
    for k, (A, f) in enumerate(zip(m.data, h['form'])):
        if f == 'A' and not left_iso(A) <= TOL:
            raise Bad('%s:left-isometry' % op, 'site %d is not a left isometry after %s (%.3g)' % (k, op, left_iso(A)))
        if f == 'B' and not right_iso(A) <= TOL:
            raise Bad('%s:right-isometry' % op, 'site %d is not a right isometry after %s (%.3g)' % (k, op, right_iso(A)))
    for k, (b, a) in enumerate(zip(before, bonds(m.data))):
        if a > b:
            raise Bad('%s:bond-grew' % op, 'bond %d grew from %d to %d' % (k, b, a))

def step(m, h, psi, d):
    """Make the call h on m; returns (object now standing for the state, returned value)."""
    op = h['op']
    if op == 'lcan': return m.left_canonicalise(), None
    if op == 'rcan': return m.right_canonicalise(), None
    if op == 'lcan0': return m.left_canonicalise(sweep_back=False), None
    if op == 'rcan0': return m.right_canonicalise(sweep_back=False), None
    if op == 'mcan': return m.mixed_canonicalise(h['k']), None
    if op == 'lorth': return m.left_orthogonalise(), None
    if op == 'rorth': return m.right_orthogonalise(), None
    if op == 'morth': return m.mixed_orthogonalise(h['k']), None
    if op == 'lpart': return m.left_orthogonalise(h['fr'], h['to']), None
    if op == 'rpart': return m.right_orthogonalise(h['fr'], h['to']), None
    if op == 'E': return m, m.E(cx(h['O']), h['k'])
    if op == 'E_': return m, m.E_(cx(h['O']), h['k'])
    if op == 'Es': return m, m.Es([cx(o) for o in h['O']], h['k'])
    if op == 'Ek': return m, m.E_k(cx(h['O']), list(range(h['i'], h['i']+h['w'])))
    if op == 'EkS': return m, m.E_k([cx(o) for o in h['O']], list(range(h['i'], h['i']+h['w'])), single_string=True)
    if op == 'rho' and m.bond_dimension == 1 and (h['i']+len(m)) % 2:
        # asked for the list first: the tensors may be in any form and of any size
        rl = m.rho(list(range(h['i'], h['i']+h['w'])))
        close('rho:list', kron(*rl), cx(h['M'])/h['den'], 'product state in any form')
    if op == 'rho': return m, m.rho(list(range(h['i'], h['i']+h['w'])), single_string=False)
    if op == 'set':
        m[h['k']] = np.tensordot(cx(h['O']), m[h['k']], [1, 0])
        return m, None
    if op == 'apply':
        O, k = cx(h['O']), h['k']
        if len(O) == 2 and (k+len(m)) % 3 == 1:
            return m.apply_two_site((O, (k,))), None
        if len(O) == 2 and (k+len(m)) % 3 == 2:
            other = (k+1) % len(m)
            return (m.apply_two_site((O, (k, other)), which='l') if len(m) % 2 else m.apply_two_site((O, (other, k)), which='r')), None
        return m.apply((O, k)), None
    if op == 'gate':
        U = cx(h['U'])/np.sqrt(h['s2'])
        # a bound that covers every bond of the exact result changes nothing
        grown = all(b <= 2**min(k, len(m)-k) for k, b in enumerate(bonds(m.data)))
        D = h['bound'] if h['bound'] and (grown or h['bound'] == 2**len(m)) else None
        return m.apply_two_site((U, (h['i'], h['j'])), which=h['which'], D=D, truncate_swaps=h['swaps']), None
    if op == 'post': return m.post_select(h['k'], h['b']), None
    if op == 'copy': return m.copy(), None
    if op == 'pack':
        from xmps.fMPS import fMPS
        return fMPS().deserialize(m.serialize(), structure=[A.shape for A in m.data]), None
    raise ValueError(op)

def bounded(m, h, psi, where):
    """the same gate under a tight bound, on a copy of the chain before it; psi: the exact result"""
    i, j, D = h['i'], h['j'], h['tight']
    U = cx(h['U'])/np.sqrt(h['s2'])
    before = bonds(m.data)
    x = m.copy().apply_two_site((U, (i, j)), which=h['which'], D=D, truncate_swaps=True)
    got = bonds(x.data)
    for k in range(len(got)):
        if i < k <= j and got[k] > D:
            raise Bad('gate:bound', '%s: bond %d is %d, bound %d' % (where, k, got[k], D))
        if not i < k <= j and got[k] != before[k]:
            raise Bad('gate:other-bond', '%s: bond %d was %d, now %d' % (where, k, before[k], got[k]))
    n = 1
    if j == i+1:
        # with the centre on the pair this is the best state of that bond: the largest weights stay
        x = m.copy()
        x = x.mixed_orthogonalise(i if h['swaps'] else j)
        x = x.apply_two_site((U, (i, j)), which=h['which'], D=D)
        s = np.linalg.svd(psi.reshape(2**j, -1)/np.linalg.norm(psi), compute_uv=False)
        v = dense(x.data)
        f = abs(np.vdot(psi, v))**2/np.linalg.norm(psi)**2/np.linalg.norm(v)**2
        close('gate:bounded', np.array(f), np.array(np.sum(s[:D]**2)), where + ' sites %d,%d bound %d' % (i, j, D))
        close('gate:bounded:norm', np.linalg.norm(v), 1, where + ' sites %d,%d bound %d' % (i, j, D))
        iso = left_iso(x.data[i]) if h['which'] == 'l' else right_iso(x.data[j])
        if not iso <= TOL:
            raise Bad('gate:bounded:iso', '%s: %.3g' % (where, iso))
        n += 2
    return n

def replay(case, focus):
    """focus: set of comparison groups: form, value, ray, gate, block, norm"""
    d = case['init']['d']
    m = build(case)
    psi = cx(case['init']['psi'])
    sc = float(np.prod(scales(case)))
    psi = psi*sc
    close('init', dense(m.data), psi, 'initial tensors')
    n = 0
    for t, h in enumerate(case['hist']):
        op = h['op']
        where = 'seed %s step %d (%s)' % (case['seed'], t, ' '.join(x['op'] for x in case['hist'][:t+1]))
        before = bonds(m.data)
        kept = m.copy() if op == 'gate' and 'gate' in focus else None
        m2, val = step(m, h, psi, d)
        if m2 is None:
            raise Bad('%s:returns-none' % op, where)
        m = m2
        if 'psi' in h:
            psi = cx(h['psi'])
        if op in FORM_OPS:
            if 'form' in focus:
                v = dense(m.data)
                same_ray('%s:ray' % op, v, psi, where)
                nv = np.linalg.norm(v)
                if op in ('lpart', 'rpart') and not h['drops']:
                    if h['n2'] and not np.max(np.abs(v-psi)) <= TOL*np.max(np.abs(psi)):
                        raise Bad('%s:vector' % op, '%s: the vector changed, sites %s to %s' % (where, h['fr'], h['to']))
                elif not abs(nv-1) <= TOL and not (op in ('lpart', 'rpart') and not h['whole']):
                    raise Bad('%s:norm' % op, '%s: norm %.9g after %s' % (where, nv, op))
                check_form(m, h, before)
                if h['n2'] and (op in ('lcan', 'lorth', 'rorth') or h.get('drops')):
                    # the scalar that was taken out, sign and phase included
                    got = v*np.squeeze(m.norm_)
                    if not np.max(np.abs(got-psi)) <= TOL*np.max(np.abs(psi)):
                        raise Bad('%s:norm_' % op, '%s: recorded scalar %s, squared norm is %d' % (where, np.squeeze(m.norm_)/sc, h['n2']))
                n += 4
        elif op in ('E', 'E_', 'Es'):
            if 'value' in focus:
                close('%s:value' % op, np.real(np.asarray(val)).reshape(-1),
                      np.array(h['num'], dtype=float).reshape(-1)/h['den'], where + ' site %d' % h['k'])
                n += 1
        elif op in ('Ek', 'EkS'):
            if 'block' in focus or 'value' in focus:
                close('%s:value' % op, np.asarray(val).reshape(-1), np.array([h['num']/h['den']]), where + ' sites %d+%d' % (h['i'], h['w']))
                n += 1
        elif op == 'rho':
            if 'block' in focus or 'value' in focus:
                if m.bond_dimension == 1:
                    rl = m.rho(list(range(h['i'], h['i']+h['w'])))
                    close('rho:list', kron(*rl), cx(h['M'])/h['den'], where + ' list form')
                close('rho:value', np.asarray(val), cx(h['M'])/h['den'], where + ' sites %d+%d' % (h['i'], h['w']))
                n += 1
        elif op == 'gate' and 'gate' in focus:
            v = dense(m.data)
            same_ray('gate:ray', v, psi, where + ' sites %d,%d which=%s' % (h['i'], h['j'], h['which']))
            iso = left_iso(m.data[h['i']]) if h['which'] == 'l' else right_iso(m.data[h['j']])
            if not iso <= TOL:
                raise Bad('gate:iso', '%s: sites %d,%d which=%s %.3g' % (where, h['i'], h['j'], h['which'], iso))
            n += 2 + bounded(kept, h, psi, where)
        elif op == 'post' and 'gate' in focus:
            same_ray('post:ray', dense(m.data), psi, where + ' site %d' % h['k'])
            if len(m) != len(m.data) or m.L != len(m.data):
                raise Bad('post:length', where)
            n += 1
        if 'ray' in focus and not (op in FORM_OPS and 'form' in focus):
            same_ray('%s:ray' % op, dense(m.data), psi, where)
            n += 1
    same_ray('final:ray', dense(m.data), cx(case['psi']), 'seed %s end' % case['seed'])
    return n

def replay_form(case): return replay(case, {'form'})
def replay_value(case): return replay(case, {'value', 'ray'})
def replay_gate(case): return replay(case, {'gate'})
def replay_block(case): return replay(case, {'block'})

INV = ['NonZero', 'TypeOK', 'LastLegal', 'FormShape', 'EmitAtEnd']
def histories(ctx, n, depth, kinds='<- AllKinds', fams='<- Families', branch=False, MaxL=5, MaxD=3, seed0=0):
    s = ctx.seeds(n)
    s = dict(SeedLo=s['SeedLo'] + seed0, SeedHi=s['SeedHi'] + seed0)
    return ctx.tlc('ChainWalk', dict(s, Depth=depth, Branch=branch, MaxL=MaxL, MaxD=MaxD, Fams=fams, Kinds=kinds),
                   invariants=INV, properties=['MeasureFrame'])
