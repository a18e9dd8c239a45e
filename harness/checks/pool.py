import numpy as np
from lib import Bad
from chain import *

def mk(As):
    from xmps.fMPS import fMPS
    return fMPS([t.copy() for t in tensors(As)])

def snapshot(m):
    return [np.array(t, copy=True) for t in m.data]

def unchanged(snap, m):
    return len(snap) == len(m.data) and all(a.shape == b.shape and np.array_equal(a, b) for a, b in zip(snap, m.data))

def look(m, rs):
    """calls that only read"""
    from xmps.fMPS import fMPS
    L, d = len(m.data), m.data[0].shape[0]
    m.structure(); m.recombine(); m.serialize(); m.serialize(real=True); m.norm(); str(m); len(m); m.bond_dimension
    m == m.copy()
    O = rs.randn(d**L, d**L); m.E_L(O + O.T)
    hs = [rs.randn(d*d, d*d) for _ in range(L-1)]
    if L >= 2:
        m.energy([h + h.T for h in hs]); m.energy(O + O.T, fullH=True)
    m.get_envs(); m.get_envs(True)
    m.update_properties()
    m.left_transfer(np.eye(m.data[-1].shape[2]), 0, L)
    m.links(); m.full_overlap(m)
    m + m; m - m; m*2; 2*m; m/2; m.mul(3); m.add(m)
    m.apply((np.eye(d), 0)); m.append(np.ones((d, 1, 1))); m.extend(m)

def canonical_look(m, rs):
    """reading calls that need a canonical state"""
    L, d = len(m.data), m.data[0].shape[0]
    hs = [rs.randn(d*d, d*d) + 1j*rs.randn(d*d, d*d) for _ in range(L-1)]
    hs = [h + h.conj().T for h in hs]
    m.dA_dt(hs)
    if L <= 4:
        H = sum(np.kron(np.kron(np.eye(d**i), h), np.eye(d**(L-2-i))) for i, h in enumerate(hs))
        m.dA_dt(H, fullH=True)
    m.extract_tangent_vector(m.dA_dt(hs))
    m.tangent_space_dims()
    # a copy may be grown or have its gauge changed
    for f in (lambda z: z.dynamical_expand(hs, 0.1, z.bond_dimension+1, None), lambda z: z.grow(hs, 0.1, 3),
              lambda z: z.match_gauge_to(m), lambda z: z.match_gauge_to(m.copy().right_canonicalise())):
        try:
            f(m.copy())
        except (np.linalg.LinAlgError, ValueError):     # directions without weight
            pass

def replay(case, focus):
    from xmps.fMPS import fMPS
    d = case['init']['d']
    pool = [None] + [mk(o['As']) for o in case['init']['pool']]
    val = [None] + [cx(o['v']) for o in case['init']['pool']]
    mode = [None, 'raw', 'raw']
    rs = np.random.RandomState(case['seed'] % 2**31)
    n = 0
    ops = []
    for t, h in enumerate(case['hist']):
        op = h['op']
        if op == 'skip':
            continue
        ops.append(op)
        where = 'seed %s step %d (%s)' % (case['seed'], t, ' '.join(ops))
        snaps = [None] + [snapshot(m) for m in pool[1:]]
        x = pool[h['i']] if 'i' in h else None
        y = pool[h['j']] if 'j' in h else None
        touched = set()
        new = None
        if op == 'add': new = x.add(y)
        elif op == 'mul': new = x.mul(cx(h['c']))
        elif op == 'imul': new = x*cx(h['c']) if t % 2 else complex(cx(h['c']))*x
        elif op == 'idiv': new = x/cx(h['c'])
        elif op == 'iadd': new = x + y
        elif op == 'isub': new = x - y
        elif op == 'apply': new = x.apply((cx(h['O']), h['k']))
        elif op == 'extend': new = x.extend(y)
        elif op == 'append': new = x.append(cx(h['T']))
        elif op == 'prod':
            ws = cx(h['ws'])
            new = fMPS().from_product_state(ws) if t % 2 else fMPS().from_product_states([ws, ws])[1]
        elif op == 'copy': new = x.copy()
        elif op == 'pack': new = fMPS().deserialize(x.serialize(), structure=[A.shape for A in x.data])
        elif op in ('overlap', 'full_overlap', 'norm', 'prod_overlap'):
            if op == 'overlap': z = x.overlap(y)
            elif op == 'full_overlap': z = x.full_overlap(y)
            elif op == 'norm': z = x.norm()
            else: z = x.product_state_overlap(cx(h['ws']))
            z = complex(np.squeeze(z))
            if 'overlap' in focus:
                w = complex(cx(h['z']))
                # conj symmetric partner
                if op == 'overlap':
                    z2 = complex(np.squeeze(y.overlap(x)))
                    close('overlap:symmetry', np.array(z2), np.array(np.conj(z)), where, tol=1e-9)
                if h['exact'] == 1:
                    close('%s:value' % op, np.array(z), np.array(w), where, tol=1e-9)
                    n += 1
                elif h['exact'] == 0:
                    a, b = h['i'], h.get('j')
                    na = np.linalg.norm(val[a]) if mode[a] == 'unit' else 1.0
                    nb = 1.0 if b is None else (np.linalg.norm(val[b]) if mode[b] == 'unit' else 1.0)
                    close('%s:modulus' % op, np.array(abs(z)), np.array(abs(w)/na/nb), where, tol=1e-7)
                    n += 1
        elif op == 'local_overlap':
            sites = list(range(h['k'], h['k'] + h['w']))
            z = x.local_overlap(y, sites)
            touched = {h['i'], h['j']}
            if 'overlap' in focus:
                close('local_overlap:value', np.array(np.real(np.squeeze(z))), np.array(h['num']/h['d1']/h['d2']), where + ' sites %s' % sites)
                n += 1
        elif op == 'approx_overlap':
            L = len(x.data)
            As = [list(range(k, k + h['w'])) for k in range(L - h['w'] + 1)]
            z = x.approx_overlap(y, As) if t % 2 else x.k_local_approx_overlap(y, h['w'])
            touched = {h['i'], h['j']}
            if 'overlap' in focus:
                close('approx_overlap:value', np.array(np.real(np.squeeze(z))), np.array(np.mean(np.array(h['nums'])/h['d1']/h['d2'])), where)
                n += 1
        elif op == 'proj':
            sites = list(range(h['k'], h['k'] + h['w']))
            if 'overlap' in focus:
                close('rho_proj:value', np.asarray(x.rho_proj(y, sites)), cx(h['M']), where + ' sites %s' % sites, tol=1e-9)
                n += 1
        elif op == 'look':
            look(x, rs)
            if len(x.data) >= 2 and np.linalg.norm(val[h['i']]) > 0:
                # the same calls on a canonical copy
                y2 = x.copy().left_canonicalise()
                s2 = snapshot(y2)
                look(y2, rs); canonical_look(y2, rs)
                if 'frame' in focus and not unchanged(s2, y2):
                    raise Bad('look:changes-operand', where)
        else:
            touched = {h['i']}
            if op == 'lcan': x.left_canonicalise()
            elif op == 'rcan': x.right_canonicalise()
            elif op == 'lorth': x.left_orthogonalise()
            elif op == 'rorth': x.right_orthogonalise()
            elif op == 'mcan': x.mixed_canonicalise(h['k'])
            elif op == 'morth': x.mixed_orthogonalise(h['k'])
            elif op == 'entropy': x.entanglement_entropy(h['k'])
            elif op == 'E': x.E(np.diag(np.arange(d)), h['k'])
            elif op == 'Ek': x.E_k(np.diag(np.arange(d)), [h['k']])
            elif op == 'rho': x.rho([h['k']], single_string=False)
            elif op == 'set': x[h['k']] = np.tensordot(cx(h['O']), x[h['k']], [1, 0])
            elif op == 'gate':
                r = x.apply_two_site((cx(h['U']), (h['k'], h['k']+1)))
                if r is not x:
                    pool[h['i']] = x = r
            else:
                raise ValueError(op)
        if 'frame' in focus:
            for i in range(1, len(snaps)):
                if i not in touched and not unchanged(snaps[i], pool[i]):
                    raise Bad('%s:changes-operand' % op, '%s: object %d changed' % (where, i))
            n += 1
        if new is not None:
            if any(new is m for m in pool[1:]):
                raise Bad('%s:returns-operand' % op, where)
            pool.append(new); val.append(cx(h['v'])); mode.append(h['mode'])
            if 'value' in focus or 'frame' in focus:
                v = dense(new.data)
                if h['mode'] == 'raw':
                    want = tensors(h['As'])
                    for k, (A, B) in enumerate(zip(new.data, want)):
                        close('%s:tensors' % op, np.asarray(A), B, where + ' site %d' % k, tol=1e-12)
                if h['mode'] in ('raw', 'vec'):
                    close('%s:vector' % op, v, cx(h['v']), where, tol=1e-9)
                    if 'value' in focus:
                        close('%s:recombine' % op, new.recombine().reshape(-1), cx(h['v']), where, tol=1e-9)
                        if len(new) != len(h['v']) and d**len(new) != len(h['v']):
                            raise Bad('%s:length' % op, where)
                elif np.linalg.norm(cx(h['v'])) > 0:
                    same_ray('%s:ray' % op, v, cx(h['v']), where)
                if new.L != len(new.data) or new.d != d:
                    raise Bad('%s:L-d' % op, '%s: L=%s d=%s' % (where, new.L, new.d))
                n += 1
        elif 'target' in h:
            val[h['target']] = cx(h['v']); mode[h['target']] = h['mode']
            if 'frame' in focus:
                same_ray('%s:ray' % op, dense(pool[h['target']].data), cx(h['v']), where)
        if op in ('local_overlap', 'approx_overlap'):
            for i in (h['i'], h['j']):
                mode[i] = 'ray'
                if 'frame' in focus or 'overlap' in focus:
                    same_ray('%s:moves-operand' % op, dense(pool[i].data), val[i], where)
    return n

def replay_arith(case): return replay(case, {'value'})
def replay_overlap(case): return replay(case, {'overlap'})
def replay_frame(case): return replay(case, {'frame'})

def cases(ctx, kinds, n, depth, seq, branch=False, MaxL=4, seed0=0):
    s = ctx.seeds(n)
    return ctx.tlc('Pool', dict(SeedLo=s['SeedLo']+seed0, SeedHi=s['SeedHi']+seed0, Depth=depth, Branch=branch, MaxL=MaxL,
                                Kinds=set(kinds), KindSeq='<- ' + seq),
                   invariants=['Denotes', 'Sizes', 'Laws', 'EmitAtEnd'], properties=['Frame'])
ARITH = ["add", "mul", "imul", "idiv", "iadd", "isub", "apply", "extend", "append", "prod", "copy", "pack"]
OVER = ["mul", "imul", "apply", "copy", "lcan", "rcan", "mcan", "morth", "overlap", "full_overlap", "norm", "prod_overlap", "local_overlap", "approx_overlap", "prod", "proj"]
HEAP = ["add", "mul", "apply", "copy", "pack", "extend", "imul", "overlap", "norm", "full_overlap", "lcan", "rcan", "mcan", "morth", "lorth", "rorth",
        "E", "Ek", "rho", "set", "gate", "look", "entropy", "local_overlap"]
