import numpy as np
from lib import Bad
from chain import cx, close, kron, own

N = 'XYZ'
def strings(case):
    u = case['coef']['u']
    c, out = {k: np.array(case['coef'][k])/u for k in 'fj'}, {}
    rs = np.random.RandomState(case['seed'] % 2**31)
    for a in range(3):
        if c['f'][a]:
            if rs.randint(3):
                out[N[a]] = float(c['f'][a])
            else:                       # the same field written out
                out['I' + N[a]] = float(c['f'][a]); out[N[a] + 'I'] = float(c['f'][a])
        for b in range(3):
            if c['j'][a][b]:
                out[N[a] + N[b]] = float(c['j'][a][b])
    keys = list(out)
    rs.shuffle(keys)
    return {k: out[k] for k in keys}

def assemble(ts, L):
    return sum(kron(np.eye(2**i), t, np.eye(2**(L-2-i))) for i, t in enumerate(ts))

def replay_ham(case):
    from xmps.Hamiltonians import Hamiltonian
    st = strings(case)
    given = dict(st)
    H = Hamiltonian(st)
    if st != given:
        raise Bad('ham:changes-argument', 'seed %s: %s became %s' % (case['seed'], given, st))
    n = 0
    done = []
    for h in case['hist']:
        op, L = h['op'], h['L']
        done.append('%s(%d)' % (op, L))
        where = 'seed %s %s: %s' % (case['seed'], given, ' '.join(done))
        if op == 'nompo':
            try:
                W = H.to_mpo(3)
            except NotImplementedError:
                continue
            raise Bad('mpo:accepts', where)
        u = case['coef']['u']
        m = cx(h['m'])/u
        if op in ('full', 'terms', 'mpo', 'local'):
            f = {'full': H.to_full, 'terms': H.to_matrices, 'mpo': H.to_mpo, 'local': lambda L: H.to_matrix()}[op]
            own(op, lambda: f(L), where)
        if op == 'full':
            close('to_full', H.to_full(L), m, where, tol=1e-11)
        elif op == 'terms':
            ts = H.to_matrices(L)
            if len(ts) != L-1:
                raise Bad('to_matrices:count', '%s: %d terms' % (where, len(ts)))
            close('to_matrices:sum', assemble(ts, L), m, where, tol=1e-11)
            for k, (t, w) in enumerate(zip(ts, h['ts'])):
                if np.max(np.abs(t - t.conj().T)) > 1e-12:
                    raise Bad('to_matrices:hermitian', where)
            close('to_matrices:full', Hamiltonian(matrices=ts).to_full(), m, where, tol=1e-11)
        elif op == 'mpo':
            W = H.to_mpo(L)
            if len(W) != L:
                raise Bad('to_mpo:count', where)
            chi = W[0].shape[0]
            v = np.zeros((chi, 1, 1), dtype=complex); v[0] = 1
            for w in W:
                v = np.einsum('axy,abst->bxsyt', v, w)
                v = v.reshape(v.shape[0], v.shape[1]*v.shape[2], -1)
            close('to_mpo', v[-1], m, where, tol=1e-11)
        elif op == 'local':
            close('to_matrix', H.to_matrix(), m, where, tol=1e-11)
        elif op == 'back':
            G = Hamiltonian().from_matrix(m + (case['seed'] % 3)*np.eye(4))
            for k, v in G.strings.items():
                a, b = k
                if a == 'I': w = case['coef']['f'][N.index(b)]
                elif b == 'I': w = case['coef']['f'][N.index(a)]
                else: w = case['coef']['j'][N.index(a)][N.index(b)]
                close('from_matrix', np.array(v), np.array(w)/u, where + ' ' + k, tol=1e-11)
            close('from_matrix:to_matrix', G.to_matrix(), m, where, tol=1e-11)
        elif op == 'given':
            ts = [cx(t)/(2*u) for t in h['ts']]
            G = Hamiltonian(matrices=ts)
            if G.L != L or G.k != 2:
                raise Bad('given:L-k', '%s: L=%s k=%s' % (where, G.L, G.k))
            close('given:full', G.to_full(), m, where, tol=1e-11)
            whole = Hamiltonian(matrices=[m])
            if whole.L != L:
                raise Bad('given:L', where)
            close('given:whole', whole.to_full(), m, where, tol=1e-11)
        elif op == 'listed':
            ts = [cx(t) for t in h['ts']]
            kept = [t.copy() for t in ts]
            G = Hamiltonian(matrices=ts, d=h['d'])
            wh = where + ' d=%d L=%d k=%d' % (h['d'], L, h['k'])
            if G.L != L or G.k != h['k']:
                raise Bad('listed:L-k', '%s: L=%s k=%s' % (wh, G.L, G.k))
            close('listed:full', G.to_full(), cx(h['m']), wh, tol=1e-11)
            close('listed:full', G.to_full(), cx(h['m']), wh + ' again', tol=1e-11)
            if any(not np.array_equal(a, b) for a, b in zip(ts, kept)):
                raise Bad('listed:argument', wh)
            G = Hamiltonian(matrices=[np.zeros((h['size'], h['size']))]*2, d=h['dd'])
            if G.k != h['kk'] or G.L != h['kk'] + 1:
                raise Bad('listed:sites', '%d-dimensional terms of dimension %d: k=%s' % (h['size'], h['dd'], G.k))
        n += 1
    return n

def run(ctx):
    s = ctx.seeds(400, 2500)
    rows = ctx.tlc('Ham', dict(s, Depth=7, MaxL=4 if ctx.quick else 5), invariants=['SameOperator', 'Recovers', 'ListedTrace', 'EmitAtEnd'], properties=['Unchanging'])
    ctx.replay(replay_ham, rows, kind='requests')
