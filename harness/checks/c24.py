import numpy as np
from lib import Bad
from chain import cx, close, tensors

def operator(js):
    from xmps.fPEPS import fMPO
    return fMPO([cx(t['data']).reshape(t['dims']) for t in js])

def tens(js):
    return [cx(t['data']).reshape(t['dims']) for t in js]

def same(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(a, b))

def agrees(m, M, key, where):
    got = np.asarray(m.recombine())
    if got.shape != M.shape:
        raise Bad(key + ':shape', '%s: %s, expected %s' % (where, got.shape, M.shape))
    close(key, got, M, where, tol=1e-10*max(1, np.abs(M).max()))

def copied(m):
    from xmps.fPEPS import fMPO
    return fMPO([x.copy() for x in m.data])

def replay(case):
    from xmps.fPEPS import fMPO
    from xmps.fMPS import fMPS
    ini, hist = case['ini'], case['hist']
    n, d = ini['n'], ini['d']
    M = cx(ini['mat'])
    where = 'seed %s n=%s %s' % (case['seed'], n, ini['kind'])
    if ini['kind'] == 'state':
        state = fMPS(tensors(ini['chain']))
        m = fMPO().from_mps(state)
        if not same(m.data, tens(ini['ops'])):
            raise Bad('from_mps:legs', where)
        close('from_mps', np.asarray(m.recombine()).reshape(-1), np.conj(np.asarray(state.recombine()).reshape(-1)), where)
        if m.L != n or m.d != d:
            raise Bad('from_mps:size', where)
    else:
        m = operator(ini['ops'])
    agrees(m, M, 'start', where)
    if m.L != n or [tuple(s) for s in m.structure()] != [tuple(t['dims']) for t in ini['ops']]:
        raise Bad('start:size', where)
    # operators made by the class
    rng = np.random.RandomState(case['seed'])
    np.random.seed(case['seed'])
    r = fMPO().random(n, d, 2)
    if r.L != n or len(r.data) != n or np.asarray(r.recombine()).shape != (d**n, d**n):
        raise Bad('random', where)
    one = fMPO().trivial(n)
    if len(one.data) != n or not np.allclose(one.recombine(), [[1]]):
        raise Bad('trivial', where)
    count = 1
    for k, s in enumerate(hist):
        op, wh = s['op'], '%s step %d %s' % (where, k, s['op'])
        kept, before = m, [x.copy() for x in m.data]
        if op in ('before', 'after'):
            o = operator(s['other'])
            o0 = [x.copy() for x in o.data]
            m = m*o if op == 'before' else o*m
            if m.X < max(b for t in m.data for b in (t.shape[1], t.shape[3])):
                raise Bad('product:X', wh)
            if not same(o.data, o0):
                raise Bad(op + ':argument', wh)
        elif op == 'state':
            state = fMPS(tensors(s['chain']))
            s0 = [x.copy() for x in state.data]
            out = m*state
            close('state', np.asarray(out.recombine()).reshape(-1), cx(s['e']), wh, tol=1e-10*max(1, np.abs(cx(s['e'])).max()))
            if not same(state.data, s0):
                raise Bad('state:argument', wh)
        elif op == 'ud':
            q = copied(m).transpose_ud()
            m = q
        elif op == 'mirror':
            q = copied(m)
            q.transpose_lr()
            q.reverse()
            alt = copied(m).reverse().transpose_lr()
            if not same(alt.data, q.data):
                raise Bad('mirror:order', wh)
            m = q
        elif op == 'turn':
            if not same(m.rotate_90().data, tens(s['cw'])) or not same(m.unrotate_90().data, tens(s['ccw'])):
                raise Bad('turn', wh)
        elif op == 'round':
            if not same(m.rotate_90().unrotate_90().data, before) or not same(m.unrotate_90().rotate_90().data, before):
                raise Bad('round', wh)
            eye = fMPO([np.eye(x.shape[0]).reshape(x.shape[0], 1, x.shape[0], 1) for x in m.data])
            if not same((m*eye).data, before):
                raise Bad('identity:right', wh)
            eye = fMPO([np.eye(x.shape[2]).reshape(x.shape[2], 1, x.shape[2], 1) for x in m.data])
            if not same((eye*m).data, before):
                raise Bad('identity:left', wh)
        if not same(kept.data, before):
            raise Bad(op + ':changes-operator', wh)
        if 'mat' in s:
            M = cx(s['mat'])
        agrees(m, M, op, wh)
        count += 1
    return count

def run(ctx):
    rows = ctx.tlc('Mpo', dict(ctx.seeds(250, 6000), Depth=4), invariants=['Denotes', 'Fits', 'Known', 'Cyclic', 'EmitAtEnd'], timeout=1500)
    ctx.replay(replay, rows, kind='operator', limit=120)
