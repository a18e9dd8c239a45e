import numpy as np
from lib import Bad
from chain import cx, close

def arrays(req):
    out = []
    for data, shape in zip(req['tensors'], req['r']['shapes']):
        a = cx(data).reshape(-1)
        n = int(np.prod(shape)) if shape else 1
        out.append((a if a.size == n else np.resize(a, n)).reshape(shape))
    return out

def nested(x):
    return [list(y) for y in x]

def replay_net(case):
    from xmps.ncon import ncon
    req, order, fo = case['req'], case['order'], case['req']['r']['forder']
    lists = req['r']['lists']
    want = cx(case['val']['data']).reshape(case['val']['dims'])
    AA = arrays(req)
    real = all(np.all(a.imag == 0) for a in AA)
    where = 'seed %s: %s' % (case['seed'], lists)
    default = sorted(fo, reverse=True) == fo
    ways = [dict(order=list(order), forder=list(fo)), dict(forder=list(fo)), dict(order=list(order), forder=list(fo), check_indices=False)]
    if default:
        ways += [dict(order=list(order)), dict()]
    n = 0
    for i, kw in enumerate(ways):
        args = [a.copy() for a in AA]
        v = nested(lists)
        if i % 2:
            args, v = tuple(args), tuple(tuple(x) for x in v)
        ncon(args, v, **kw)          # asking twice with the same arguments gives the same
        r = np.asarray(ncon(args, v, **kw))
        w = '%s order %s forder %s' % (where, kw.get('order'), kw.get('forder'))
        if r.shape != want.shape:
            raise Bad('ncon:shape', '%s: %r, expected %r' % (w, r.shape, want.shape))
        close('ncon:value', r, want, w, tol=1e-11)
        n += 1
    if len(AA) == 1 and lists[0]:
        close('ncon:single', np.asarray(ncon(AA[0], list(lists[0]), list(order), list(fo))), want, where, tol=1e-11)
        n += 1
    return n

def replay_args(case):
    """C11: the arguments are as they were"""
    from xmps.ncon import ncon
    req, order, fo = case['req'], case['order'], case['req']['r']['forder']
    lists = req['r']['lists']
    AA = arrays(req)
    args, v, kw = [a.copy() for a in AA], nested(lists), dict(order=list(order), forder=list(fo))
    ncon(args, v, **kw)
    where = 'seed %s: %s order %s forder %s' % (case['seed'], lists, order, fo)
    if kw != dict(order=list(order), forder=list(fo)):
        raise Bad('ncon:changes-order', '%s: became %s' % (where, kw))
    if v != nested(lists) or len(args) != len(AA) or any(not np.array_equal(a, b) or a.shape != b.shape for a, b in zip(args, AA)):
        raise Bad('ncon:changes-arguments', where)
    return 1

def replay_spoilt(case):
    from xmps.ncon import ncon
    req, fo = case['req'], case['req']['r']['forder']
    lists = req['r']['lists']
    if req['legal']:
        return 0
    AA = arrays(req)
    for kw in (dict(), dict(forder=list(fo))):
        try:
            r = ncon([a.copy() for a in AA], nested(lists), **kw)
        except Exception:
            continue
        raise Bad('ncon:accepts-malformed', 'seed %s: lists %s shapes %s %s gave shape %r' %
                  (case['seed'], lists, [a.shape for a in AA], kw, np.shape(r)))
    return 2

def run(ctx):
    q = ctx.quick
    inv = ['Same', 'Done', 'GeneratedIsLegal', 'EmitAtEnd']
    s = ctx.seeds(1500, 12000)
    ctx.replay(replay_net, ctx.tlc('NCon', dict(s, Branch=False, MaxT=4, Damage=False), invariants=inv), kind='one-order')
    s = ctx.seeds(150, 1000)
    ctx.replay(replay_net, ctx.tlc('NCon', dict(SeedLo=s['SeedLo']+20000, SeedHi=s['SeedHi']+20000, Branch=True, MaxT=4, Damage=False), invariants=inv), kind='all-orders')
    s = ctx.seeds(1500, 8000)
    rows = ctx.tlc('NCon', dict(SeedLo=s['SeedLo']+40000, SeedHi=s['SeedHi']+40000, Branch=False, MaxT=4, Damage=True), invariants=inv)
    ctx.replay(replay_spoilt, [r for r in rows if not r['req']['legal']], kind='malformed')
