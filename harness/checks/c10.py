import os, shutil, tempfile
import numpy as np
from lib import Bad, SCRATCH
from chain import *

def shapes_of(o):
    return [(o['d'], o['bs'][k], o['bs'][k+1]) for k in range(o['L'])]

def replay_files(case):
    here = tempfile.mkdtemp(dir=SCRATCH)
    try:
        return _replay(case, here)
    finally:
        shutil.rmtree(here, ignore_errors=True)

def _replay(case, here):
    from xmps.fMPS import fMPS
    from xmps.iMPS import iMPS
    obj, want, content, vecs = {}, {}, {}, {}
    n, done = 0, []

    def same(key, data, id, where):
        ref = content[id]
        if len(data) != len(ref):
            raise Bad(key + ':length', '%s: %d tensors, expected %d' % (where, len(data), len(ref)))
        for k, (a, b) in enumerate(zip(data, ref)):
            a = np.asarray(a)
            if a.shape != b.shape:
                raise Bad(key + ':shape', '%s: site %d has shape %s, expected %s' % (where, k, a.shape, b.shape))
            if not np.array_equal(a, b):
                raise Bad(key + ':entries', '%s: site %d differs by %.3g' % (where, k, np.max(np.abs(a-b))))

    def meta(key, m, h, where):
        o = h['o']
        if o['cls'] == 'f':
            got, exp = (m.L, m.d, m.D), (o['L'], o['d'], h['D'])
        else:
            got, exp = (m.period, m.d, m.D), (o['L'], o['d'], h['D'])
        if got != exp:
            raise Bad(key + ':meta', '%s: length/period, d, D are %s, expected %s' % (where, got, exp))

    for h in case['hist']:
        op = h['op']
        done.append(op)
        where = 'seed %s (%s)' % (case['seed'], ' '.join(done))
        if op == 'new':
            As = tensors(h['As'])
            if case['seed'] % 3 == 0 and all(np.all(a.imag == 0) for a in As):
                As = [a.real.copy() for a in As]
            obj[h['to']] = fMPS(As) if h['o']['cls'] == 'f' else iMPS(As)
            want[h['to']] = h['o']['id']
            content[h['o']['id']] = [np.array(a) for a in As]
        elif op == 'set':
            m = obj[h['o']]
            m[h['k']] = cx(h['T'])
            ref = [np.array(a) for a in content[want[h['o']]]]
            ref[h['k']] = cx(h['T'])
            content[h['id']] = ref
            want[h['o']] = h['id']
        elif op == 'scale':
            by = complex(*h['by'])
            new = obj[h['o']]*by
            for k, (a, b) in enumerate(zip(new.data, content[want[h['o']]])):
                if a.shape != b.shape:
                    raise Bad('scale:shape', where)
                if not np.allclose(a, b*by, rtol=1e-12, atol=0):
                    raise Bad('scale:entries', where)
            content[h['id']] = [np.array(a) for a in new.data]
            obj[h['to']] = new
            want[h['to']] = h['id']
        elif op == 'form':
            m = obj[h['o']]
            if h['sweep']:
                (m.left_canonicalise if h['hand'] == 'l' else m.right_canonicalise)(*([h['D']] if h['D'] else []))
                if bonds(m.data) != h['bs']:
                    # the profile is the model's; a singular case is not one to go on with
                    s = [x.shape for x in m.data]
                    raise Bad('form:profile', '%s: %s, expected bonds %s' % (where, s, h['bs']))
            else:
                m[0] = 1.5*m[0]
            content[h['id']] = [np.array(a) for a in m.data]
            want[h['o']] = h['id']
        elif op == 'pack':
            m = obj[h['o']]
            v = m.serialize(real=True) if h['real'] else m.serialize()
            if h['real'] and np.iscomplexobj(v):
                raise Bad('pack:real', where)
            if len(v) != sum(a.size for a in content[want[h['o']]])*(2 if h['real'] else 1):
                raise Bad('pack:length', '%s: %d entries' % (where, len(v)))
            vecs[h['v']] = (v, want[h['o']], np.array(v))
            n += 1
        elif op == 'unpack':
            v, id, keep = vecs[h['v']]
            o = h['o']
            if o['cls'] == 'i':
                m = iMPS().deserialize(v, o['d'], h['D'], o['L'], real=h['real'])
            elif h['shapes']:
                m = fMPS().deserialize(v, real=h['real'], structure=shapes_of(o))
            else:
                m = fMPS().deserialize(v, o['L'], o['d'], h['D'], h['real'])
            same('unpack', m.data, id, where)
            meta('unpack', m, h, where)
            if not np.array_equal(v, keep):
                raise Bad('unpack:vector', '%s: the vector was changed' % where)
            obj[h['to']], want[h['to']] = m, id
            n += 1
        elif op == 'store':
            m = obj[h['o']]
            name = os.path.join(here, h['f'] + ('.npy' if h['suffix'] else ''))
            m.store(name, structured=True) if h['structured'] else m.store(name)
            n += 1
        elif op == 'load':
            name = os.path.join(here, h['f'] + '.npy')
            o = h['o']
            via = obj[h['via']] if h['via'] else (fMPS() if o['cls'] == 'f' else iMPS())
            says = lambda m: (m.L if o['cls'] == 'f' else m.period, m.d, m.D)
            before = says(via) if h['via'] else None
            m = via.load(name, structured=True) if h['structured'] else via.load(name)
            same('load', m.data, o['id'], where)
            meta('load', m, h, where)
            if before and says(via) != before:
                raise Bad('load:via', '%s: the object it was read through now says %s, not %s' % (where, says(via), before))
            obj[h['to']], want[h['to']] = m, o['id']
            n += 1
        # nothing else moved
        for s, m in obj.items():
            same('alive', m.data, want[s], where + ' object %d' % s)
    return n

from checks import words

def run(ctx):
    s = ctx.seeds(900, 12000)
    rows = ctx.tlc('Files', dict(s, Depth=18), invariants=['LastPut', 'Readable', 'OneShape', 'EmitAtEnd'], timeout=1500)
    ctx.replay(replay_files, rows, kind='files')
    ctx.replay(words.replay_pack, words.words(ctx, 150, 2500, 'AnyCall', seed0=40000), kind='words-on-long-chains')
