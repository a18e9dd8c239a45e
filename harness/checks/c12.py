import numpy as np
from lib import Bad
from chain import *

def assembled(ts, d, L):
    return sum(kron(np.eye(d**k), t, np.eye(d**(L-2-k))) for k, t in enumerate(ts))

def replay_energy(case):
    from xmps.fMPS import fMPS
    i = case['init']; d, L = i['d'], i['L']
    m = fMPS(tensors(i['tensors']))
    n, done, psi = 0, [], cx(i['psi'])
    for h in case['hist']:
        op = h['op']
        done.append(op)
        where = 'seed %s (%s)' % (case['seed'], ' '.join(done))
        if op == 'lcan': m = m.left_canonicalise()
        elif op == 'rcan': m = m.right_canonicalise()
        elif op == 'reset': m = fMPS(tensors(i['tensors']))
        elif op != 'swap':
            ts = [cx(t) for t in h['ts']]
            want = sum(h['es'])*h['w']/h['den']
            if op == 'full':
                got = m.energy(assembled(ts, d, L), fullH=True)
            else:
                if case['seed'] % 2:
                    ts = [t.reshape([d]*4) for t in ts]
                got = m.energy(ts)
                for k, (t, e) in enumerate(zip(ts, h['es'])):     # one term at a time
                    z = [np.zeros_like(x) for x in ts]; z[k] = t
                    close('energy:term', np.array(m.energy(z)), np.array(e*h['w']/h['den']), where + ' term %d' % k)
                    n += 1
                same_ray('energy:ray', dense(m.data), psi, where)
            close('energy:' + op, np.array(got), np.array(want), where)
            n += 1
    return n

from checks import words

def run(ctx):
    s = ctx.seeds(700, 6000)
    rows = ctx.tlc('Energy', dict(s, Depth=7, MaxL=5, MaxD=3), invariants=['Adds', 'EmitAtEnd'])
    ctx.replay(replay_energy, rows, kind='energies')
    ctx.replay(words.replay_energy, words.words(ctx, 150, 2500, 'AnyCall', seed0=40000), kind='words-on-long-chains')
