import numpy as np
from lib import Bad
from chain import *
from checks.c12 import assembled
from checks.c16 import tangents, velocity, inside

def frame(m, before, where):
    if any(a.shape != b.shape or np.max(np.abs(a-b), initial=0) > 0 for a, b in zip(m.data, before)):
        raise Bad('frame', '%s: the state it was asked about changed' % where)

def grown(As, want, where, key):
    sh = [A.shape[1] for A in As] + [As[-1].shape[2]]
    if sh != want or any(A.shape[2] != B.shape[1] for A, B in zip(As, As[1:])):
        raise Bad(key + ':bonds', '%s: bonds %s, expected %s' % (where, sh, want))

def envs(As):
    l = [np.eye(1)]
    for A in As:
        l.append(sum(B.conj().T@l[-1]@B for B in A))
    r = [np.eye(1)]
    for A in As[::-1]:
        r.append(sum(B@r[-1]@B.conj().T for B in A))
    return l, r[::-1]

def replay_grow(case):
    from xmps.fMPS import fMPS
    from xmps.fTDVP import Trajectory
    i = case['init']; d, L, bs = i['d'], i['L'], i['bonds']
    psi = cx(i['psi'])
    T = tangents(tensors(i['tensors']))
    cond = [np.linalg.svd(psi.reshape(d**k, -1)/np.linalg.norm(psi), compute_uv=False) for k in range(1, L)]
    low = min([1.] + [x[b-1] for x, b in zip(cond, bs[1:])])
    if low < 1e-2:
        return 0
    tol0 = 1e-9/low**3
    tol = tol0
    m = fMPS([np.array(A) for A in tensors(i['tensors'])])
    n, done = 0, []
    for h in case['hist']:
        op = h['op']
        done.append(op)
        where = 'seed %s (%s)' % (case['seed'], ' '.join(done))
        before = [np.array(A) for A in m.data]
        if op == 'lcan': m = m.left_canonicalise(); tol = tol0
        elif op == 'rcan': m = m.right_canonicalise(); tol = tol0
        elif op == 'shear':
            k, g = h['k'], cx(h['g'])
            A = [np.array(a) for a in m.data]
            A[k] = A[k]@g
            A[k+1] = np.linalg.inv(g)@A[k+1]
            m = fMPS(A)
            tol = tol0*1e3
        elif op == 'error':
            ts = [cx(t) for t in h['ts']]
            hv = cx(h['hv'])/np.sqrt(h['n'])
            U, s, _ = np.linalg.svd((T/np.linalg.norm(T, axis=1)[:, None].clip(1e-300)).T, full_matrices=False)
            U = U[:, s > 1e-9*s[0]]
            want = np.linalg.norm(hv - U@(U.conj().T@hv))**2
            if h['inside']:
                if want > 1e-12*max(1, np.linalg.norm(hv)**2):
                    raise Exception('model: %s' % want)
                want = 0.
            scale = max(1., np.linalg.norm(hv)**2)
            for dt in (0.1, 1.):
                x = m.projection_error(ts, dt)
                close('error', np.array(x), np.array(dt**2*want), where, tol=tol*scale)
                n += 1
            frame(m, before, where)
            for t in ((want*4, want/4) if want > 1e3*tol*scale else (1e4*tol*scale, None)):
                if t is not None and bool(m.should_expand(ts, 1., t)) != (want > t):
                    raise Bad('should_expand', '%s: error %.6g, threshold %.6g: %s' % (where, want, t, m.should_expand(ts, 1., t)))
                if t is not None and want < t:
                    q = m.copy().dynamical_expand(ts, 1., 2*max(bs), t)
                    frame(q, before, where)
                n += 1
        elif op == 'step':
            ts = [cx(t) for t in h['ts']]
            phase = np.vdot(psi, dense(m.data)); phase /= abs(phase)
            want = -1j*cx(h['G'])/h['n']**1.5*phase
            scale = max(1., np.linalg.norm(want), max(np.linalg.norm(t) for t in ts))
            dt = 1e-7
            q = m.copy()
            q = q.dynamical_expand(ts, dt, h['D'], None)
            grown(q.data, h['bonds'], where, 'step')
            if q.D != max(h['bonds']):
                raise Bad('step:D', '%s: D = %s with bonds %s' % (where, q.D, h['bonds']))
            frame(m, before, where)
            v = (dense(q.data) - dense(m.data))/dt
            t2 = max(2e-7*(scale/low)**2, 1e-7) + tol*scale
            Tn = T.T
            U, s, _ = np.linalg.svd((T/np.linalg.norm(T, axis=1)[:, None].clip(1e-300)).T, full_matrices=False)
            U = U[:, s > 1e-9*s[0]]
            e = np.linalg.norm(U.conj().T@(v - want))
            if not e <= t2:
                raise Bad('step:tangent', '%s: the step is off by %.3g along the tangent space' % (where, e))
            e = np.linalg.norm(v - want)
            out = np.linalg.norm(want - U@(U.conj().T@want))
            if h['whole'] and not e <= t2:
                raise Bad('step:whole', '%s: the step is off by %.3g of %.3g' % (where, e, np.linalg.norm(want)))
            if not e <= out + t2:
                raise Bad('step:best', '%s: further from the exact step (%.6g) than the old manifold allows (%.6g)' % (where, e, out))
            if h['D'] > max(bs) and out > 0.1 and h['bonds'] != bs and not e < out:
                raise Bad('step:gain', '%s: no closer to the exact step than the old manifold (%.6g)' % (where, out))
            n += 4
            # the same through a trajectory
            for own in (True, False):
                t = Trajectory(m.copy(), H=ts if own else [0*x for x in ts])
                t.dynamical_expand(h['D'], dt, *(() if own else (ts,)))
                for a, b in zip(t.mps.data, q.data):
                    close('step:trajectory', a, b, where, tol=1e-12)
                if t.Ds[-1] != max(h['bonds']):
                    raise Bad('step:record', '%s: recorded bond dimension %s' % (where, t.Ds))
            n += 2
        elif op == 'grow':
            ts = [cx(t) for t in h['ts']]
            dt = 1e-3*low
            try:
                q = m.copy().grow(ts, dt, h['D'])
            except np.linalg.LinAlgError:
                # only when an earlier step left a bond without weight
                q = m.copy()
                weak = False
                while not weak and q.D < min(h['D'], d**(L//2)):
                    q.dynamical_expand(ts, dt, min(d*q.D, h['D']), None)
                    v = dense(q.data)
                    weak = min(np.linalg.svd(v.reshape(d**k, -1), compute_uv=False)[:q.data[k].shape[1]].min() for k in range(1, L)) < 1e-7
                if not weak:
                    raise Bad('grow:raised', '%s: raised on a state of full rank' % where)
                continue
            grown(q.data, h['bonds'], where, 'grow')
            if not h['steps']:
                frame(q, before, where)
            frame(m, before, where)
            if not m.grow(ts, dt, None) is m:
                raise Bad('grow:none', where)
            frame(m, before, where)
            n += 2
        elif op == 'expand':
            q = m.copy()
            q.expand(h['D'])
            grown(q.data, h['bonds'], where, 'expand')
            same_ray('expand:ray', dense(q.data), psi, where)
            close('expand:unit', np.array(np.linalg.norm(dense(q.data))), np.array(1.), where)
            for a in q.data:
                left_ok = np.linalg.norm(left_iso(a))
                if not left_ok < 1e-8:
                    raise Bad('expand:form', '%s: not left canonical (%.3g)' % (where, left_ok))
            t = Trajectory(m.copy()).expand(h['D'])
            same_ray('expand:trajectory', dense(t.mps.data), psi, where)
            if t.Ds[-1] != max(h['bonds']):
                raise Bad('expand:record', '%s: %s' % (where, t.Ds))
            frame(m, before, where)
            t.contract(max(bs))
            same_ray('contract', dense(t.mps.data), psi, where, tol=1e-7)
            n += 5
        elif op == 'match':
            us = [cx(u['m'])/u['n'] for u in h['us']]
            A = [np.array(a) for a in m.data]
            for k, u in enumerate(us):
                A[k] = A[k]@u
                A[k+1] = u.conj().T@A[k+1]
            q = fMPS(A).match_gauge_to(m)
            # the largest condition of a site's row space decides the accuracy
            sv = min(np.linalg.svd(sum(B@B.conj().T for B in a), compute_uv=False)[-1]/np.linalg.norm(a)**2 for a in m.data)
            for a, b in zip(q.data, m.data):
                close('match:tensors', a, b, where, tol=max(1e-9, 1e-11/max(sv, 1e-12)))
            frame(m, before, where)
            n += 1
            for o in ('other', 'other2'):
                ot = fMPS(tensors(h[o]))
                ot0 = [np.array(a) for a in ot.data]
                q = m.copy().match_gauge_to(ot)
                same_ray('match:ray', dense(q.data), psi, where, tol=tol)
                frame(ot, ot0, where)
                grown(q.data, bs, where, 'match')
                # only unitaries on the bonds: what each site carries is unchanged
                for a, b in zip(q.data, m.data):
                    close('match:unitary', np.linalg.svd(a.transpose(1, 0, 2).reshape(a.shape[1], -1), compute_uv=False),
                          np.linalg.svd(b.transpose(1, 0, 2).reshape(b.shape[1], -1), compute_uv=False), where, tol=1e-9)
                # and after matching, every site overlaps its reference as much as it can
                for k, (a, b) in enumerate(zip(q.data, ot.data)):
                    S = sum(x@y.conj().T for x, y in zip(a, b))
                    if k and not np.linalg.norm(S - S.conj().T) <= 1e-9*max(1, np.linalg.norm(S)):
                        raise Bad('match:best', '%s: site %s could be closer to the reference' % (where, k))
                n += 3
        elif op == 'tangent':
            k = h['k']
            if h['rows']:
                x = cx(h['x']).reshape(h['rows'], h['cols'])
                As = m.data
                t = m.tangent_state(x, k)
                vs = dense(t.data)
                vL = m.left_null_projector(k, get_vL=True, store_envs=True)[1]
                close('tangent_state:norm', np.array(np.linalg.norm(vs)), np.array(np.linalg.norm(x)), where, tol=tol)
                inside(vs, T, psi, where, tol*max(1, np.linalg.norm(x)), 'tangent_state')
                close('tangent_state:vL', dense(m.tangent_state(x, k, vL=vL).data), vs, where, tol=tol)
                l, r = m.get_envs()
                close('tangent_state:envs', dense(m.tangent_state(x, k, envs=(l, r)).data), vs, where, tol=tol)
                # the same vector as the packed one
                dims = m.tangent_space_dims()
                z = np.concatenate([x.reshape(-1) if j == k else np.zeros(a*b) for j, (a, b) in enumerate(dims)])
                close('tangent_state:packed', velocity(As, m.import_tangent_vector(z).data, where), vs, where, tol=tol)
                n += 4
            if h['all']:
                z = cx(h['all'])
                dA = m.import_tangent_vector(z)
                v = velocity(m.data, dA.data, where)
                inside(v, T, psi, where, tol*max(1, np.linalg.norm(z)), 'pack')
                close('pack:norm', np.array(np.linalg.norm(v)), np.array(np.linalg.norm(z)), where, tol=tol)
                close('pack:lossless', m.extract_tangent_vector(dA), z, where, tol=tol)
                n += 3
                for kind in ('eye', 'rand'):
                    Q = m.tangent_space_basis(type=kind)
                    close('basis:' + kind, Q@Q.conj().T, np.eye(len(z)), where)
                n += 2
            frame(m, before, where)
        elif op == 'null':
            l, r = envs(m.data)
            for k, A in enumerate(m.data):
                P = m.left_null_projector(k, store_envs=True)
                s = A.shape[0]*A.shape[1]
                M = P.reshape(s, s)
                W = np.kron(np.eye(d), l[k])
                sc = max(1., np.linalg.norm(M))
                # x = l^-1/2 v: M = x x+, orthonormal for l, orthogonal to the tensor
                close('null:left:projector', M@W@M/sc, M/sc, where, tol=tol)
                close('null:left:tensor', A.reshape(s, -1).conj().T@W@M/sc, np.zeros((A.shape[2], s)), where, tol=tol)
                close('null:left:hermitian', M/sc, M.conj().T/sc, where, tol=tol)
                close('null:left:rank', np.array(np.trace(W@M).real), np.array(float(h['left'][k])), where, tol=tol)
                P = m.right_null_projector(k, store_envs=True)
                s = A.shape[0]*A.shape[2]
                M = P.reshape(s, s)
                W = np.kron(np.eye(d), r[k+1].T)
                sc = max(1., np.linalg.norm(M))
                B = A.transpose(0, 2, 1).reshape(s, -1)
                close('null:right:projector', M@W@M/sc, M/sc, where, tol=tol)
                close('null:right:tensor', B.conj().T@W@M/sc, np.zeros((A.shape[1], s)), where, tol=tol)
                close('null:right:hermitian', M/sc, M.conj().T/sc, where, tol=tol)
                close('null:right:rank', np.array(np.trace(W@M).real), np.array(float(h['right'][k])), where, tol=tol)
                n += 8
            frame(m, before, where)
        same_ray('ray', dense(m.data), psi, where)
    return n

def run(ctx):
    s = ctx.seeds(500, 6000)
    rows = ctx.tlc('Grow', dict(s, Depth=7, MaxL=5, MaxD=3), invariants=['InsideTrue', 'Profiles', 'Matching', 'EmitAtEnd'], timeout=1500)
    ctx.replay(replay_grow, rows, kind='grow', limit=120)
