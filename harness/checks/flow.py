"""Evolves real states along the exact orbits of Flow.tla."""
import numpy as np
from lib import Bad
from chain import *
from checks.traj import spectrum, unit
from scipy.linalg import expm

def angle(a):
    return float(np.arctan2(a[1], a[0]))

def replay_flow(case):
    from xmps.fMPS import fMPS
    from xmps.fTDVP import Trajectory
    ini = case['init']
    L, lst = ini['L'], ini['list']
    f = angle(ini['ang'])
    Hf = cx(ini['whole'])
    # the same orbit, the time stretched so that |H| = 1
    c = max(1.0, np.linalg.norm(Hf, 2))
    Hf = Hf/c
    H = [cx(t)/c for t in ini['terms']] if lst else Hf
    f = f*c
    where = 'seed %s family %d list=%s L=%d' % (case['seed'], ini['fam'], lst, L)
    orbit = [unit(cx(v)) for v in case['hist']]
    n = 0
    start = fMPS([t for t in tensors(ini['tensors'])]).left_canonicalise()
    same_ray('start', dense(start.data), orbit[0], where)
    # the dense exponential agrees with the exact orbit (guards this harness)
    for a, b in zip(orbit, orbit[1:]):
        if ray_residual(expm(-1j*Hf*f)@a, b) > 1e-9:
            raise RuntimeError('harness exponential disagrees with the model: ' + where)
    ticks = len(orbit) - 1
    Ttot = f*ticks

    def fresh():
        return fMPS([np.array(x) for x in start.data])
    psi0 = dense(start.data)

    # exact diagonalisation: every recorded state
    sub = 3
    T = np.linspace(0, Ttot, sub*ticks + 1)
    tr = Trajectory(fresh(), H=H, fullH=not lst)
    tr.edint(T)
    if len(tr.ed_history) != len(T):
        raise Bad('ed:count', where)
    for i, v in enumerate(tr.ed_history):
        want = expm(-1j*Hf*T[i])@psi0
        close('ed:state', v, want, '%s time %d' % (where, i))
        if i % sub == 0:
            same_ray('ed:orbit', v, orbit[i//sub], '%s tick %d' % (where, i//sub))
        n += 1
    same_ray('ed:current', dense(tr.mps.data), orbit[-1], where)
    T = Ttot*np.linspace(0, 1, sub*ticks + 1)**1.7
    tr = Trajectory(fresh(), H=H, fullH=not lst)
    tr.edint(T)
    for i, v in enumerate(tr.ed_history):
        close('ed:uneven', v, expm(-1j*Hf*T[i])@psi0, '%s time %d' % (where, i))
    T = np.linspace(0, Ttot, sub*ticks + 1)
    tr = Trajectory(fresh(), H=H, fullH=not lst)
    tr.edint(T)
    V = cx(ini['V'])
    close('ed:evs', tr.ed_evs([V])[:, 0], [np.real(np.vdot(v, V@v)) for v in [expm(-1j*Hf*t)@psi0 for t in T]], where, tol=1e-6)
    if not lst:
        W = np.kron(np.kron(np.eye(2**ini['site']), np.diag([1., -1.])), np.eye(2**(L-1-ini['site'])))
        got = Trajectory(fresh(), H=H, fullH=True).ed_OTOC([0., f], (V, W))
        want = []
        for t in (0., f):
            U = expm(-1j*Hf*t); Wt = U.conj().T@W@U
            C = Wt@V - V@Wt
            want.append(np.linalg.norm(C@psi0)**2)
        close('ed:otoc', np.array(got).reshape(-1), want, where, tol=1e-6)
        n += 1

    # how well conditioned the manifold is along the orbit
    low = min(min(s[min(len(s), 2**min(k, L-k)) - 1] for k, s in enumerate(spectrum(unit(expm(-1j*Hf*t)@psi0), 2, L)))
              for t in np.linspace(0, Ttot, 40))
    if low < 2e-2:
        return n

    def run(kind, N, grid=1.0):
        T = Ttot*np.linspace(0, 1, N + 1)**grid
        tr = Trajectory(fresh(), H=H, fullH=not lst)
        getattr(tr, kind)(T)
        got = tr.mps_list()
        if len(got) != len(T):
            raise Bad(kind + ':count', where)
        err = []
        for i, m in enumerate(got):
            v = dense(m.data)
            if kind != 'odeint' and not abs(np.linalg.norm(v) - 1) <= 1e-7:
                raise Bad(kind + ':norm', '%s: norm %.3g at time %d' % (where, np.linalg.norm(v), i))
            err.append(ray_residual(v, expm(-1j*Hf*T[i])@psi0))
        if ray_residual(dense(tr.mps.data), dense(got[-1].data)) > 1e-7:
            raise Bad(kind + ':current', where)
        return max(err)
    base = int(np.ceil(6*Ttot))
    e = [run('rk4int', base*k) for k in (1, 2, 4)]
    if not (e[2] < 1e-9 or e[1]/e[2] > 2**3.3 or (e[0]/e[2] > 2**7 )):
        raise Bad('rk4:order', '%s: errors %s for steps %d, %d, %d' % (where, e, base, 2*base, 4*base))
    if not e[2] < 2e-3:
        raise Bad('rk4:error', '%s: error %s after %d steps' % (where, e[2], 4*base))
    n += 2
    e = [run('eulerint', base*k) for k in (4, 8, 16)]
    if not (e[2] < 1e-9 or e[1]/e[2] > 2**0.75):
        raise Bad('euler:order', '%s: errors %s' % (where, e))
    if not e[2] < 0.3:
        raise Bad('euler:error', '%s: errors %s' % (where, e))
    n += 2
    x = run('odeint', base)
    if not x < 2e-2:
        raise Bad('odeint:error', '%s: error %s' % (where, x))
    # times that are not equally spaced
    if case['seed'] % 3:
        return n + 1
    x = run('rk4int', 6*base, 1.5)
    if not x < 2e-3:
        raise Bad('rk4:uneven', '%s: error %s' % (where, x))
    x = run('eulerint', 12*base, 1.5)
    if not x < 0.5:
        raise Bad('euler:uneven', '%s: error %s' % (where, x))
    return n + 2

def orbits(ctx, n, ticks, MaxL=4, seed0=0):
    s = ctx.seeds(n)
    return ctx.tlc('Flow', dict(SeedLo=s['SeedLo']+seed0, SeedHi=s['SeedHi']+seed0, Ticks=ticks, MaxL=MaxL),
                   invariants=['PiecesRight', 'Conserved', 'Reversible', 'EmitAtEnd'])
