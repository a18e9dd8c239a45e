"""Separation of neighbouring trajectories (Stability.tla) and out-of-time-order correlators (Otoc.tla)."""
import contextlib, io, os, pickle, shutil, tempfile
import numpy as np
from scipy.linalg import expm, schur
from lib import Bad
from chain import cx, close, dense

def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*a, **k)

def start(ini):
    from xmps.fMPS import fMPS
    if ini['kind'] == 'rest':
        return fMPS([(cx(t['v'])/t['den']).reshape(2, 1, 1) for t in ini['sites']]).right_canonicalise()
    if ini['kind'] == 'full':
        return fMPS().left_from_state(cx(ini['psi']).reshape([2]*ini['L'])).right_canonicalise()
    return fMPS([cx(A) for A in ini['chain']]).right_canonicalise()

def spread(J):
    """real parts of the spectrum, largest first"""
    return np.sort(np.linalg.eigvals(J).real)[::-1]

def falling(J):
    """orthonormal directions that the linear motion keeps in order, the fastest first, and where its blocks end"""
    n, rates = len(J), spread(J)
    ends = [k for k in range(1, n+1) if k == n or rates[k-1] - rates[k] > 0.01]
    Q = np.zeros((n, 0))
    for k in ends:
        Z = schur(J, output='real', sort=lambda re, im=0: np.real(re) > rates[k-1] - 0.005)[1]
        new = Z[:, :k] - Q@(Q.T@Z[:, :k])
        u, s, _ = np.linalg.svd(new, full_matrices=False)
        Q = np.hstack([Q, u[:, :k-Q.shape[1]]])
    return Q, ends

def saved(tr, N, where):
    """the records, the directions and the state end up where they were asked to"""
    from xmps.fMPS import fMPS
    loc = tempfile.mkdtemp()
    here = os.getcwd()
    try:
        os.mkdir(os.path.join(loc, 'bases'))
        os.chdir(loc)
        n = len(tr.mps_history)
        lys, v = np.array(tr.lys), tr.mps.recombine().reshape(-1)
        one = hasattr(tr, 'q')
        basis = np.array(tr.q if one else tr.Q)
        tr.run_name = 'run'
        tr.save(loc=os.path.join(loc, ''), clear=False)
        name = 'run_L%d_D%d_N%d' % (tr.mps.L, tr.mps.D, n)
        found = sorted(os.path.relpath(os.path.join(a, f), loc) for a, _, fs in os.walk(loc) for f in fs)
        want = sorted([name+'.npy', 'bases/'+name+'_basis.npy', 'bases/'+name+'_state.npy'])
        if found != want:
            raise Bad('saved', '%s: %s not %s' % (where, found, want))
        close('saved:lys', np.load(os.path.join(loc, name+'.npy')), lys, where, tol=0)
        close('saved:basis', np.load(os.path.join(loc, 'bases', name+'_basis.npy')), basis, where, tol=0)
        got = fMPS().load(os.path.join(loc, 'bases', name+'_state.npy')).recombine().reshape(-1)
        close('saved:state', got, v, where)
    finally:
        os.chdir(here)
        shutil.rmtree(loc)

def stopped(tr, H, runs, where):
    """each stop leaves a new folder with everything in it; runs: the trajectory has exponents"""
    from xmps.fMPS import fMPS
    loc = tempfile.mkdtemp()
    try:
        tr.run_name = 'halt'
        for k in (1, 2, 3):
            d = tr.stop(loc=loc)
            if os.path.realpath(d) != os.path.realpath(os.path.join(loc, 'halt_%d' % k)):
                raise Bad('stopped:where', '%s: %s' % (where, d))
        name = os.path.join(loc, 'halt_2', 'L%d_D%d_N%d' % (tr.mps.L, tr.mps.D, len(tr.mps_history)))
        for f, m in (('_state.npy', tr.mps), ('_initial_state.npy', tr.mps_0)):
            close('stopped'+f, fMPS().load(name+f).recombine().reshape(-1), m.recombine().reshape(-1), where)
        with open(name+'_ham', 'rb') as f:
            got = pickle.load(f)
        close('stopped:ham', np.array(got), np.array(H), where, tol=0)
        if runs:
            close('stopped:lys', np.load(name+'_inst_exps.npy'), np.array(tr.lys), where, tol=0)
            close('stopped:lys', np.load(name+'_inst_exps_.npy'), np.array(tr.lys_), where, tol=0)
            if hasattr(tr, 'Q'):
                close('stopped:basis', np.load(name+'_basis.npy'), tr.Q, where, tol=0)
            with open(name+'_vL', 'rb') as f:
                if len(pickle.load(f)) != tr.mps.L:
                    raise Bad('stopped:vL', where)
    finally:
        shutil.rmtree(loc)

def replay(case):
    from xmps.fTDVP import Trajectory
    from xmps.fMPS import fMPS
    ini, hist = case['ini'], case['hist']
    kind, L = ini['kind'], ini['L']
    H = [cx(t)/k for t, k in zip(ini['ts'], ini['dens'])]
    up = [h + ini['shift']*np.eye(4) for h in H]
    m = start(ini)
    where = 'seed %s %s L=%d' % (case['seed'], kind, L)
    dt = 0.05 if kind == 'rest' else 0.002
    J = m.jac(H)
    if np.abs(np.imag(J)).max() > 1e-9:
        raise Bad("jac:real", where)
    J = np.real(J)
    N = len(J)//2
    E = np.real(m.energy(H))
    J = J + E*np.kron([[0, -1], [1, 0]], np.eye(N))
    model = None
    if kind == 'rest':
        Mp, Mm = np.array(ini['Mp']), np.array(ini['Mm'])
        model = np.block([[np.zeros((L, L)), Mm], [-Mp, np.zeros((L, L))]])
        close('rates', np.poly(J), np.poly(model), where, tol=1e-6)
    tr, count = Trajectory(m.copy(), H), 0
    ends = None
    for q, h in enumerate(hist):
        wh = '%s run %d: %s' % (where, q, h)
        T = 0.3 + dt*np.arange(h['n'])
        basis = h['basis']
        if basis == 'schur':
            basis, ends = falling(J)
        before = len(tr.mps_history)
        got = quiet(tr.lyapunov, T, t_burn=0, thresh=None, initial_basis=basis, k=h['k'])
        if len(got) != 3:
            raise Bad('returned', wh)
        times, (exps, lys, conv, paired), (exps_, lys_, conv_, paired_) = got
        close('times', times, T[h['k']:], wh, tol=1e-12)
        if np.shape(lys) != (h['total'], 2*N) or np.shape(exps) != (h['n']-h['k'], 2*N):
            raise Bad('shape', '%s: %s %s' % (wh, np.shape(lys), np.shape(exps)))
        if np.shape(lys_) != np.shape(lys) or np.shape(exps_) != np.shape(exps):
            raise Bad('shape:second', wh)
        if len(tr.mps_history) - before != h['n'] or np.shape(tr.Q) != (2*N, 2*N):
            raise Bad('kept', wh)
        close('kept:lys', tr.lys, lys, wh, tol=0)
        close('directions', np.conj(tr.Q).T@tr.Q, np.eye(2*N), wh)
        new = lys[-h['n']:]
        mean = np.cumsum(new, axis=0)/np.arange(1, h['n']+1)[:, None]/dt
        close('average', exps, mean[h['k']:], wh)
        close('average:second', exps_, (np.cumsum(lys_[-h['n']:], axis=0)/np.arange(1, h['n']+1)[:, None]/dt)[h['k']:], wh)
        close('volume', np.sum(new, axis=1), np.zeros(h['n']), wh, tol=1e-6)
        close('volume:second', np.sum(lys_, axis=1), np.zeros(h['total']), wh, tol=1e-6)
        if kind == 'full':
            # the linear motion is only followed to first order in the step
            close('no projection', new/dt, np.zeros(np.shape(new)), wh, tol=0.05)
            close('no projection:second', lys_[-h['n']:]/dt, np.zeros(np.shape(new)), wh, tol=0.05)
        if kind == 'rest':
            v, o = tr.mps.recombine().reshape(-1), m.recombine().reshape(-1)
            if not abs(abs(np.vdot(v, o)) - 1) < 1e-6:
                raise Bad('rest', '%s: it moved' % wh)
            if ends is not None:
                want = spread(model)
                for k in ends:
                    close('growth', np.sum(new[:, :k], axis=1), np.full(h['n'], np.sum(want[:k])*dt), '%s fastest %d' % (wh, k), tol=1e-5)
        count += 1
    saved(tr, N, where)
    stopped(tr, H, True, where)
    if kind == 'rest':
        # the motion of what measures separations, followed backwards: the slowest directions come first there
        Q, ends = falling(J)
        ends = [2*N - k for k in ends[-2::-1]] + [2*N]
        got = quiet(Trajectory(m.copy(), H).lyapunov, dt*np.arange(4), t_burn=0, thresh=None, initial_basis=np.ascontiguousarray(Q[:, ::-1]))
        back = 2*np.asarray(got[2][1]) - np.asarray(got[1][1])
        want = spread(model)[::-1]
        for k in ends:
            close('growth:backwards', np.sum(back[:, :k], axis=1), np.full(4, -np.sum(want[:k])*dt), '%s slowest %d' % (where, k), tol=1e-5)
        count += 1
    # the motion is the same whatever basis the bonds are described in
    rng = np.random.RandomState(case['seed'])
    U = [np.eye(1)] + [np.linalg.qr(rng.randn(A.shape[2], A.shape[2]) + 1j*rng.randn(A.shape[2], A.shape[2]))[0] for A in m.data]
    turned = fMPS([U[n].conj().T@A@U[n+1] for n, A in enumerate(m.data)])
    J_ = turned.jac(H)
    if np.abs(np.imag(J_)).max() > 1e-9:
        raise Bad('jac:real', where)
    J_ = np.real(J_) + E*np.kron([[0, -1], [1, 0]], np.eye(N))
    close('gauge', np.poly(J_), np.poly(J), where, tol=1e-6)
    close('gauge:sizes', np.linalg.svd(J_, compute_uv=False), np.linalg.svd(J, compute_uv=False), where, tol=1e-6)
    # a constant in the energy changes nothing
    first = hist[0]['basis'] if hist[0]['basis'] != 'rand' else 'eye'
    if first == 'schur':
        first = falling(J)[0]
    T = dt*np.arange(5)
    a, b = Trajectory(m.copy(), H), Trajectory(m.copy(), up)
    ra = quiet(a.lyapunov, T, t_burn=0, thresh=None, initial_basis=first if not isinstance(first, str) else 'eye')
    rb = quiet(b.lyapunov, T, t_burn=0, thresh=None, initial_basis=first if not isinstance(first, str) else 'eye')
    stopped(quiet(Trajectory(m.copy(), H).rk4int, T), H, False, where)
    close('constant', rb[1][1]/dt, ra[1][1]/dt, where, tol=0.05)
    if kind != 'bonded':
        growth(case, m, H, N, where)
    return count + 3

def growth(case, m, H, N, where):
    """one direction only: as fast as two trajectories really separate"""
    from xmps.fTDVP import Trajectory
    from xmps.fMPS import fMPS
    rng = np.random.RandomState(case['seed'])
    q = rng.randn(2*N)
    q /= np.linalg.norm(q)
    n, dt, eps = 40, 0.01, 1e-5
    Q = np.linalg.qr(np.column_stack([q, rng.randn(2*N, 2*N-1)]))[0].T
    Q = Q*np.sign(Q[0]@q)
    T = dt*np.arange(n+1)
    tr = Trajectory(m.copy(), H)
    got = quiet(tr.lyapunov, T, t_burn=0, thresh=None, just_max=True, initial_basis=Q)
    lys = np.asarray(got[1][1])
    if lys.shape != (n+1,):
        raise Bad('one:shape', '%s: %s' % (where, lys.shape))
    saved(tr, N, where)
    m.jac(H)
    dA = m.import_tangent_vector(q[:N]+1j*q[N:])
    near = fMPS([A + eps*B for A, B in zip(m.data, dA)]).right_canonicalise()
    def gap(x, y):
        u, v = x.recombine().reshape(-1), y.recombine().reshape(-1)
        u, v = u/np.linalg.norm(u), v/np.linalg.norm(v)
        return np.linalg.norm(v - u*np.vdot(u, v))
    g0 = gap(m, near)
    close('one:start', g0, eps, where, tol=1e-3*eps)
    x, y = quiet(Trajectory(m.copy(), H).rk4int, T), quiet(Trajectory(near, H).rk4int, T)
    g1 = gap(x.mps, y.mps)
    want, got = np.log(g1/g0), np.sum(lys[:n])
    if not abs(got-want) < 0.02 + 0.05*abs(want):
        raise Bad('one:growth' + (':seed-%s' % case['seed'] if case['ini']['kind'] == 'bonded' else ''),
                  '%s: %.4g, really %.4g' % (where, got, want))

def bonded(case):
    """growth for an entangled state"""
    ini = case['ini']
    H = [cx(t)/k for t, k in zip(ini['ts'], ini['dens'])]
    m = start(ini)
    growth(case, m, H, len(m.jac(H))//2, 'seed %s bonded L=%d' % (case['seed'], ini['L']))
    return 1

def otoc(case):
    from xmps.fMPS import fMPS
    from xmps.fTDVP import Trajectory
    ini, L = case['ini'], case['ini']['L']
    P = cx(ini['mirror']['M'])/ini['mirror']['den']
    m = fMPS().left_from_state(cx(ini['psi']).reshape([2]*L))
    m = m.right_canonicalise() if case['seed'] % 2 else m.left_canonicalise()
    def place(o):
        return np.kron(np.kron(np.eye(2**o['at']), cx(o['op'])), np.eye(2**(L-o['at']-o['n'])))
    def angle(o):
        return o['turn']*np.pi/2 + [0, 1, -1][o['tri']]*np.arctan2(4, 3)
    shift = case['seed'] % 3
    tr = Trajectory(m, P + shift*np.eye(len(P)), fullH=True)
    before = m.recombine().reshape(-1)
    for k, o in enumerate(case['out']):
        wh = 'seed %s L=%d turn=%d tri=%d V at %d, W at %d' % (case['seed'], L, o['turn'], o['tri'], o['V']['at'], o['W']['at'])
        V, W = place(o['V']), place(o['W'])
        got = quiet(tr.ed_OTOC, [angle(o), angle(o)+2*np.pi, -angle(o)], (V, W))
        want = o['value']/o['den']/ini['norm2']
        if len(got) != 3:
            raise Bad('otoc:times', wh)
        close('otoc', np.array(got[:2]), np.array([want, want]), wh, tol=1e-8)
        # all times so far at once
        same = [q for q in case['out'] if q['V'] == o['V'] and q['W'] == o['W']]
        if len(same) > 1:
            got = quiet(tr.ed_OTOC, [angle(q) for q in same], (V, W))
            close('otoc:series', np.array(got), np.array([q['value']/q['den']/ini['norm2'] for q in same]), wh, tol=1e-8)
    close('otoc:state', m.recombine().reshape(-1), before, 'seed %s' % case['seed'], tol=1e-10)
    return 2*len(case['out'])

def run(ctx):
    rows = ctx.tlc('Otoc', dict(ctx.seeds(150, 3000), Depth=5), invariants=['Unitary', 'Causal', 'Same', 'EmitAtEnd'], timeout=1500)
    ctx.replay(otoc, rows, kind='otoc', limit=120)
    rows = ctx.tlc('Stability', dict(ctx.seeds(60, 1000), Depth=2), invariants=['Linearised', 'Unitary', 'EmitAtEnd'], properties=['Grows'], timeout=1500)
    ctx.replay(replay, rows, kind='stability', limit=120)
    rows = ctx.tlc('Stability', dict(SeedLo=4, SeedHi=4, Depth=1), invariants=['EmitAtEnd'], timeout=300)
    ctx.replay(bonded, rows, kind='bonded')
