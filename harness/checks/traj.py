"""Replays behaviours of Traj.tla on a real Trajectory.  Exact evolution is
compared with dense exponentials; a single integrator step is taken on a
fresh object (what it must be is decided by C16 and C19)."""
import numpy as np
from lib import Bad
from chain import *
from scipy.linalg import expm

DT = {1: 0.03, 2: 0.06, 3: 0.1}
H_UNIT = 0.125

def terms(case):
    return [cx(h)*H_UNIT for h in case['init']['H']]

def assemble(ts, d, L):
    return sum(kron(np.eye(d**i), t, np.eye(d**(L-2-i))) for i, t in enumerate(ts))

def spectrum(v, d, L):
    return [np.linalg.svd(v.reshape(d**k, -1), compute_uv=False)**2 for k in range(L+1)]

def unit(v):
    return v/np.linalg.norm(v)

def worst(v, d, L, bs):
    """smallest Schmidt weight that the bonds bs of a state are meant to carry"""
    return min(s[min(len(s), b) - 1] for s, b in zip(spectrum(unit(v), d, L), bs))

class Ref:
    """A recorded state: dense unit vector, bond dimensions."""
    def __init__(self, m):
        self.v = unit(dense(m.data)); self.bonds = bonds(m.data)

def replay_traj(case):
    from xmps.fMPS import fMPS
    from xmps.fTDVP import Trajectory
    ini = case['init']
    d, L, full = ini['d'], ini['L'], ini['full']
    ts = terms(case)
    Hf = assemble(ts, d, L)
    H = Hf if full else ts
    m0 = fMPS([t/2. for t in tensors(ini['tensors'])]).left_canonicalise()
    start = dense(m0.data)
    tr = Trajectory(m0, H=H, fullH=full)
    rec, ed = [], []
    n = 0
    rs = np.random.RandomState(case['seed'])
    fragile = False

    def fresh(m):
        return fMPS([np.array(x) for x in m.data])

    def same_list(key, got, want, where):
        if len(got) != len(want):
            raise Bad(key + ':count', '%s: %d entries for %d recorded states' % (where, len(got), len(want)))

    for t, h in enumerate(case['hist']):
        op = h['op']
        where = 'seed %s: %s' % (case['seed'], ' '.join(x['op'] for x in case['hist'][:t+1]))
        before = fresh(tr.mps)
        v0 = unit(dense(before.data))
        if op in ('euler', 'rk4', 'odeint'):
            dt = DT[h['dt']]
            T = np.array([dt*i for i in range(h['n'])])
            w = worst(v0, d, L, bonds(before.data))
            fragile = fragile or w < 1e-5
            r = getattr(tr, op if op == 'odeint' else op + 'int')(T)
            if r is not tr:
                raise Bad('%s:returns-itself' % op, where)
            if len(tr.mps_history) != h['nrec']:
                raise Bad('%s:history-length' % op, '%s: %d recorded, expected %d' % (where, len(tr.mps_history), h['nrec']))
            got = tr.mps_list()
            same_list('mps_list', got, range(h['nrec']), where)
            new = [Ref(m) for m in got[len(rec):]]
            same_ray('%s:first-record' % op, new[0].v, v0, where)
            # each record is one step after the one before
            for i in range(1, len(new)):
                if fragile:
                    break
                single = Trajectory(fresh(got[len(rec)+i-1]).left_canonicalise(), H=H, fullH=full)
                if op == 'odeint':
                    x = single.mps
                    for _ in range(4):
                        x = single.rk4(x, dt/4, store=False)
                    same_ray('odeint:records', new[i].v, unit(dense(x.data)), where + ' record %d' % i, tol=5e-3)
                else:
                    x = getattr(single, op)(single.mps, dt, store=False)
                    same_ray('%s:records' % op, new[i].v, unit(dense(x.data)), where + ' record %d' % i, tol=1e-6)
                n += 1
            rec = rec + new
            same_ray('%s:current' % op, dense(tr.mps.data), rec[-1].v, where)
            n += 3
        elif op == 'ed':
            dt = DT[h['dt']]
            psi0 = dense(before.data)
            tr.edint(np.array([dt*i for i in range(h['n'])]))
            same_list('ed_history', tr.ed_history, range(h['ned']), where)
            U = expm(-1j*Hf*dt)
            ed, v = [], psi0
            for i in range(h['n']):
                close('ed:records', tr.ed_history[i], v, where + ' record %d' % i)
                ed.append(unit(v)); v = U@v
            same_ray('ed:current', dense(tr.mps.data), ed[-1], where)
            fragile = True       # exact evolution leaves tiny Schmidt weights
            n += 3
        elif op == 'expand':
            tr.expand(h['D'])
            same_ray('expand:state', dense(tr.mps.data), v0, where); n += 1
        elif op == 'contract':
            tr.contract(h['D'])
            if max(bonds(tr.mps.data)) > h['D']:
                raise Bad('contract:bond', where)
            n += 1
        elif op == 'clear':
            tr.clear()
            rec, ed, fragile = [], [], False
            same_ray('clear:current', dense(tr.mps.data), start, where)
            if len(tr.mps_history) or hasattr(tr, 'ed_history') and len(tr.ed_history):
                raise Bad('clear:history', where)
            n += 2
        else:
            vs = [r.v for r in rec] if rec else ed
            if op in ('edevs', 'edenergies'):
                vs = ed
            k = h['k']
            if op == 'list':
                got = tr.mps_list()
                same_list('list', got, vs, where)
                for i, (m, v) in enumerate(zip(got, vs)):
                    same_ray('list:state', dense(m.data), v, '%s entry %d' % (where, i))
                if rec:
                    for m, v in zip(tr.deserialize(), vs):
                        same_ray('deserialize:state', dense(m.data), v, where)
            elif op == 'evs':
                O = rs.randn(2, d, d) + 1j*rs.randn(2, d, d)
                O = O + O.conj().transpose(0, 2, 1)
                got = tr.mps_evs(list(O), k)
                want = [[np.real(np.vdot(v, site_op(o, k, L, d)@v)) for o in O] for v in vs]
                same_list('evs', got, vs, where); close('evs:values', np.real(got), want, where, tol=1e-6)
            elif op == 'energies':
                got = tr.mps_energies()
                same_list('energies', got, vs, where)
                close('energies:values', np.real(got), [np.real(np.vdot(v, Hf@v)) for v in vs], where, tol=1e-6)
            elif op == 'schmidts':
                got = tr.schmidts()
                same_list('schmidts', got, vs, where)
                for g, v in zip(got, vs):
                    for k2, (s, x) in enumerate(zip(spectrum(v, d, L), g)):
                        a = np.zeros(max(len(s), len(x))); b = a.copy()
                        a[:len(s)] = sorted(s, reverse=True); b[:len(x)] = sorted(np.real(x), reverse=True)
                        close('schmidts:values', b, a, '%s bond %d' % (where, k2), tol=1e-6)
            elif op == 'loschmidt':
                got = tr.loschmidt()
                same_list('loschmidt', got, vs, where)
                if not np.all(np.isreal(got)) or np.min(np.real(got), initial=0) < 0:
                    raise Bad('loschmidt:kind', '%s: %s' % (where, got))
                close('loschmidt:values', np.real(got), [abs(np.vdot(vs[0], v)) for v in vs], where,
                      tol=3e-3 if any(x['op'] == 'odeint' for x in case['hist']) else 1e-6)   # odeint keeps the norm to its tolerance
            elif op == 'entropy':
                def ent(s):
                    s = s[s > 1e-15]; return -np.sum(s*np.log(s))
                got = tr.von_neumann()
                same_list('von_neumann', got, vs, where)
                close('von_neumann:values', np.real(got), [max(ent(s) for s in spectrum(v, d, L)) for v in vs], where, tol=1e-5)
                for al in (2, 3):
                    got = tr.renyi(al)
                    same_list('renyi', got, vs, where)
                    close('renyi:values', np.real(got), [max(np.log(np.sum(s**al))/(1-al) for s in spectrum(v, d, L)) for v in vs], where, tol=1e-5)
            elif op == 'edevs':
                O = rs.randn(d**L, d**L); O = O + O.T
                got = tr.ed_evs([O, Hf])
                nn = [np.vdot(v, v).real for v in tr.ed_history]
                same_list('ed_evs', got, vs, where)
                close('ed_evs:values', got, [[np.real(np.vdot(v, o@v))*q for o in (O, Hf)] for v, q in zip(vs, nn)], where, tol=1e-6)
            elif op == 'edenergies':
                got = np.array(tr.ed_energies())
                same_list('ed_energies', got, vs, where)
                nn = [np.vdot(v, v).real for v in tr.ed_history]
                close('ed_energies:values', got.reshape(-1), [np.real(np.vdot(v, Hf@v))*q for v, q in zip(vs, nn)], where, tol=1e-6)
            same_ray('%s:moves-state' % op, dense(tr.mps.data), v0, where)
            n += 2
        if len(tr.mps_history) != h['nrec']:
            raise Bad('%s:history-length' % op, '%s: %d recorded, expected %d' % (where, len(tr.mps_history), h['nrec']))
        # bond dimensions of the records and of the current state
        ds = list(tr.Ds)
        if len(ds) != h['nrec'] + 1:
            raise Bad('%s:Ds-count' % op, '%s: Ds=%s for %d records' % (where, ds, h['nrec']))
        real = [max(r.bonds) for r in rec] + [max(bonds(tr.mps.data))]
        if ds != real:
            raise Bad('%s:Ds' % op, '%s: Ds=%s, the states have %s' % (where, ds, real))
        if not fragile and ds != h['ds']:
            raise Bad('%s:Ds-model' % op, '%s: Ds=%s, expected %s' % (where, ds, h['ds']))
        # the records made so far are still what they were
        if rec and op in ('euler', 'rk4', 'odeint', 'expand', 'contract', 'ed'):
            for i, (m, r) in enumerate(zip(tr.mps_list(), rec)):
                same_ray('%s:rewrites-history' % op, dense(m.data), r.v, '%s record %d' % (where, i))
                if bonds(m.data) != r.bonds:
                    raise Bad('%s:rewrites-structure' % op, where)
        same_ray('argument', dense(m0.data), start, where)
        n += 3
    tr.clear()
    same_ray('clear:current', dense(tr.mps.data), start, 'seed %s: cleared at the end' % case['seed'])
    return n

INV = ['DsMatch', 'Chronological', 'LastIsCurrent', 'Cleared', 'EmitAtEnd']
def behaviours(ctx, n, depth, branch=False, kinds='<- AllKinds', MaxL=4, seed0=0):
    s = ctx.seeds(n)
    return ctx.tlc('Traj', dict(SeedLo=s['SeedLo']+seed0, SeedHi=s['SeedHi']+seed0, Depth=depth, Branch=branch, MaxL=MaxL, Kinds=kinds),
                   invariants=INV, properties=['Grow', 'Quiet'])
