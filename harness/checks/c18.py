from checks.traj import *

ACT = {'euler', 'rk4', 'ed', 'expand', 'contract', 'clear', 'list'}
def run(ctx):
    q = ctx.quick
    ctx.replay(replay_traj, behaviours(ctx, 3 if q else 12, 4 if q else 5, branch=True, kinds=ACT, MaxL=3), kind='all-action-sequences')
    ctx.replay(replay_traj, behaviours(ctx, 300 if q else 3000, 8, seed0=1000), kind='walks')
    ctx.replay(replay_traj, behaviours(ctx, 20 if q else 200, 12, MaxL=5, seed0=20000), kind='longer')
