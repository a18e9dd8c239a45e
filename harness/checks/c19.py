from checks.flow import *

def run(ctx):
    q = ctx.quick
    ctx.replay(replay_flow, orbits(ctx, 150 if q else 1500, 1), kind='one-tick', limit=120)
    ctx.replay(replay_flow, orbits(ctx, 60 if q else 600, 2, seed0=10000), kind='two-ticks', limit=120)
