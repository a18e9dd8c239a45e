from checks.uniform import *

def run(ctx):
    q = ctx.quick
    ctx.replay(replay_forms, classes(ctx, 300 if q else 4000, 9), kind='walks')
