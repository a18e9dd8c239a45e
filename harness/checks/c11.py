from checks.pool import *
from checks import uniform
from lib import Bad

def infinite(case):
    """only what operations do to the chains they are given and to originals of copies"""
    try:
        return uniform.replay_forms(case)
    except Bad as e:
        if not e.key.split(':')[0] in ('copy', 'operand'):
            return 0
        raise

def run(ctx):
    q = ctx.quick
    ctx.replay(replay_frame, cases(ctx, HEAP, 4 if q else 12, 2 if q else 3, 'KindHeap', branch=True), kind='all-sequences')
    ctx.replay(replay_frame, cases(ctx, HEAP, 300 if q else 4000, 10, 'KindHeap', seed0=1000), kind='walks')
    ctx.replay(infinite, uniform.classes(ctx, 60 if q else 1000, 9), kind='infinite')
    from checks import c14
    s = ctx.seeds(200, 2000)
    ctx.replay(c14.replay_args, ctx.tlc('NCon', dict(SeedLo=s['SeedLo']+60000, SeedHi=s['SeedHi']+60000, Branch=False, MaxT=4, Damage=False),
               invariants=['Same', 'Done', 'EmitAtEnd']), kind='contractions')
