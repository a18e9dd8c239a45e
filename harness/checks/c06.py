from checks.pool import *
from checks import words

def run(ctx):
    q = ctx.quick
    ctx.replay(replay_arith, cases(ctx, ARITH, 6 if q else 20, 2 if q else 3, 'KindArith', branch=True), kind='all-expressions')
    ctx.replay(replay_arith, cases(ctx, ARITH, 500 if q else 6000, 5, 'KindArith', seed0=1000), kind='expressions')
    ctx.replay(words.replay_sum, words.words(ctx, 150, 2500, 'Sums', seed0=40000), kind='words-on-long-chains')
