from checks.pool import *
from checks import words

def run(ctx):
    q = ctx.quick
    ctx.replay(replay_overlap, cases(ctx, OVER, 6 if q else 20, 2 if q else 3, 'KindOverlap', branch=True), kind='all-sequences')
    ctx.replay(replay_overlap, cases(ctx, OVER, 600 if q else 6000, 8, 'KindOverlap', MaxL=5, seed0=1000), kind='walks')
    ctx.replay(words.replay_overlap, words.words(ctx, 150, 2500, 'Sums', seed0=40000), kind='words-on-long-chains')
