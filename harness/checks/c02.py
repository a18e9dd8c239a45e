from checks.walk import *

from checks import words

def run(ctx):
    q = ctx.quick
    # every sequence of kinds of call, ending in every measurement
    ctx.replay(replay_value, histories(ctx, 3 if q else 8, 3, branch=True), kind='all-call-sequences')
    ctx.replay(replay_value, histories(ctx, 500 if q else 6000, 10, seed0=1000), kind='walks')
    ctx.replay(replay_value, histories(ctx, 100 if q else 1500, 8, MaxL=7, seed0=20000), kind='longer-chains')
    ctx.replay(words.replay_value, words.words(ctx, 150, 2500, 'AnyCall', seed0=40000), kind='words-on-long-chains')
