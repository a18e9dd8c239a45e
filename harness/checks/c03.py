from checks.trunc import *

from checks import words

def run(ctx):
    q = ctx.quick
    ctx.replay(replay_trunc, cases(ctx, 'trunc', 900 if q else 9000), kind='truncations')
    ctx.replay(replay_trunc, cases(ctx, 'trunc', 100 if q else 1000, MaxL=7, MaxD=5, seed0=20000), kind='longer-chains')
    ctx.replay(words.replay_bound, words.words(ctx, 150, 2500, 'Forms', seed0=40000), kind='words-on-long-chains')
