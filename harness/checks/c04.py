from checks.trunc import *

from checks import words

def run(ctx):
    q = ctx.quick
    ctx.replay(replay_cuts, cases(ctx, 'cuts', 500 if q else 6000), kind='spectra')
    ctx.replay(replay_cuts, cases(ctx, 'cuts', 60 if q else 600, MaxL=7, MaxD=4, seed0=20000), kind='longer-chains')
    ctx.replay(replay_cuts, cases(ctx, 'cuts', 60 if q else 600, fams='<- SkewFamily', seed0=30000), kind='tiny-weights')
    ctx.replay(words.replay_weights, words.words(ctx, 150, 2500, 'AnyCall', seed0=40000), kind='words-on-long-chains')
