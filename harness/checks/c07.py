from checks.walk import *

from checks import words

def run(ctx):
    q = ctx.quick
    ctx.replay(replay_gate, histories(ctx, 400 if q else 6000, 6, kinds={'gate', 'post', 'lcan', 'mcan', 'E', 'rpart'}), kind='circuits')
    ctx.replay(replay_gate, histories(ctx, 100 if q else 1500, 5, kinds={'gate', 'post'}, MaxL=7, seed0=20000), kind='longer-chains')
    ctx.replay(words.replay_gate, words.words(ctx, 150, 2500, 'GateCalls', seed0=40000), kind='words-on-long-chains')
