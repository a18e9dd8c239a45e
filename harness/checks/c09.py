from checks.walk import *

from checks import words

def run(ctx):
    q = ctx.quick
    B = {'Ek', 'EkS', 'rho'}
    ctx.replay(replay_block, histories(ctx, 5 if q else 20, 3, kinds=B | {'lcan', 'rcan', 'mcan', 'morth', 'lorth', 'set', 'gate', 'post', 'copy'}, branch=True), kind='all-call-sequences')
    ctx.replay(replay_block, histories(ctx, 400 if q else 5000, 8, kinds=B | {'lcan', 'rcan', 'mcan', 'morth', 'rorth', 'set', 'gate', 'post', 'lpart', 'rpart'}, seed0=1000), kind='walks')
    ctx.replay(replay_block, histories(ctx, 100 if q else 1000, 6, kinds=B | {'lcan', 'mcan', 'rorth'}, MaxL=7, seed0=20000), kind='longer-chains')
    ctx.replay(words.replay_block, words.words(ctx, 150, 2500, 'AnyCall', seed0=40000), kind='words-on-long-chains')
