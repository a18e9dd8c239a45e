from checks.walk import *

FORMS = {'lcan', 'rcan', 'lcan0', 'rcan0', 'mcan', 'lorth', 'rorth', 'morth', 'lpart', 'rpart'}
from checks import words

def run(ctx):
    q = ctx.quick
    # every sequence of form changes
    ctx.replay(replay_form, histories(ctx, 12 if q else 60, 2 if q else 3, kinds=FORMS, branch=True), kind='form-sequences')
    # form changes among everything else
    ctx.replay(replay_form, histories(ctx, 400 if q else 4000, 8, kinds=FORMS | {'set', 'post', 'gate', 'E', 'copy'}, seed0=1000), kind='walks')
    ctx.replay(replay_form, histories(ctx, 150 if q else 1500, 4, kinds=FORMS, MaxL=7 if q else 8, MaxD=4, seed0=10000), kind='longer-chains')
    # very small but nonzero Schmidt weights survive
    ctx.replay(replay_form, histories(ctx, 60 if q else 600, 3, kinds=FORMS, fams='<- SkewFamily', seed0=30000), kind='tiny-weights')
    ctx.replay(words.replay_form, words.words(ctx, 150, 2500, 'Forms', seed0=40000), kind='words-on-long-chains')
