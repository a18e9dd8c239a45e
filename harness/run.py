#!/opt/venv/bin/python
"""run.py <property id>   decide one property (VERIF_SEED, VERIF_TIER)
   run.py replay <file>   run one recorded case again"""
import os, sys
os.environ.setdefault('MPLBACKEND', 'Agg')
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[v] = '1'
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import lib
os.environ['MPLCONFIGDIR'] = os.path.join(lib.SCRATCH, 'mpl')
sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(lib.SCRATCH, 'pyc')    # never a stale .pyc of another tree
sys.path.insert(0, lib.REPO)
os.chdir(lib.SCRATCH)
import importlib, warnings
warnings.simplefilter('ignore')

def main():
    import xmps
    assert os.path.abspath(os.path.dirname(xmps.__file__)) == os.path.join(os.path.abspath(lib.REPO), 'xmps'), xmps.__file__
    if sys.argv[1] == 'replay':
        import json
        r = json.load(open(sys.argv[2]))
        fn = getattr(importlib.import_module(r['module']), r['function'])
        print(lib._one((fn, r['case'], 600)))
        return 0
    prop = sys.argv[1]
    mod = importlib.import_module('checks.' + prop.lower())
    ctx = lib.Ctx(prop)
    mod.run(ctx)
    return ctx.finish()

if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
