#!/opt/venv/bin/python
"""run.py PROPERTY [quick|thorough]  |  run.py --replay FILE"""
import os, sys
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[v] = '1'
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ.setdefault('TZ', 'UTC')
sys.dont_write_bytecode = True
REPO = os.environ.get('MC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
import warnings
warnings.simplefilter('ignore')
import importlib
import json
import logging
logging.disable(logging.CRITICAL)


def main():
    from mc import core
    if sys.argv[1] == '--replay':
        rec = json.load(open(sys.argv[2]))
        mod = importlib.import_module(f"mc.props.{rec['property'].lower()}")
        for sp in mod.spaces(rec['tier']):
            if sp.name == rec['space']:
                r = core.run_case(sp, rec['case'])
                print(r[0], *r[1:])
                sys.exit(0 if r[0] == 'ok' else 1)
        sys.exit('space not found')
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    try:
        try:
            mod = importlib.import_module(f'mc.props.{prop.lower()}')
        except Exception as e:
            # the library failed while the check was being loaded
            import traceback
            tb = traceback.format_exc(limit=-6)
            if os.path.realpath(REPO) + '/pyTMD' not in tb and REPO + '/pyTMD' not in tb:
                raise
            mod = core.unloadable(prop, e, tb)
        import pyTMD
        assert os.path.realpath(pyTMD.__file__).startswith(os.path.realpath(REPO)), pyTMD.__file__
        rc = core.main(prop, mod, tier, seed)
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.exit(3)
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == '__main__':
    main()
