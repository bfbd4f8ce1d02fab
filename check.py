#!/usr/bin/env python3
"""python3 check.py <PROPERTY> [--tier quick|thorough] [--replay FILE]"""
import os, sys, argparse
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sim'))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier')
    ap.add_argument('--replay')
    ap.add_argument('--index', type=int)
    ap.add_argument('--runs', type=int)
    ap.add_argument('--wall', type=float)
    ap.add_argument('--no-min', action='store_true')
    ap.add_argument('--survey', type=int, help='group the failures of N runs')
    args = ap.parse_args()
    if not os.environ.get('LARCH_SIM_OVERLAY'):
        import build
        ov, key = build.ensure()
        e = dict(os.environ)
        e['LARCH_SIM_OVERLAY'] = ov
        e['PYTHONPATH'] = ov
        e['PYTHONHASHSEED'] = '0'
        e['PYTHONWARNINGS'] = 'ignore'
        e['MPLBACKEND'] = 'agg'
        e['OPENBLAS_NUM_THREADS'] = '1'
        e['OMP_NUM_THREADS'] = '4'
        e['NUMEXPR_NUM_THREADS'] = '1'
        e['NUMBA_NUM_THREADS'] = '4'
        e['NUMBA_CACHE_DIR'] = os.path.join(ov, 'numba-cache')
        e['MALLOC_PERTURB_'] = '128'
        e['TZ'] = 'UTC'
        e['HOME'] = os.path.join(ov, 'home')
        os.makedirs(e['HOME'], exist_ok=True)
        e.pop('DISPLAY', None)
        lib = os.path.join(ov, 'libsimfs.so')
        if os.path.exists(lib):
            e['LD_PRELOAD'] = lib
        py = '/opt/venv/bin/python'
        os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], e)
    os.environ.pop('LD_PRELOAD', None)
    import importlib, core
    mod = importlib.import_module('props.' + args.prop.lower())
    ov = os.environ['LARCH_SIM_OVERLAY']
    info = open(os.path.join(ov, 'INFO')).read().strip().split('\n')
    if args.survey:
        sys.path.insert(0, os.path.join(HERE, 'tools'))
        import survey
        sys.exit(survey.main(mod, args.survey))
    sys.exit(core.main(mod, args, info))


main()
