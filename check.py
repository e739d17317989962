#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough] [--budget S] [--only harness,..] [-v]   |   check.py --replay FILE"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
FIX = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1',
       'MKL_NUM_THREADS': '1', 'MPLBACKEND': 'Agg', 'PYTHONWARNINGS': 'ignore'}
if any(os.environ.get(k) != v for k, v in FIX.items()) or sys.prefix != '/opt/venv':
    env = dict(os.environ)
    env.update(FIX)
    env.pop('PYTHONPATH', None)
    env.setdefault('MPLCONFIGDIR', '/tmp/mplconfig-verif')
    os.execve(PY, [PY] + sys.argv, env)
sys.path.insert(0, HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.setup:
        os.makedirs(os.path.join(HERE, 'evidence', 'replays'), exist_ok=True)
        from engine import loader
        loader.symbolic()
        loader.real()
        print('ready')
        return 0
    from engine import run
    if a.replay:
        return run.replay(a.replay)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    return run.check(a.id, a.tier, seed, a.budget, a.only.split(',') if a.only else None, a.v)


if __name__ == '__main__':
    sys.exit(main())
