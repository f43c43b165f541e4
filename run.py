#!/opt/venv/bin/python
"""Entry point: `run.py check C01`, `run.py replay FILE`, `run.py selftest`."""
import os
import sys

FIXED = {'PYTHONHASHSEED': '0', 'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1',
         'MKL_NUM_THREADS': '1', 'PYTHONDONTWRITEBYTECODE': '1', 'TZ': 'UTC', 'LC_ALL': 'C.UTF-8',
         'PYTHONWARNINGS': 'ignore', 'PYTHONNOUSERSITE': '1', 'MALLOC_PERTURB_': '165'}


def main():
    if os.environ.get('VERIF_FIXED_ENV') != '1':
        env = dict(os.environ, **FIXED)
        if 'VERIF_HASHSEED' in os.environ:
            env['PYTHONHASHSEED'] = os.environ['VERIF_HASHSEED']
        env['VERIF_FIXED_ENV'] = '1'
        env.pop('PYTHONPATH', None)
        py = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
        os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)
    import gc
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    gc.collect()
    from dst import core
    cmd = sys.argv[1]
    if cmd == 'check':
        import argparse
        ap = argparse.ArgumentParser()
        ap.add_argument('prop')
        ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
        ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
        ap.add_argument('--workers', type=int, default=int(os.environ.get('VERIF_WORKERS') or 8))
        ap.add_argument('--runs', type=int)
        ap.add_argument('--seconds', type=float)
        a = ap.parse_args(sys.argv[2:])
        sys.exit(core.batch(a.prop, a.tier, a.seed, a.workers, a.runs, a.seconds))
    if cmd == 'replay':
        sys.exit(core.replay(sys.argv[2]))
    if cmd == 'selftest':
        from dst import selftest
        sys.exit(selftest.main(sys.argv[2:]))
    sys.exit(f'unknown command {cmd}')


if __name__ == '__main__':
    main()
