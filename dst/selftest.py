"""Determinism of the simulator: the same seeds must give the same event logs.

Every check is executed several times on the same run numbers: with other worker counts, in
another order and, in an interpreter of its own, under another PYTHONHASHSEED.  The digests of
the event logs (every call, outcome, fault, switch and result) are compared run by run.
"""
import argparse
import contextlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from dst import core, sut

CHECKS = [f'C{n:02d}' for n in range(1, 30)
          if os.path.exists(os.path.join(core.HERE, 'checks', f'c{n:02d}.py'))]


def digests(cid, seed, runs):
    """{run: [status, digest]} of the given runs, executed one after the other."""
    check = core.load_check(cid)
    base = tempfile.mkdtemp(prefix='dst-self-', dir=core.scratch_root())
    out = {}
    try:
        if hasattr(check, 'prepare'):
            with contextlib.redirect_stdout(sys.stderr):
                check.prepare(base, seed, 'quick')
        for i in runs:
            r = core.run_forked(check, core.make_plan(check, seed, 'quick', i), base)
            out[i] = [r['status'], r['digest']]
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return out


def child(cid, seed, runs, hashseed):
    """Start `run.py selftest --child`; returns the process."""
    env = dict(os.environ, VERIF_HASHSEED=str(hashseed))
    env.pop('VERIF_FIXED_ENV', None)
    return subprocess.Popen(
        [sys.executable, os.path.join(core.VERIF, 'run.py'), 'selftest', '--child', cid,
         '--seed', str(seed), '--list', ','.join(map(str, runs))],
        env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('--checks', default=','.join(CHECKS))
    ap.add_argument('--runs', type=int, default=200)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--child')
    ap.add_argument('--list')
    a = ap.parse_args(argv)
    if a.child:
        sut.load()
        core.warm_libraries()
        print('DIGESTS ' + json.dumps(digests(a.child, a.seed, [int(x) for x in a.list.split(',')])))
        return 0
    bad = 0
    for cid in a.checks.split(','):
        t0 = time.monotonic()
        got = {}        # hash seed -> run -> outcome
        for hs, workers, reverse in ((0, a.workers, False), (0, max(1, a.workers // 2), True),
                                     (4242, a.workers, False)):
            jobs = []
            for w in range(workers):
                runs = list(range(w, a.runs, workers))
                if reverse:
                    runs.reverse()
                if runs:
                    jobs.append(child(cid, a.seed, runs, hs))
            res = {}
            for p in jobs:
                out, err = p.communicate()
                line = [x for x in out.splitlines() if x.startswith('DIGESTS ')]
                if p.returncode or not line:
                    print(f'{cid}: child failed: {err[-800:]}')
                    return 2
                res.update({int(k): v for k, v in json.loads(line[0][8:]).items()})
            got[(hs, reverse)] = res
        first, *rest = got.values()
        diff = sorted({i for r in rest for i in first if r.get(i) != first[i]})
        bad += len(diff)
        print(f'{cid}: {len(first)} runs x {len(got)} executions, {len(diff)} differ {diff[:8]} '
              f'({time.monotonic() - t0:.0f} s)', flush=True)
    return 1 if bad else 0
