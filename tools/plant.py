"""plant.py SPEC.py [--nocheck] [--all] - turn a bug description into /verif/seeded/<id>.

SPEC defines PROPERTY, NEEDS, BREAKS, EDITS=[(file under src/gempakio, old, new), ...], DEMO
(python text). The change is made in a scratch copy of /repo; it is kept only when the stable
tests pass with it and the demonstration passes without it and fails with it. The checks are
then run against the scratch copy: the one of the property, or with --all every one.
"""
import json
import os
import pathlib
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = pathlib.Path(__file__).resolve().parent.parent
PY = '/opt/venv/bin/python'
DEMO_SH = """#!/bin/sh
# run with cwd = the repository, after the build
PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def run(cmd, cwd=None, **env):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True,
                          env=dict(os.environ, **env), check=False)


def checks_on(repo, names, out):
    found = {}
    for name in names:
        r = run([PY, str(VERIF / 'run.py'), 'check', name], VERIF_REPO=str(repo),
                VERIF_OUT=str(out), VERIF_SEED='1', VERIF_TIER='quick')
        lines = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
        found[name] = (r.returncode, lines, r.stdout[-1500:] + r.stderr[-500:])
    return found


def main():
    spec_path = pathlib.Path(sys.argv[1])
    spec = runpy.run_path(str(spec_path))
    name = spec_path.stem
    scratch = pathlib.Path(tempfile.mkdtemp(prefix='plant'))
    try:
        repo = scratch / 'repo'
        subprocess.run(['cp', '-a', '/repo', str(repo)], check=True)
        for file, old, new in spec['EDITS']:
            p = repo / 'src/gempakio' / file
            text = p.read_text()
            if text.count(old) != 1:
                sys.exit(f'{name}: {text.count(old)} places match in {file}: {old!r}')
            p.write_text(text.replace(old, new))
        diff = run(['git', 'diff', 'HEAD'], cwd=repo).stdout
        lint = run(['ruff', 'check', '--select', 'E9,F', 'src'], cwd=repo)
        print(lint.stdout if lint.returncode else '', end='')
        # the changed lines must be lines of the original repository
        demo = scratch / 'demo'
        demo.mkdir()
        (demo / 'demo.py').write_text(spec['DEMO'].lstrip('\n'))
        (demo / 'demo.sh').write_text(DEMO_SH)
        clean = run(['sh', str(demo / 'demo.sh')], cwd='/repo')
        bad = run(['sh', str(demo / 'demo.sh')], cwd=repo)
        if clean.returncode != 0 or bad.returncode == 0:
            print(clean.stdout, clean.stderr, bad.stdout, bad.stderr)
            sys.exit(f'{name}: demo clean={clean.returncode} patched={bad.returncode}')
        t = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], cwd=repo,
                PYTHONPATH=str(repo / 'src'))
        last = t.stdout.strip().splitlines()[-1]
        if t.returncode != 0:
            sys.exit(f'{name}: tests fail: {last}\n{t.stdout[-1500:]}')
        print(f'{name}: demo ok ({(bad.stdout + bad.stderr).strip().splitlines()[-1:]}), tests {last}')
        out = VERIF / 'seeded' / name
        out.mkdir(parents=True, exist_ok=True)
        (out / 'patch.diff').write_text(diff)
        shutil.copy(demo / 'demo.py', out / 'demo.py')
        (out / 'demo.sh').write_text(DEMO_SH)
        (out / 'meta.json').write_text(json.dumps(
            {'property': spec['PROPERTY'], 'needs': spec['NEEDS'],
             'what_it_breaks': spec['BREAKS']}, indent=1) + '\n')
        if '--nocheck' not in sys.argv:
            names = [spec['PROPERTY']]
            if '--all' in sys.argv:
                names = [f'C{n:02d}' for n in range(1, 15)]
            for check, (code, lines, tail) in checks_on(repo, names, scratch / 'out').items():
                print(f'  {check}: {"CAUGHT" if code == 1 and lines else "exit %s MISSED" % code}',
                      lines[:1])
                if code == 1:
                    print('   ', [x for x in tail.splitlines() if not x.startswith('VIOL')][-6:])
                elif code != 0:
                    print(tail)
    finally:
        shutil.rmtree(scratch)


if __name__ == '__main__':
    main()
