"""unfix.py [SECONDS] - takes back each recorded repair in a scratch copy and runs the check named for it.

Every `fixed:` entry of known_findings.txt must be reported again once its commit is reverted.
Commits that later ones build on cannot be reverted on their own and are listed as such.
"""
import os
import re
import subprocess
import sys
import tempfile

PY = '/opt/venv/bin/python'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    seconds = sys.argv[1] if len(sys.argv) > 1 else '80'
    only = sys.argv[2:]
    missed = []
    for line in open(os.path.join(HERE, 'known_findings.txt')):
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', line)
        if not m or only and m.group(2) not in only:
            continue
        prop, commit, what = m.groups()
        with tempfile.TemporaryDirectory(prefix='unfix') as d:
            repo = d + '/repo'
            subprocess.run(['cp', '-a', '/repo', repo], check=True)
            r = subprocess.run(['git', '-C', repo, '-c', 'user.name=x', '-c', 'user.email=x@x',
                                'revert', '--no-edit', '-n', commit], capture_output=True, text=True)
            if r.returncode:
                print(f'{commit} {prop} CONFLICT  {what}', flush=True)
                continue
            env = dict(os.environ, VERIF_REPO=repo, VERIF_OUT=d + '/out')
            r = subprocess.run([PY, HERE + '/run.py', 'check', prop, '--seconds', seconds], env=env,
                               capture_output=True, text=True)
            v = [ln for ln in r.stdout.splitlines() if ' violated: ' in ln]
            word = {0: 'MISSED', 1: 'reported'}.get(r.returncode, f'exit {r.returncode}')
            if r.returncode != 1:
                missed.append(commit)
            print(f'{commit} {prop} {word}  {what}\n    {v[0][:150] if v else r.stderr[-200:]}', flush=True)
    print('missed:', missed)


if __name__ == '__main__':
    main()
