"""mutate.py OUT.jsonl [--files a,b] [--n N] [--seed S] [--workers W] - small changes against the checks.

Stage 1 makes small syntactic changes one at a time in scratch copies of /repo and keeps those
with which the stable tests still pass.  Stage 2 runs the checks that concern the file on each
survivor, with one worker and little time, until one reports a violation.  OUT gets one line per
survivor; those no check reports are to be looked at by hand: most of them change nothing a
property speaks of.
"""
import argparse
import ast
import json
import os
import pathlib
import random
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

VERIF = pathlib.Path(__file__).resolve().parent.parent
PY = '/opt/venv/bin/python'
SRC = pathlib.Path('/repo/src/gempakio')
CHECKS = {
    'encode/gempak.py': 'C01 C02 C03 C05 C13 C14 C10 C12',
    'encode/vgf.py': 'C04 C05 C13 C14 C10 C12',
    'decode/gempak.py': 'C08 C23 C24 C06 C07 C11 C09 C13 C10 C14 C01 C02 C03 C12',
    'decode/vgf.py': 'C20 C25 C04 C06 C07 C11 C10',
    'tools.py': 'C08 C20 C06 C01 C04 C07 C11 C09 C02 C03 C05 C10',
    'gemcalc.py': 'C11 C08 C10',
    'common.py': 'C01 C02 C03 C04 C08',
}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==',
       ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '//', ast.FloorDiv: '*', ast.Mod: '//', ast.Div: '*'}


class Finder(ast.NodeVisitor):
    """Collects (start, end, replacement, description) on the text of one file."""

    def __init__(self, text):
        self.lines = text.split('\n')
        self.starts = [0]
        for ln in self.lines:
            self.starts.append(self.starts[-1] + len(ln.encode()) + 1)
        self.raw = text.encode()
        self.found = []
        self.stack = []

    def span(self, n):
        return (self.starts[n.lineno - 1] + n.col_offset,
                self.starts[n.end_lineno - 1] + n.end_col_offset)

    def text(self, n):
        a, b = self.span(n)
        return self.raw[a:b].decode()

    def put(self, n, new, what):
        a, b = self.span(n)
        self.found.append((a, b, new, f'{".".join(self.stack)}:{n.lineno} {what}'))

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        for k, st in enumerate(n.body):
            if k == 0 and isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                continue
            self.visit(st)
        self.stack.pop()

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            a, b = self.text(n.left), self.text(n.comparators[0])
            self.put(n, f'{a} {CMP[type(n.ops[0])]} {b}', f'cmp {self.text(n)[:60]}')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        if len(n.values) == 2:
            a, b = map(self.text, n.values)
            op = 'or' if isinstance(n.op, ast.And) else 'and'
            self.put(n, f'(({a}) {op} ({b}))', f'bool {self.text(n)[:60]}')
            self.put(n, f'({a})', f'first of {self.text(n)[:60]}')
            self.put(n, f'({b})', f'second of {self.text(n)[:60]}')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in BIN and not isinstance(n.left, ast.JoinedStr):
            a, b = self.text(n.left), self.text(n.right)
            self.put(n, f'({a}) {BIN[type(n.op)]} ({b})', f'bin {self.text(n)[:60]}')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.put(n, f'({self.text(n.operand)})', f'not {self.text(n)[:60]}')
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.put(n, str(not n.value), f'const {n.value}')
        elif isinstance(n.value, int) and self.stack:
            self.put(n, str(n.value + 1), f'const {n.value}')
            if n.value > 0:
                self.put(n, str(n.value - 1), f'const- {n.value}')

    def visit_JoinedStr(self, n):
        pass

    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'upper', 'strip', 'rstrip'):
            self.put(n, self.text(n.func.value), f'drop .{n.func.attr}()')
        f = self.text(n.func)
        if f in ('np.array', 'list', 'sorted', 'tuple', 'np.asarray', 'deepcopy', 'copy', 'dict', 'int', 'round',
                 'abs', 'float', 'set', 'reversed', 'bytes', 'str', 'min', 'max', 'np.ma.array') \
                and n.args:
            self.put(n, self.text(n.args[0]), f'drop {f}')
        self.generic_visit(n)

    def visit_Raise(self, n):
        self.put(n, 'pass', f'no raise {self.text(n)[:50]}')

    def visit_Assign(self, n):
        if len(self.stack) > 1 or (self.stack and self.stack[0].islower()):
            self.put(n, 'pass', f'delete {self.text(n)[:60]}')
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.put(n, 'pass', f'delete {self.text(n)[:60]}')
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        t = self.text(n)
        if 'logger' in t:
            return
        self.put(n, 'pass', f'delete {t[:60]}')
        self.generic_visit(n)

    def visit_Return(self, n):
        self.generic_visit(n)

    def visit_If(self, n):
        t = self.text(n.test)
        self.put(n.test, f'(({t}) and False)', f'never {t[:60]}')
        self.put(n.test, f'(({t}) or True)', f'always {t[:60]}')
        self.generic_visit(n)

    def visit_With(self, n):
        self.generic_visit(n)

    def visit_Continue(self, n):
        self.put(n, 'break', 'continue->break')

    def visit_Break(self, n):
        self.put(n, 'continue', 'break->continue')


class State(Finder):
    """Changes to what is kept and shared: variables kept on the object, values computed once,
    state of the class, the wrong variable, statements in the wrong order, dropped arguments."""

    def __getattribute__(self, name):
        if name.startswith('visit_') and name not in State.__dict__ | {'visit_ClassDef': 0}:
            raise AttributeError(name)
        return super().__getattribute__(name)

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        args = {x.arg for x in n.args.args + n.args.kwonlyargs}
        own = 'self' in args
        names = [x for x in ast.walk(n) if isinstance(x, ast.Name)]
        inner = {y for x in ast.walk(n) if isinstance(
            x, (ast.FunctionDef, ast.Lambda, ast.comprehension)) and x is not n
            for y in ([z.arg for z in x.args.args] if hasattr(x, 'args') else
                      [z.id for z in ast.walk(x.target) if isinstance(z, ast.Name)])}
        local = {x.id for x in names if isinstance(x.ctx, ast.Store)} - inner
        if own:
            for v in sorted(local):
                self.rename(n, names, v, f'self.{v}_')
        loads = sorted({x.id for x in names if x.id in local | args - {'self'}})
        for x in names:
            if isinstance(x.ctx, ast.Load) and x.id in local | args and x.id != 'self':
                near = [y for y in loads if y != x.id and (y[:3] == x.id[:3] or y[-4:] == x.id[-4:])]
                for y in near[:3]:
                    self.put(x, y, f'{x.id} -> {y}')
        for st in ast.walk(n):
            if isinstance(st, ast.Assign) and len(st.targets) == 1:
                t, val = st.targets[0], self.text(st.value)
                if isinstance(t, ast.Name) and own:
                    at = f'self.__dict__["m_{t.id}_{st.lineno}"]'
                    self.put(st.value, f'({at} if "m_{t.id}_{st.lineno}" in self.__dict__ else '
                             f'self.__dict__.setdefault("m_{t.id}_{st.lineno}", {val}))',
                             f'once per object {self.text(st)[:50]}')
                if isinstance(t, ast.Name) and not isinstance(st.value, ast.Constant):
                    k = f'"m_{t.id}_{st.lineno}"'
                    self.put(st.value, f'(globals()[{k}] if {k} in globals() else '
                             f'globals().setdefault({k}, {val}))',
                             f'once per process {self.text(st)[:50]}')
                if n.name == '__init__' and self.text(t).startswith('self.'):
                    self.put(t, 'type(self).' + self.text(t)[5:], f'of the class {self.text(st)[:50]}')
            if isinstance(st, ast.Call):
                for k in st.keywords:
                    if k.arg:
                        a, b = self.span(st)
                        c, d = self.span(k)
                        t = self.raw[a:c].decode().rstrip().rstrip(',') + (
                            '' if True else '') + self.raw[d:b].decode()
                        if t.replace(' ', '').replace('\n', '').find('(,') < 0:
                            self.found.append((a, b, t, f'{".".join(self.stack)}:{st.lineno} '
                                               f'drop {self.text(k)[:40]}'))
                pos = [x for x in st.args if not isinstance(x, ast.Starred)]
                for x, y in zip(pos, pos[1:]):
                    a, b = self.span(x)[0], self.span(y)[1]
                    mid = self.raw[self.span(x)[1]:self.span(y)[0]].decode()
                    self.found.append((a, b, self.text(y) + mid + self.text(x),
                                       f'{".".join(self.stack)}:{st.lineno} swap '
                                       f'{self.text(x)[:30]}, {self.text(y)[:30]}'))
            for body in ('body', 'orelse', 'finalbody'):
                b = getattr(st, body, None)
                if not isinstance(b, list):
                    continue
                for x, y in zip(b, b[1:]):
                    if any(isinstance(z, (ast.Return, ast.Raise, ast.FunctionDef)) for z in (x, y)):
                        continue
                    if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                        continue
                    mid = self.raw[self.span(x)[1]:self.span(y)[0]].decode()
                    self.found.append((self.span(x)[0], self.span(y)[1],
                                       self.text(y) + mid + self.text(x),
                                       f'{".".join(self.stack)}:{x.lineno} order of '
                                       f'{self.text(x)[:30]} / {self.text(y)[:30]}'))
            if isinstance(st, ast.Try) and st.finalbody:
                self.found.append((self.span(st.finalbody[0])[0], self.span(st.finalbody[-1])[1],
                                   'pass', f'{".".join(self.stack)}:{st.lineno} no finally'))
            if isinstance(st, ast.With):
                pass
        self.stack.pop()

    def rename(self, n, names, v, new):
        """The local variable `v` of function `n` kept elsewhere."""
        a, b = self.span(n)
        out, at = b'', a
        for x in sorted((x for x in names if x.id == v), key=lambda x: self.span(x)):
            c, d = self.span(x)
            if c < a:
                continue
            out += self.raw[at:c] + new.encode()
            at = d
        self.found.append((a, b, (out + self.raw[at:b]).decode(),
                           f'{".".join(self.stack)}:{n.lineno} {v} kept on the object'))


ORIG = {}


def mutants(file, kind=Finder):
    text = (SRC / file).read_text()
    ORIG[file] = text
    f = kind(text)
    f.visit(ast.parse(text))
    raw = text.encode()
    for a, b, new, what in f.found:
        if raw[a:b] != new.encode():
            yield what, (a, b, new)


def changed(file, span):
    raw = ORIG[file].encode()
    a, b, new = span
    out = raw[:a] + new.encode() + raw[b:]
    try:
        ast.parse(out)
    except SyntaxError:
        return None
    return out.decode()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--files', default='encode/gempak.py,encode/vgf.py,decode/gempak.py,tools.py')
    ap.add_argument('--only', default='', help='substring of the place')
    ap.add_argument('--skip', default='', help='skip places holding one of these, comma separated')
    ap.add_argument('--n', type=int, default=200)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--seconds', type=float, default=20)
    ap.add_argument('--state', action='store_true', help='the other kind of change')
    ap.add_argument('--checks', default='', help='instead of those of the file')
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    every = [(f, w, t) for f in a.files.split(',') for w, t in mutants(
                 f, State if a.state else Finder) if a.only in w
             and not any(x and x in w for x in a.skip.split(','))]
    rng = random.Random(a.seed)
    pick = rng.sample(every, min(a.n, len(every)))
    print(f'{len(every)} changes, {len(pick)} drawn')
    if a.list:
        for f, w, _ in pick:
            print(f, w)
        return
    done = set()
    if os.path.exists(a.out):
        done = {(d['file'], d['what']) for d in map(json.loads, open(a.out))}
    free = Queue()
    top = pathlib.Path(tempfile.mkdtemp(prefix='mutate'))
    for k in range(a.workers):
        subprocess.run(['cp', '-a', '/repo', str(top / str(k))], check=True)
        free.put(top / str(k))
    count = {'killed': 0, 'caught': 0, 'quiet': 0}

    def one(job):
        file, what, span = job
        text = changed(file, span)
        if text is None or (file, what) in done:
            return
        repo = free.get()
        p = repo / 'src/gempakio' / file
        try:
            p.write_text(text)
            env = dict(os.environ, PYTHONPATH=str(repo / 'src'), PYTHONDONTWRITEBYTECODE='1',
                       OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
            try:
                r = subprocess.run(['sh', '-c', f'ulimit -v 16000000; exec {PY} -m pytest -q -x -p no:cacheprovider tests'],
                                   cwd=repo, env=env, capture_output=True, text=True, timeout=120,
                                   check=False)
                killed = r.returncode != 0
            except subprocess.TimeoutExpired:
                killed = True
            res = {'file': file, 'what': what}
            if killed:
                res['by'] = 'tests'
                count['killed'] += 1
            else:
                env = dict(os.environ, VERIF_REPO=str(repo), VERIF_OUT=str(repo / 'out'),
                           VERIF_SHRINK_S='0')
                res['by'] = None
                for c in (a.checks or CHECKS[file]).split():
                    try:
                        r = subprocess.run(
                            [PY, str(VERIF / 'run.py'), 'check', c, '--workers', '1', '--runs',
                             '100000', '--seconds', str(a.seconds)], env=env, capture_output=True,
                            text=True, timeout=400, check=False)
                    except subprocess.TimeoutExpired:
                        res.setdefault('odd', []).append(f'{c} timeout')
                        continue
                    if r.returncode == 1:
                        res['by'] = c
                        break
                    if r.returncode:
                        res.setdefault('odd', []).append(f'{c} {r.returncode} {r.stdout[-300:]}')
                count['caught' if res['by'] else 'quiet'] += 1
            with open(a.out, 'a') as f:
                f.write(json.dumps(res) + '\n')
        finally:
            p.write_text(ORIG[file])
            free.put(repo)

    try:
        with ThreadPoolExecutor(a.workers) as ex:
            list(ex.map(one, pick))
    finally:
        shutil.rmtree(top)
    print(count)


if __name__ == '__main__':
    main()
