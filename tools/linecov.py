"""linecov.py SECONDS CHECK... - which branches of the package no run of the checks ever takes.

Runs the checks with a recorder of lines and branch directions (shared by all forked runs) and prints,
per file and function, the lines never reached and the conditions that always went one way.  It judges
nothing; it shows what the generators miss.  Environment: WORKERS (8), SEED (1).
"""
import dis
import mmap
import os
import pathlib
import sys
import types

VERIF = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(VERIF))
os.environ.setdefault('VERIF_OUT', '/tmp/linecov-out')

from dst import core, sut     # noqa: E402

TOOL = 4
mon = sys.monitoring


def codes(path):
    root = compile(path.read_text(), str(path), 'exec')
    todo = [root]
    while todo:
        c = todo.pop()
        yield c
        todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]


def key(c):
    return os.path.basename(os.path.dirname(c.co_filename)), os.path.basename(c.co_filename), \
        c.co_qualname, c.co_firstlineno


def main():
    secs = float(sys.argv[1])
    checks = sys.argv[2:]
    sut.load()
    src = pathlib.Path(sut.REPO) / 'src' / 'gempakio'
    base, size, lines = {}, 0, {}
    for p in sorted(src.rglob('*.py')):
        for c in codes(p):
            base[key(c)] = (size, c)
            size += len(c.co_code) * 2 + 2
            lines[key(c)] = size
            size += (max((x or 0 for *_, x in c.co_lines()), default=0) + 1)
    shared = mmap.mmap(-1, size + 1)
    byid = {}

    def find(code):
        b = byid.get(code)
        if b is None:
            k = key(code)
            b = byid[code] = (base[k][0], lines[k]) if k in base else None
        return b

    def on_line(code, line):
        b = find(code)
        if b:
            shared[b[1] + line] = 1
        return mon.DISABLE

    def on_branch(code, off, dest):
        b = find(code)
        if not b:
            return mon.DISABLE
        # destination right behind the instruction (and its caches) or further away
        shared[b[0] + off * 2 + (1 if abs(dest - off) > 4 else 0)] = 1

    mon.use_tool_id(TOOL, 'linecov')
    mon.register_callback(TOOL, mon.events.LINE, on_line)
    mon.register_callback(TOOL, mon.events.BRANCH, on_branch)
    import gempakio
    seen = set()

    def arm(fn):
        if isinstance(fn, types.FunctionType):
            arm_code(fn.__code__)

    def arm_code(c):
        if c in seen or str(src) not in c.co_filename:
            return
        seen.add(c)
        mon.set_local_events(TOOL, c, mon.events.LINE | mon.events.BRANCH)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                arm_code(k)
    import gc
    for o in gc.get_objects():
        arm(o)
    del gempakio
    for c in checks:
        try:
            core.batch(c, 'quick', int(os.environ.get('SEED', '1')),
                       int(os.environ.get('WORKERS', '8')), None, secs)
        except SystemExit:
            pass
    for k, (b, c) in base.items():
        if '<module>' in k[2]:
            continue
        want = {x for *_, x in c.co_lines() if x} - {c.co_firstlineno}
        miss = sorted(x for x in want if not shared[lines[k] + x])
        oneway = []
        where = {}
        ln = None
        for ins in dis.get_instructions(c):
            if ins.starts_line:
                ln = ins.starts_line
            where[ins.offset] = ln
            if ins.opname.startswith(('POP_JUMP_IF', 'FOR_ITER')):
                t = shared[b + ins.offset * 2], shared[b + ins.offset * 2 + 1]
                if sum(t) == 1 and not ins.opname.startswith('FOR'):
                    oneway.append(f'{ln}({ins.opname[12:]}{"=no" if t[0] else "=yes"})')
        if len(miss) == len(want) and want:
            print(f'{k[0]}/{k[1]} {k[2]}: NEVER RUN')
        elif miss or oneway:
            print(f'{k[0]}/{k[1]} {k[2]}: lines {miss} one way {oneway}')


if __name__ == '__main__':
    main()
