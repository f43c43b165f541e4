"""C12: the same calls give the same bytes and results in every process and environment."""
import copy
import os

from dst import envserver
from dst.checks import c10
from dst.core import Violation

ID = 'C12'
LEVEL = 'exploration'
BUDGET = {'quick': {'runs': 20000, 'seconds': 80}, 'thorough': {'runs': 200000, 'seconds': 780}}
SHRINK = ('scripts', 'before', 'ops', 'cols', 'cells', 'specs', 'parts', 'stations', 'flips',
          'edits')
U = {'LC_ALL': 'C.UTF-8'}
# Interpreter environments; what can change inside a process is drawn per run.
ENVS = [
    {'flags': [], 'vars': {'PYTHONHASHSEED': '1', 'LC_ALL': 'C', 'PYTHONUTF8': '0',
                           'PYTHONCOERCECLOCALE': '0'}},
    {'flags': ['-O'], 'vars': {'PYTHONHASHSEED': '2', **U, 'PYTHONMALLOC': 'malloc',
                               'MALLOC_PERTURB_': '165'}},
    {'flags': ['-OO'], 'vars': {'PYTHONHASHSEED': '3', 'HOME': '/nonexistent', 'LANG': 'POSIX'}},
    {'flags': ['-X', 'dev'], 'vars': {'PYTHONHASHSEED': '4', **U}},
    {'flags': ['-X', 'utf8'], 'vars': {'PYTHONHASHSEED': '5', 'PYTHONMALLOC': 'malloc',
                                       'MALLOC_PERTURB_': '90', 'LC_ALL': 'C'}},
    {'flags': ['-s'], 'vars': {'PYTHONHASHSEED': '6', **U, 'MALLOC_PERTURB_': '1', 'PYTHONMALLOC': 'malloc_debug'}},
    {'flags': [], 'vars': {'PYTHONHASHSEED': '77', **U, 'NUMPY_MADVISE_HUGEPAGE': '0',
                           'MALLOC_ARENA_MAX': '1', 'MALLOC_TOP_PAD_': '1000000'}},
    {'flags': ['-O', '-b'], 'vars': {'PYTHONHASHSEED': '4294967295', 'PYTHONUTF8': '0',
                                     'LC_ALL': 'POSIX', 'PYTHONIOENCODING': 'latin-1'}},
]
for k in range(8, 16):
    ENVS.append({'flags': [['-O'], [], ['-OO'], ['-X', 'dev']][k % 4], 'vars': {
        'PYTHONHASHSEED': str(k * k * 1001), **U,
        **({'PYTHONMALLOC': 'malloc', 'MALLOC_PERTURB_': str(k * 15)} if k % 2 else {})}})
TZS = ['UTC', 'America/Denver', 'Asia/Kolkata', 'Pacific/Kiritimati', 'Pacific/Pago_Pago',
       'Australia/Lord_Howe', 'XYZ+12', 'ABC-14:45', '', 'EST5EDT,M3.2.0,M11.1.0', ':bogus',
       'CET-1CEST,M3.5.0,M10.5.0/3', 'Pacific/Apia', 'America/Chicago']
CLOCKS = [0, -1, 86399, 951782399, 1230768000, 2147483647, 2147483648, 3093527980, 4102444799,
          1583020800, 1709164800, 1520751600]
S = {'base': None, 'so': None, 'loc': None, 'locales': ['C', 'C.UTF-8', 'POSIX'], 'procs': []}
LOCALES = ['C', 'POSIX', 'C.UTF-8', 'tr_TR.UTF-8', 'de_DE.UTF-8', 'ja_JP.EUC-JP']


def gen_env(rng):
    return {'tz': rng.pick(TZS), 'locale': rng.pick(LOCALES),
            'cwd': rng.pick([[], ['d'], ['a b', 'é'.encode().hex()], ['x' * 100, 'y' * 100]]),
            'umask': rng.pick([None, 0, 0o77]),
            'gc': rng.pick([None, 'off', 1, 7, 100000]),
            'clock': {'at': rng.pick(CLOCKS) + rng.pick([0, 0, rng.randrange(100000000)]),
                      'step': rng.pick([0, 1, 59, 3601, 86400, -3600, 31536000])}}


def gen(rng, tier, i):
    shared = {}
    kind = rng.pick(c10.KINDS)
    n = rng.weighted([(1, 3), (2, 2), (3, 1)])
    scripts = [c10.gen_script(rng, kind if rng.chance(0.8) else rng.pick(c10.KINDS), shared)
               for _ in range(n)]
    before = [c10.gen_script(rng, kind, shared)] if rng.chance(0.4) else []
    k = 8 if tier == 'quick' else len(ENVS)
    return {'scripts': scripts, 'before': before, 'repeat': rng.weighted([(1, 5), (2, 3), (3, 1)]),
            'interp': ENVS[rng.randrange(k)], 'env': gen_env(rng)}


def prepare(base, seed, tier):
    import atexit
    S['base'] = base
    S['so'], S['loc'], S['locales'] = envserver.build_support(base)
    if tier == 'none':
        return
    envs = ENVS[:8] if tier == 'quick' else ENVS
    for e in envs:
        p = envserver.start(e, path_of(e), S['so'], S['loc'])
        S['procs'].append((p, os.getpid()))
    atexit.register(stop)
    for e, (p, _) in zip(envs, S['procs'], strict=True):
        envserver.wait_for(path_of(e), p)


def stop():
    for p, owner in S['procs']:
        if owner == os.getpid():
            p.kill()
            p.wait()


def path_of(e):
    return os.path.join(S['base'], 'env-' + envserver.name_of(e))


def run(plan, ctx):
    scripts = c10.built(plan['scripts'], ctx.scratch)
    before = c10.built(plan['before'], ctx.scratch) if plan['before'] else []
    want = [c10.solo(k, ops, ctx.scratch) for k, ops in enumerate(scripts)]
    for w in want:
        if isinstance(w, tuple):
            raise Violation(*w[1:])
    keep = [k for k, w in enumerate(want) if w is not None]
    env = dict(plan['env'])
    if env['locale'] not in S['locales']:
        env['locale'] = 'C'
    if not S['so']:
        env['clock'] = None
    d = os.path.join(ctx.scratch, 'other-' + 'n' * (plan['run'] % 40))
    os.mkdir(d)
    for k, ops in enumerate(scripts):
        if k not in keep:
            scripts[k] = []
            want[k] = []
    req = {'scripts': scripts, 'before': before, 'repeat': plan['repeat'], 'env': env,
           'scratch': d, 'cpu': 60}
    rep = envserver.ask(path_of(plan['interp']), req, 120)
    if rep[0] == 'violation':
        raise Violation(*rep[1:])
    if rep[0] != 'ok':
        raise RuntimeError(rep[1])
    ctx.fault('interpreter:' + ' '.join(plan['interp']['flags'] or ['plain']))
    for k in ('tz', 'locale', 'gc'):
        ctx.fault(f'{k}:{env[k]}')
    if env['clock']:
        ctx.fault(f"clock-step:{env['clock']['step']}")
        ctx.probe('clock-readings', rep[2])
    ctx.mark(plan['interp'], env['tz'], env['locale'], env['gc'], plan['repeat'], len(before))
    for n, once in enumerate(rep[1]):
        for k, got in enumerate(once):
            for m, (w, g) in enumerate(zip(want[k], got, strict=True)):
                ctx.steps += 1
                if g != w:
                    op = {a: b for a, b in scripts[k][m].items() if a != 'data'}
                    raise Violation('environment-dependent', f'repetition {n} script {k} step {m} '
                                    f'{str(op)[:300]}: {str(g)[:300]} instead of {str(w)[:300]}')
                ctx.probe('results-compared')


def nontrivial(plan, res):
    return res['probes'].get('results-compared', 0) > 0


BASE_ENV = {'tz': 'UTC', 'locale': 'C', 'cwd': [], 'umask': None, 'gc': None,
            'clock': {'at': 1600000000, 'step': 0}}


def simplify(plan):
    for k, v in BASE_ENV.items():
        if plan['env'][k] != v:
            yield {**plan, 'env': {**plan['env'], k: v}}
    if plan['repeat'] > 1:
        yield {**plan, 'repeat': plan['repeat'] - 1}
    if plan['before']:
        yield {**plan, 'before': []}
    for i, s in enumerate(plan['scripts']):
        for j, op in enumerate(s):
            for drop in ('fault', 'flips', 'edits', 'bad'):
                if op.get(drop):
                    p = copy.deepcopy(plan)
                    del p['scripts'][i][j][drop]
                    yield p


RULE = ('A run is one to three scripts (writers, writes with faults, readers, queries), executed '
        'alone in a fresh process of the reference interpreter and, after other scripts and '
        'repeatedly, in an interpreter with other flags, hash seed, allocator and locale, under a '
        'drawn time zone, locale, working directory, umask, collector setting and simulated clock; '
        'results and the digests of written files are compared step by step. Non-trivial: at least '
        'one step compared.')
MEASURE = 'distinct environments (interpreter, time zone, locale, collector, repetition, history)'
REAL = ['gempakio readers and writers', 'CPython, numpy, xarray, pyproj, pandas in each environment']
STUB = ['wall clock (preloaded library replacing clock_gettime, gettimeofday and time)',
        'operating-system file layer (simulated raw files over a scratch directory)']
SIMTIME = ('wall clock simulated between 1969 and 2071, standing, stepping 1 s to 1 year per reading '
           'and running backwards')
