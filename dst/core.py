"""Deterministic simulation core: seeds, plans, forked runs, shrinking, replay, evidence.

A *plan* is a JSON document generated from one integer.  Executing a plan is a pure function of
the plan and the code under test.  Every run happens in a process forked from a zygote that has
imported the library but never called it, so no state leaks from run to run.
"""
import contextlib
import copy
import gc
import hashlib
import importlib
import json
import logging
import os
import random
import resource
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CPU_LIMIT = float(os.environ.get('VERIF_RUN_CPU', '40'))   # CPU seconds per run
SHRINK_S = float(os.environ.get('VERIF_SHRINK_S', '60'))   # seconds spent on minimising


class Violation(Exception):
    """A property violation: `kind` is the class kept by the shrinker, `detail` the specifics."""

    def __init__(self, kind, detail=''):
        super().__init__(f'{kind}: {detail}')
        self.kind = kind
        self.detail = str(detail)


class SimHang(BaseException):
    """Raised inside the run when its CPU budget is used up."""


class SimCrash(BaseException):
    """Simulated process crash (never caught by code under test)."""


def derive(*parts):
    """Stable 63-bit integer from the parts."""
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:8], 'big') >> 1


class Rng(random.Random):
    """The only randomness in plan generation."""

    def chance(self, p):
        return self.random() < p

    def pick(self, seq):
        return seq[self.randrange(len(seq))]

    def weighted(self, pairs):
        tot = sum(w for _, w in pairs)
        x = self.random() * tot
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]


class Outcome:
    """Result of one call into the code under test."""

    __slots__ = ('value', 'exc')

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None


class Ctx:
    """Per-run recorder: event log, fault counters, probes."""

    def __init__(self, plan, scratch):
        self.plan = plan
        self.scratch = scratch
        self.events = []
        self.hash = hashlib.sha256()
        self.faults = {}
        self.probes = {}
        self.steps = 0
        self.marks = set()

    def log(self, *event):
        s = json.dumps(event, default=str, sort_keys=True)
        self.hash.update(s.encode())
        if len(self.events) < 4000:
            self.events.append(s)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.log('fault', kind)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def mark(self, *what):
        """Record an abstract state/interleaving reached (for the distinct-states measure)."""
        self.marks.add(hashlib.sha256(repr(what).encode()).hexdigest()[:16])

    def call(self, label, fn, *a, **k):
        """Call the code under test; exceptions are data."""
        try:
            out = Outcome(fn(*a, **k))
            self.log('call', label, 'ok')
        except (SimHang, SimCrash, Violation):
            raise
        except BaseException as e:   # noqa: B036 - interrupts are injected on purpose
            if isinstance(e, (SystemExit, GeneratorExit)):
                raise
            out = Outcome(None, e)
            self.log('call', label, 'exc', type(e).__name__)
        return out

    @contextlib.contextmanager
    def observing(self, what):
        """Reading results of the code under test: a malformed result is a violation."""
        try:
            yield
        except Violation:
            raise
        except Exception as e:
            raise Violation('malformed-result', f'{what}: {type(e).__name__}: {e}') from e

    def require(self, cond, kind, detail=''):
        if not cond:
            raise Violation(kind, detail() if callable(detail) else detail)


# --------------------------------------------------------------------------------------------
# one run


def load_check(cid):
    return importlib.import_module('dst.checks.' + cid.lower())


def _on_prof(*_):
    raise SimHang()


def execute(check, plan, scratch):
    """Run one plan in this process.  Returns the result dictionary."""
    ctx = Ctx(plan, scratch)
    res = {'status': 'ok'}
    logging.disable(logging.CRITICAL)
    signal.signal(signal.SIGPROF, _on_prof)
    limit = plan.get('cpu', CPU_LIMIT)
    signal.setitimer(signal.ITIMER_PROF, limit, 1.0)
    soft = int(limit) + 15
    resource.setrlimit(resource.RLIMIT_CPU, (soft, soft + 5))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        check.run(plan, ctx)
    except Violation as v:
        res = {'status': 'violation', 'kind': v.kind, 'detail': v.detail[:3000]}
    except SimHang:
        res = {'status': 'violation', 'kind': 'nontermination',
               'detail': f'run used more than {limit} CPU seconds'}
    except BaseException:   # noqa: B036
        res = {'status': 'harness-error', 'detail': traceback.format_exc()[-4000:]}
    signal.setitimer(signal.ITIMER_PROF, 0)
    ctx.log('end', res['status'], res.get('kind'))
    res.update(digest=ctx.hash.hexdigest()[:24], faults=ctx.faults, probes=ctx.probes,
               marks=sorted(ctx.marks)[:2000], steps=ctx.steps, nevents=len(ctx.events))
    if res['status'] != 'ok' or plan.get('want_events'):
        res['events'] = ctx.events[-400:]
    return res


def scratch_root():
    for d in ('/dev/shm', tempfile.gettempdir()):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


def run_forked(check, plan, base, wall=150):
    """Execute the plan in a forked child with a scratch directory of its own."""
    scratch = tempfile.mkdtemp(prefix='run', dir=base)
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            for s in (signal.SIGTERM, signal.SIGINT):
                signal.signal(s, signal.SIG_DFL)
            gc.freeze()
            gc.collect()        # nothing left to visit: sets the counters to a known state
            res = execute(check, plan, scratch)
            data = json.dumps(res, default=str).encode()
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:   # noqa: B036
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = bytearray()
    deadline = time.monotonic() + wall
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        rd, _, _ = select.select([r], [], [], min(left, 5))
        if rd:
            chunk = os.read(r, 1 << 16)
            if not chunk:
                break
            buf += chunk
    os.close(r)
    with contextlib.suppress(ProcessLookupError, PermissionError):
        if timed_out:
            os.killpg(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    with contextlib.suppress(ProcessLookupError, PermissionError):
        os.killpg(pid, signal.SIGKILL)
    shutil.rmtree(scratch, ignore_errors=True)
    if buf and not timed_out:
        try:
            return json.loads(bytes(buf))
        except ValueError:
            pass
    empty = {'faults': {}, 'probes': {}, 'marks': [], 'steps': 0, 'nevents': 0, 'digest': ''}
    if timed_out:
        return {'status': 'harness-error', 'detail': f'run exceeded {wall} s wall time', **empty}
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        if sig == signal.SIGXCPU:
            return {'status': 'violation', 'kind': 'nontermination',
                    'detail': 'CPU limit reached inside native code', **empty}
        if sig == signal.SIGKILL:
            return {'status': 'harness-error',
                    'detail': 'run was killed (SIGKILL; out of memory in the sandbox?)', **empty}
        return {'status': 'violation', 'kind': 'interpreter-crash', 'detail': f'signal {sig}',
                **empty}
    return {'status': 'harness-error', 'detail': f'run ended without result, status {status}',
            **empty}


# --------------------------------------------------------------------------------------------
# shrinking


def _lists(plan, names, path=()):
    """Paths of lists inside the plan that may lose elements."""
    out = []
    if isinstance(plan, dict):
        for k, v in plan.items():
            if isinstance(v, list) and k in names:
                out.append(path + (k,))
            out += _lists(v, names, path + (k,))
    elif isinstance(plan, list):
        for i, v in enumerate(plan):
            if isinstance(v, (dict, list)):
                out += _lists(v, names, path + (i,))
    return out


def _get(plan, path):
    for p in path:
        plan = plan[p]
    return plan


def _set(plan, path, value):
    for p in path[:-1]:
        plan = plan[p]
    plan[path[-1]] = value


def shrink(check, plan, kind, base, budget_s=SHRINK_S, max_attempts=600):
    """ddmin over the lists of the plan plus check-specific simplifications."""
    t0 = time.monotonic()
    attempts = 0

    def fails(p):
        nonlocal attempts
        attempts += 1
        if attempts > max_attempts or time.monotonic() - t0 > budget_s:
            return False
        r = run_forked(check, p, base)
        return r['status'] == 'violation' and r['kind'] == kind

    cur = copy.deepcopy(plan)
    names = set(getattr(check, 'SHRINK', ('ops', 'faults')))
    changed = True
    while changed and time.monotonic() - t0 < budget_s and attempts < max_attempts:
        changed = False
        for path in sorted(_lists(cur, names), key=len):
            try:
                lst = _get(cur, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(lst, list):
                continue
            n = max(1, len(lst) // 2)
            while n >= 1 and lst:
                i = 0
                while i < len(lst):
                    cand = copy.deepcopy(cur)
                    _set(cand, path, lst[:i] + lst[i + n:])
                    if fails(cand):
                        cur, lst, changed = cand, _get(cand, path), True
                    else:
                        i += n
                n //= 2
        simpl = getattr(check, 'simplify', None)
        if simpl:
            progress = True
            while progress and time.monotonic() - t0 < budget_s:
                progress = False
                for cand in simpl(copy.deepcopy(cur)):
                    if cand != cur and fails(cand):
                        cur, progress, changed = cand, True, True
                        break
    return cur, attempts


# --------------------------------------------------------------------------------------------
# known findings


def known_findings(prop):
    """`finding: property=<id> match=<kind>|<substring of detail> :: <text>` lines."""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            line = line.strip()
            if line.startswith('finding:') and f'property={prop} ' in line:
                sel = line.split('match=', 1)[1].split(' :: ')[0]
                kind, _, sub = sel.partition('|')
                out.append((kind, sub, line.split(' :: ', 1)[1]))
    return out


def match_known(known, res):
    for kind, sub, text in known:
        if res.get('kind') == kind and sub in res.get('detail', ''):
            return text
    return None


# --------------------------------------------------------------------------------------------
# batch runner


def make_plan(check, seed, tier, i):
    rng = Rng(derive(check.ID, seed, i))
    plan = check.gen(rng, tier, i)
    plan['property'] = check.ID
    plan['run'] = i
    return plan


def _worker(check, seed, tier, w, nworkers, count, deadline, base, out, stop_fd):
    for i in range(w, count, nworkers):
        if time.monotonic() > deadline:
            break
        if select.select([stop_fd], [], [], 0)[0]:
            break
        plan = make_plan(check, seed, tier, i)
        res = run_forked(check, plan, base)
        res['i'] = i
        res['nontrivial'] = bool(check.nontrivial(plan, res)) if res['status'] == 'ok' else True
        res['shape'] = hashlib.sha256(
            json.dumps({k: v for k, v in plan.items() if k != 'run'},
                       sort_keys=True).encode()).hexdigest()[:16]
        data = (json.dumps(res, default=str) + '\n').encode()
        with contextlib.suppress(BrokenPipeError):
            while data:
                n = os.write(out, data)
                data = data[n:]


def warm_libraries():
    """Import what the code under test imports lazily; calls no code under test."""
    import numpy as np
    import pandas  # noqa: F401
    import pyproj
    import xarray as xr
    da = xr.DataArray(np.zeros((1, 1, 2, 2)), dims=['time', 'p', 'y', 'x'],
                      coords={'x': [0, 1], 'y': [0, 1], 'p': [1]}, name='t')
    da.to_dataset()
    repr(da)
    for d in ({'proj': 'eqc', 'R': 6371200.0}, {'proj': 'lcc', 'lat_1': 30, 'lat_2': 60,
                                               'R': 6371200.0}):
        crs = pyproj.CRS.from_dict(d)
        crs.to_cf()
        pyproj.Proj(crs)(0, 0)


def batch(cid, tier, seed, workers=8, count=None, seconds=None, quiet=False):
    """Run the check; returns the process exit code."""
    t0 = time.monotonic()
    from dst import sut
    sut.load()
    check = load_check(cid)
    warm_libraries()
    gc.collect()
    gc.freeze()         # keeps collections in the forked runs cheap
    b = check.BUDGET[tier]
    count = count or b['runs']
    seconds = seconds or b['seconds']
    print(f'{cid}: VERIF_SEED={seed} tier={tier} runs<={count} cap={seconds}s '
          f'workers={workers} repo={sut.REPO}', flush=True)
    base = tempfile.mkdtemp(prefix=f'dst-{cid}-', dir=scratch_root())
    known = known_findings(cid)
    try:
        if hasattr(check, 'prepare'):
            check.prepare(base, seed, tier)
        return _batch(check, tier, seed, workers, count, seconds, base, known, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _batch(check, tier, seed, workers, count, seconds, base, known, t0):
    cid = check.ID
    deadline = time.monotonic() + seconds
    r, w = os.pipe()
    sr, sw = os.pipe()
    pids = []
    for k in range(workers):
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                os.close(sw)
                _worker(check, seed, tier, k, workers, count, deadline, base, w, sr)
            except BaseException:   # noqa: B036
                traceback.print_exc()
                code = 4
            finally:
                os._exit(code)
        pids.append(pid)
    os.close(w)
    os.close(sr)
    agg = {'runs': 0, 'ok': 0, 'nontrivial': set(), 'faults': {}, 'probes': {}, 'marks': set(),
           'steps': 0, 'events': 0, 'known': {}}
    violations, errors = [], []
    stopped = False
    buf = b''
    while True:
        chunk = os.read(r, 1 << 18)
        if not chunk:
            break
        buf += chunk
        *lines, buf = buf.split(b'\n')
        for line in lines:
            res = json.loads(line)
            agg['runs'] += 1
            agg['steps'] += res['steps']
            agg['events'] += res['nevents']
            for key in ('faults', 'probes'):
                for k, v in res[key].items():
                    agg[key][k] = agg[key].get(k, 0) + v
            agg['marks'].update(res['marks'])
            if res['nontrivial']:
                agg['nontrivial'].add(res['shape'])
            if res['status'] == 'violation':
                text = match_known(known, res)
                if text is not None:
                    agg['known'][text] = agg['known'].get(text, 0) + 1
                else:
                    violations.append(res)
            elif res['status'] == 'harness-error':
                errors.append(res)
            else:
                agg['ok'] += 1
            if (violations or len(errors) > 20) and not stopped:
                stopped = True
                os.write(sw, b'x')
    codes = [os.waitstatus_to_exitcode(os.waitpid(p, 0)[1]) for p in pids]
    os.close(r)
    os.close(sw)
    run_s = time.monotonic() - t0
    for text in sorted(agg['known']):
        print(f'KNOWN-FINDING: property={cid} {text}')
    rc = 0
    replay_path = None
    if violations:
        violations.sort(key=lambda v: v['i'])
        for v in violations[:3]:
            replay_path = report(check, seed, tier, v, base)
            if replay_path:
                rc = 1
                break
        if rc == 0:
            print(f'{cid}: a run reported {violations[0]["kind"]} ({violations[0]["detail"]}) but it '
                  'did not reproduce in a fresh process: harness nondeterminism', flush=True)
            rc = 2
    elif errors or any(codes):
        for e in errors[:3]:
            print(f'{cid}: HARNESS ERROR in run {e["i"]}: {e["detail"]}', flush=True)
        print(f'{cid}: worker exit codes {codes}')
        rc = 2
    elif agg['runs'] < min(count, 20):
        print(f'{cid}: only {agg["runs"]} runs finished')
        rc = 2
    wall = time.monotonic() - t0
    write_evidence(check, tier, seed, agg, violations, run_s, wall, count, workers)
    rate = agg['runs'] / max(run_s, 1e-9) * 3600
    print(f'{cid}: {agg["runs"]} runs ({len(agg["nontrivial"])} distinct non-trivial), '
          f'{rate:.0f} runs/h, faults={agg["faults"]}, states={len(agg["marks"])}, '
          f'{wall:.1f}s, exit {rc}', flush=True)
    if not violations:
        print(f'{cid}: probes {dict(sorted(agg["probes"].items()))}')
    return rc


def report(check, seed, tier, res, base):
    """Shrink, write the replay file, confirm it in a fresh interpreter, print the line."""
    cid = check.ID
    plan = make_plan(check, seed, tier, res['i'])
    print(f'{cid}: run {res["i"]} violated: {res["kind"]}: {res["detail"][:600]}', flush=True)
    small, attempts = shrink(check, plan, res['kind'], base)
    outdir = os.path.join(os.environ.get('VERIF_OUT', VERIF), 'replays')
    os.makedirs(outdir, exist_ok=True)
    for cand, label in ((small, 'minimised'), (plan, 'original')):
        r = run_forked(check, dict(cand, want_events=1), base)
        if r['status'] != 'violation':
            continue
        path = os.path.join(outdir, f'{cid}-seed{seed}-run{res["i"]}.json')
        with open(path, 'w') as f:
            json.dump({'property': cid, 'kind': r['kind'], 'detail': r['detail'],
                       'digest': r['digest'], 'verif_seed': seed, 'tier': tier,
                       'run': res['i'], 'form': label, 'shrink_attempts': attempts,
                       'plan': cand, 'trace': r.get('events', [])}, f, indent=1)
        for _ in range(3):
            env = dict(os.environ)
            p = subprocess.run([sys.executable, os.path.join(VERIF, 'run.py'), 'replay', path],
                               env=env, capture_output=True, text=True, timeout=400, check=False)
            if p.returncode == 1:
                print(p.stdout[-3000:])
                print(f'VIOLATION property={cid} replay={path}', flush=True)
                return path
            print(f'{cid}: fresh-process replay of the {label} plan exit {p.returncode}: '
                  f'{p.stdout[-500:]} {p.stderr[-800:]}')
    return None


def replay(path):
    """Replay a recorded violation in this fresh process."""
    doc = json.load(open(path))
    from dst import sut
    sut.load()
    check = load_check(doc['property'])
    warm_libraries()
    base = tempfile.mkdtemp(prefix='dst-replay-', dir=scratch_root())
    try:
        if hasattr(check, 'prepare'):
            check.prepare(base, doc['verif_seed'], doc['tier'])
        res = run_forked(check, dict(doc['plan'], want_events=1), base)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    if res['status'] == 'violation':
        same = 'identical event log' if res['digest'] == doc['digest'] else 'event log differs'
        print(f'reproduced {res["kind"]}: {res["detail"][:1500]}')
        print(f'replay: {same} ({res["digest"]})')
        return 1 if res['kind'] == doc['kind'] else 3
    print(f'replay: {res["status"]} {res.get("detail", "")}')
    return 0 if res['status'] == 'ok' else 2


def write_evidence(check, tier, seed, agg, violations, run_s, wall, count, workers):
    samples = [make_plan(check, seed, tier, i) for i in (0, 1)]
    samples = [json.loads(json.dumps(s)) for s in samples]
    for s in samples:
        if len(json.dumps(s)) > 6000:
            s_short = json.dumps(s)[:6000]
            s.clear()
            s['truncated_plan'] = s_short
    ev = {
        'property': check.ID, 'tier': tier, 'seed': seed, 'level': check.LEVEL,
        'coverage': {
            'evaluations': agg['runs'],
            'distinct_nontrivial': len(agg['nontrivial']),
            'rule': check.RULE,
            'samples': samples,
            'simulated_runs_per_hour': round(agg['runs'] / max(run_s, 1e-9) * 3600),
            'seeds': f'one derived seed per run from VERIF_SEED={seed}, runs 0..{agg["runs"]}',
            'simulated_time': getattr(check, 'SIMTIME', 'no clock in this property; progress is '
                                      'counted in scheduler/operation steps'),
            'steps': agg['steps'],
            'logged_events': agg['events'],
            'faults_injected': dict(sorted(agg['faults'].items())),
            'rare_condition_probes': dict(sorted(agg['probes'].items())),
            'distinct_states_or_interleavings': len(agg['marks']),
            'distinct_measure': check.MEASURE,
            'real_components': check.REAL,
            'stubbed_components': check.STUB,
            'workers': workers,
            'run_budget': count,
            'known_findings_hit': agg['known'],
        },
        'assumptions': getattr(check, 'ASSUME', []),
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    d = os.path.join(os.environ.get('VERIF_OUT', VERIF), 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, check.ID + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
