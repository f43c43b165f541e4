"""An interpreter in an environment of its own that plays scripts on request.

Started by `Servers`, once per environment; it imports the library, calls none of it, and forks a
child per request.  A request is a pickled dictionary: the scripts and the part of the environment
that can be changed inside a process (time zone, locale, working directory, clock, collector).
"""
import ctypes
import gc
import json
import locale
import os
import pickle
import resource
import signal
import socket
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
NS = 1_000_000_000


def send(sock, data):
    sock.sendall(struct.pack('>Q', len(data)) + data)


def recv(sock):
    def exactly(n):
        b = bytearray()
        while len(b) < n:
            c = sock.recv(min(1 << 20, n - len(b)))
            if not c:
                raise EOFError('connection closed')
            b += c
        return bytes(b)
    n, = struct.unpack('>Q', exactly(8))
    return exactly(n)


# ---- playing -------------------------------------------------------------------------------


def play(req, scratch):
    """Results of every repetition of the scripts, one pass over all of them per repetition."""
    from dst.checks.c10 import Actor
    from dst.core import Ctx
    from dst.simfs import SimFS
    ctx = Ctx({}, scratch)
    fs = SimFS(scratch, ctx)
    out = []
    with fs.mounted():
        for k, ops in enumerate(req.get('before', [])):
            a = Actor(100 + k, ops, fs, ctx)
            while not a.done:
                a.step()
        for _ in range(req.get('repeat', 1)):
            once = []
            for k, ops in enumerate(req['scripts']):
                a = Actor(k, ops, fs, ctx)
                while not a.done:
                    a.step()
                once.append(a.results)
            out.append(once)
    return out


def adopt(env, scratch):
    """Take over the changeable part of the environment."""
    if env.get('tz') is not None:
        os.environ['TZ'] = env['tz']
        time.tzset()
    if env.get('locale'):
        locale.setlocale(locale.LC_ALL, env['locale'])
    cwd = os.path.join(scratch, *env.get('cwd', []))
    os.makedirs(cwd, exist_ok=True)
    os.chdir(cwd)
    if env.get('umask') is not None:
        os.umask(env['umask'])
    g = env.get('gc')
    if g == 'off':
        gc.disable()
    elif g:
        gc.set_threshold(g)
    c = env.get('clock')
    if c:
        lib = ctypes.CDLL(None)
        lib.dst_clock.argtypes = [ctypes.c_int, ctypes.c_longlong, ctypes.c_longlong]
        lib.dst_clock_calls.restype = ctypes.c_longlong
        lib.dst_clock(1, c['at'] * NS, c['step'] * NS)
        return lib
    return None


def answer(conn):
    req = pickle.loads(recv(conn))
    signal.setitimer(signal.ITIMER_PROF, req['cpu'])
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    lib = adopt(req['env'], req['scratch'])
    try:
        res = play(req, req['scratch'])
        rep = ('ok', res, lib.dst_clock_calls() if lib else 0)
    except BaseException as e:  # noqa: B036
        import traceback
        from dst.core import Violation
        if isinstance(e, Violation):
            rep = ('violation', e.kind, e.detail)
        else:
            rep = ('error', traceback.format_exc()[-3000:])
    if lib:
        lib.dst_clock(0, 0, 0)
    send(conn, pickle.dumps(rep))


def serve(path):
    sys.path.insert(0, os.path.dirname(HERE))
    from dst import core, sut
    sut.load(ids=False)     # memory layout is part of the environment
    core.warm_libraries()
    import random
    random.seed(1)
    gc.collect()
    gc.freeze()
    s = socket.socket(socket.AF_UNIX)
    s.bind(path + '.new')
    s.listen(64)
    os.rename(path + '.new', path)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    parent = os.getppid()
    s.settimeout(2)
    while os.getppid() == parent:
        try:
            conn, _ = s.accept()
        except TimeoutError:
            continue
        conn.settimeout(None)
        if os.fork() == 0:
            code = 0
            try:
                s.close()
                answer(conn)
            except BaseException:   # noqa: B036
                code = 1
            finally:
                os._exit(code)
        conn.close()


# ---- starting --------------------------------------------------------------------------------


def build_support(base):
    """The clock library and the locales; what cannot be built is left out."""
    so = os.path.join(base, 'clock.so')
    subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', so, os.path.join(HERE, 'clock.c'),
                    '-ldl'], check=False, capture_output=True)
    names = ['C', 'POSIX', 'C.UTF-8']
    loc = os.path.join(base, 'locales')
    os.makedirs(loc, exist_ok=True)
    jobs = [(n, c, subprocess.Popen(
        ['localedef', '-i', n, '-f', c, os.path.join(loc, f'{n}.{c}')],
        stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
        for n, c in (('tr_TR', 'UTF-8'), ('de_DE', 'UTF-8'), ('ja_JP', 'EUC-JP'))]
    for n, c, p in jobs:
        if p.wait() in (0, 1) and os.path.isdir(os.path.join(loc, f'{n}.{c}')):
            names.append(f'{n}.{c}')
    return so if os.path.exists(so) else None, loc, names


def start(env, path, so, loc):
    """A server process for one interpreter environment (`env` as in c12.ENVS)."""
    e = {k: v for k, v in os.environ.items() if k not in (
        'MALLOC_PERTURB_',
        'PYTHONHASHSEED', 'TZ', 'LC_ALL', 'LANG', 'PYTHONDONTWRITEBYTECODE', 'PYTHONWARNINGS')}
    e.update(env['vars'])
    e['LOCPATH'] = loc
    e['VERIF_FIXED_ENV'] = '1'
    for k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
        e[k] = '1'
    if so:
        e['LD_PRELOAD'] = so
    return subprocess.Popen(
        [sys.executable, '-W', 'ignore', '-B', *env['flags'], os.path.join(HERE, 'envserver.py'),
         path], env=e, cwd='/', stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
        stderr=open(path + '.err', 'wb'))


def wait_for(path, proc, seconds=90):
    end = time.monotonic() + seconds
    while not os.path.exists(path):
        if proc is not None and proc.poll() is not None:
            with open(path + '.err', 'rb') as f:
                raise RuntimeError(f'environment server ended: {f.read()[-2000:]!r}')
        if time.monotonic() > end:
            raise RuntimeError('environment server did not start')
        time.sleep(0.02)


def ask(path, req, seconds):
    s = socket.socket(socket.AF_UNIX)
    s.settimeout(seconds)
    try:
        s.connect(path)
        send(s, pickle.dumps(req))
        return pickle.loads(recv(s))
    finally:
        s.close()


def name_of(env):
    import hashlib
    return hashlib.sha256(json.dumps(env, sort_keys=True).encode()).hexdigest()[:12]


if __name__ == '__main__':
    serve(sys.argv[1])
