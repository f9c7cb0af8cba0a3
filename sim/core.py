"""Deterministic simulator: simulated processes, threads, locks, clock, hash seeds and faults.

A simulated process is a fresh import of the code in /repo inside this interpreter, with the seams below
under control of the simulator.  Client threads are real threads of which exactly one runs at any time: a
baton is passed at line events of /repo's code, at lock operations and at sleeps, following a schedule that
is part of the scenario.  Everything that happens is a function of the scenario and the code in /repo.
"""
import sys, os, threading, importlib, importlib.machinery, importlib.util, zlib, builtins, logging, time, hashlib, _thread
REPO = os.environ.get('VERIF_REPO', '/repo')
SIM = os.path.dirname(os.path.abspath(__file__))
REPO_PREFIXES = (os.path.join(REPO, 'emlp') + os.sep, os.path.join(REPO, 'experiments') + os.sep)
_real_Lock, _real_RLock = threading.Lock, threading.RLock
_real_time, _real_sleep, _real_monotonic, _real_perf = time.time, time.sleep, time.monotonic, time.perf_counter
_allocate = _thread.allocate_lock


class SimError(BaseException):
    """The simulated clients cannot go on: a progress violation"""
class Abort(BaseException):
    """Tears down the clients of a run that is over"""
class HarnessError(Exception):
    pass


# ------------------------------------------------------------------ loading /repo's code
class _Loader(importlib.machinery.SourceFileLoader):
    """Compiles each file of /repo once per interpreter, so that every simulated process runs the same code
    objects, and turns on line events for them."""
    codes = {}
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        c = self.codes.get(path)
        if c is None:
            c = self.codes[path] = self.source_to_code(self.get_data(path), path)
            _instrument(c)
        return c

class _Finder:
    roots = {'emlp': REPO}
    @classmethod
    def find_spec(cls, name, path=None, target=None):
        root = name.split('.')[0]
        if root not in cls.roots: return None
        base = os.path.join(cls.roots[root], *name.split('.'))
        for loc, pkg in ((os.path.join(base, '__init__.py'), True), (base + '.py', False)):
            if os.path.isfile(loc):
                return importlib.util.spec_from_file_location(name, loc, loader=_Loader(name, loc),
                                                              submodule_search_locations=[base] if pkg else None)
        if os.path.isdir(base): # namespace package (experiments/trainer has no __init__)
            s = importlib.machinery.ModuleSpec(name, None, is_package=True)
            s.submodule_search_locations = [base]
            return s
        return None
sys.meta_path.insert(0, _Finder)

TOOL = 4
_mon = sys.monitoring
_mon.use_tool_id(TOOL, 'verif-sim')
def _instrument(code):
    _mon.set_local_events(TOOL, code, _mon.events.LINE)
    for c in code.co_consts:
        if hasattr(c, 'co_code'): _instrument(c)

_sched = None   # the scheduler of the run in progress
def _on_line(code, line):
    s = _sched
    if s is not None: s.on_line(code, line)
_mon.register_callback(TOOL, _mon.events.LINE, _on_line)

_frame_ok = {}
def _safe(code):
    """May the baton be passed while a frame of this code is on the stack? Only if it holds no locks or
    half made state of a library that is shared between simulated processes (jax, torch, logging ...)."""
    v = _frame_ok.get(code)
    if v is None:
        fn = code.co_filename
        v = fn.startswith(REPO_PREFIXES) or fn.startswith(SIM) or '/torch/' in fn or ('/plum/' in fn and code.co_name in ('__call__', '__get__')) \
            or fn.endswith('/functools.py')
        if code.co_name == '<module>' : v = False
        _frame_ok[code] = v
    return v


# ------------------------------------------------------------------ scheduler
class _Client:
    def __init__(self, tid, fn):
        self.tid, self.fn = tid, fn
        self.sem = _allocate(); self.sem.acquire()
        self.steps = 0; self.state = 'ready'; self.wake = None; self.waiting = None
        self.quiet = 0; self.result = None; self.exc = None; self.calls = {}; self.marks = []

class Lines(list):
    """executed lines of a profiled run; mut: (client, step, which) right after shared state of the library changed"""
    def __init__(self): self.mut = []
def shared_containers():
    """dictionaries, lists and sets that live as long as the process: in modules, classes and functions of the library"""
    out = {}
    def look(d, depth):
        for k, v in sorted(d.items(), key=lambda kv: str(kv[0])):
            if str(k).startswith('__'): continue
            if isinstance(v, (dict, list, set)): out.setdefault(id(v), v)
            elif depth and isinstance(v, type) and str(getattr(v, '__module__', '')).split('.')[0] in _Finder.roots: look(vars(v), 0)
            elif getattr(v, '__dict__', None) and callable(v) and not isinstance(v, type) and str(getattr(v, '__module__', '')).split('.')[0] in _Finder.roots: look(v.__dict__, 0)
    for n, m in sorted(sys.modules.items()):
        if m is not None and n.split('.')[0] in _Finder.roots: look(vars(m), 1)
    return [v for v in out.values() if type(v).__len__ in (dict.__len__, list.__len__, set.__len__)]

class Sched:
    """preempt: {(tid, local step): tid to run next}; faults: {(tid, local step): kind};
    seamfaults: {(tid, seam, nth call): kind}"""
    def __init__(self, preempt=(), faults=(), seamfaults=(), step_limit=3000000, profile=False, anywhere=False):
        self.anywhere = anywhere # faults also below frames of other libraries (for runs with one client)
        self.preempt = {(a, b): c for a, b, c in preempt}
        self.faults = {(a, b): c for a, b, c in faults}
        self.seamfaults = {(a, b, c): d for a, b, c, d in seamfaults}
        self.step_limit, self.profile = step_limit, profile
        self.total = 0; self.now = 1.0e9; self.lines = Lines(); self.shared = shared_containers() if profile else (); self.sizes = None; self.switches = []; self.fired = []
        self.clients = []; self.byident = {}; self.current = None; self.dead = None
        self.done = threading.Event(); self.log = hashlib.sha1()
        self.spins = 0
        self.locks = 0

    # -- running
    def run(self, fns, timeout=None):
        global _sched
        if _sched is not None: raise HarnessError('nested runs')
        self.clients = [_Client(i, f) for i, f in enumerate(fns)]
        ths = [threading.Thread(target=self._main, args=(c,), daemon=True) for c in self.clients]
        _sched = self
        try:
            for t in ths: t.start()
            self._handoff(0)
            self.done.wait()
            for t in ths: t.join()
        finally:
            _sched = None
        return self.clients

    def _main(self, c):
        self.byident[_thread.get_ident()] = c
        c.sem.acquire()
        try:
            if self.dead is None: c.result = c.fn(c)
        except Abort: pass
        except BaseException as e:
            c.exc = e
        c.state = 'done'
        if self.dead is not None: # tearing down: the next one aborts as well
            for o in self.clients:
                if o.state != 'done':
                    o.state = 'ready'; self._handoff(o.tid); return
            self.done.set(); return
        n = self._next(c.tid)
        if n is None:
            if all(o.state == 'done' for o in self.clients): self.done.set()
            else:
                self._die('deadlock: every remaining client waits for a lock')
                for o in self.clients:
                    if o.state != 'done': o.state = 'ready'; self._handoff(o.tid); return
        else: self._handoff(n)

    def _handoff(self, tid):
        c = self.clients[tid]
        self.current = tid
        c.sem.release()

    def _die(self, why):
        if self.dead is None: self.dead = why

    def _runnable(self, c):
        if c.state == 'ready': return True
        if c.state == 'blocked' and c.waiting is not None and c.waiting(): return True
        return False

    def _next(self, after, want=None):
        n = len(self.clients)
        order = ([want] if want is not None else []) + [(after + 1 + i) % n for i in range(n)]
        for t in order:
            if t < n and self._runnable(self.clients[t]): return t
        # nobody can run: jump the clock to the first sleeper
        sl = [(c.wake, c.tid) for c in self.clients if c.state in ('sleeping', 'blocked') and c.wake is not None]
        if sl:
            w, t = min(sl)
            self.now = max(self.now, w)
            return t
        return None

    def me(self):
        return self.byident.get(_thread.get_ident())

    def _switch(self, c, tid):
        if tid == c.tid:
            c.state = 'ready'; return
        self.switches.append((c.tid, c.steps, tid))
        self._handoff(tid)
        c.sem.acquire()
        c.state = 'ready'; c.wake = None
        if self.dead is not None: raise Abort()

    def on_line(self, code, line):
        c = self.byident.get(_thread.get_ident())
        if c is None or c.quiet: return
        f = sys._getframe(2)
        while not self.anywhere:
            co = f.f_code
            if co is _MAIN: break
            if not _safe(co): return
            f = f.f_back
            if f is None: return
        if self.dead is not None: raise Abort()
        c.steps += 1; self.total += 1
        if self.profile:
            self.lines.append((c.tid, c.steps, code.co_qualname, line))
            z = list(map(len, self.shared))
            if z != self.sizes:
                if self.sizes is not None: self.lines.mut.append((c.tid, c.steps, next(i for i, (a, b) in enumerate(zip(z, self.sizes)) if a != b)))
                self.sizes = z
        if self.total > self.step_limit:
            self._die(f'no progress: more than {self.step_limit} steps'); raise Abort()
        self.now += 1e-5
        k = (c.tid, c.steps)
        fault = self.faults.get(k)
        if fault is not None:
            self.fired.append((c.tid, c.steps, fault, code.co_qualname, line))
            if fault in ('kill', 'power'): self.disk.strike(fault)
            raise make_fault(fault)
        want = self.preempt.get(k)
        if want is not None and len(self.clients) > 1:
            t = self._next(c.tid, want)
            if t is not None and t != c.tid: self._switch(c, t)

    def pause(self, c):
        """a scheduling point that is not a line of the library (an operation of a simulated device)"""
        c.steps += 1; self.total += 1; self.now += 1e-4
        if self.total > self.step_limit: self._die(f'no progress: more than {self.step_limit} steps'); raise Abort()
        if self.profile: self.lines.append((c.tid, c.steps, 'device', 0))
        want = self.preempt.get((c.tid, c.steps))
        if want is not None and len(self.clients) > 1:
            t = self._next(c.tid, want)
            if t is not None and t != c.tid: self._switch(c, t)

    def seam(self, name):
        """Called by seam wrappers: counts the call and returns the fault to inject, if any"""
        c = self.me()
        if c is None or c.quiet: return None
        n = c.calls[name] = c.calls.get(name, 0) + 1
        k = self.seamfaults.get((c.tid, name, n))
        if k is not None: self.fired.append((c.tid, n, k, name, 0))
        return k

    # -- blocking operations of the clients
    def block(self, c, ready, deadline=None):
        """Waits until ready(); returns False when the deadline passed first"""
        while not ready():
            self.spins += 1
            if self.spins > 20000: self._die('no progress: endless waiting'); raise Abort()
            c.state = 'blocked'; c.waiting = ready; c.wake = deadline
            t = self._next(c.tid)
            if t is None:
                self._die('deadlock: every remaining client waits for a lock'); raise Abort()
            self._switch(c, t)
            if deadline is not None and self.now >= deadline and not ready(): return False
        c.state = 'ready'
        return True

    def sleep(self, c, dt):
        self.spins += 1
        if self.spins > 20000: self._die('no progress: endless sleeping'); raise Abort()
        c.state = 'sleeping'; c.wake = self.now + max(dt, 0)
        self.now += 1e-6
        t = self._next(c.tid)
        if t is None or t == c.tid: self.now = max(self.now, c.wake); c.state = 'ready'; return
        self._switch(c, t)

_MAIN = Sched._main.__code__

def make_fault(kind):
    if kind == 'interrupt': return KeyboardInterrupt('injected')
    if kind == 'memory': return MemoryError('injected')
    if kind == 'runtime': return RuntimeError('RESOURCE_EXHAUSTED: injected')
    if kind == 'linalg':
        import numpy as np
        return np.linalg.LinAlgError('injected: SVD did not converge')
    if kind == 'oserror': return OSError(28, 'injected: No space left on device')
    if kind == 'assertion': return AssertionError('injected')
    raise HarnessError(kind)


# ------------------------------------------------------------------ locks, clock
def _from_repo(depth=2):
    f = sys._getframe(depth)
    while f is not None and f.f_code.co_filename == threading.__file__: f = f.f_back
    return f is not None and f.f_code.co_filename.startswith(REPO_PREFIXES)

class SimLock:
    def __init__(self, re=False): self.owner, self.n, self.re = None, 0, re
    def _key(self):
        s = _sched; c = s.me() if s is not None else None
        return (s, c, c.tid if c is not None else 'main')
    def acquire(self, blocking=True, timeout=-1):
        s, c, k = self._key()
        if self.n and self.re and self.owner == k: self.n += 1; return True
        if self.n:
            if not blocking: return False
            if c is None: raise SimError('deadlock: lock is never released')
            if not s.block(c, lambda: self.n == 0, None if timeout is None or timeout < 0 else s.now + timeout): return False
        if s is not None: s.locks += 1
        self.owner, self.n = k, 1
        return True
    def release(self):
        if not self.n: raise RuntimeError('release unlocked lock')
        self.n -= 1
        if not self.n: self.owner = None
    def locked(self): return self.n > 0
    def __enter__(self): self.acquire(); return self
    def __exit__(self, *a): self.release()

class SimCondition:
    def __init__(self, lock=None): self.lock = lock or SimLock(True); self.tickets = []
    def acquire(self, *a): return self.lock.acquire(*a)
    def release(self): self.lock.release()
    def __enter__(self): return self.lock.__enter__()
    def __exit__(self, *a): return self.lock.__exit__(*a)
    def wait(self, timeout=None):
        s, c, k = self.lock._key()
        if c is None: raise SimError('waiting for a notification that never comes')
        tk = [False]; self.tickets.append(tk)
        n, self.lock.n, self.lock.owner = self.lock.n, 0, None
        ok = s.block(c, lambda: tk[0], None if timeout is None else s.now + timeout)
        if tk in self.tickets: self.tickets.remove(tk)
        s.block(c, lambda: self.lock.n == 0)
        self.lock.n, self.lock.owner = n, k
        return ok
    def wait_for(self, pred, timeout=None):
        r = pred()
        while not r:
            if not self.wait(timeout): return pred()
            r = pred()
        return r
    def notify(self, n=1):
        for tk in self.tickets[:n]: tk[0] = True
        self.tickets = self.tickets[n:]
    def notify_all(self): self.notify(len(self.tickets))

class SimEvent:
    def __init__(self): self.flag = False
    def is_set(self): return self.flag
    def set(self): self.flag = True
    def clear(self): self.flag = False
    def wait(self, timeout=None):
        s = _sched; c = s.me() if s is not None else None
        if self.flag: return True
        if c is None:
            if timeout is None: raise SimError('waiting for an event that is never set')
            return False
        return s.block(c, lambda: self.flag, None if timeout is None else s.now + timeout)

class SimSemaphore:
    def __init__(self, value=1): self.v = value
    def acquire(self, blocking=True, timeout=None):
        s = _sched; c = s.me() if s is not None else None
        if self.v <= 0:
            if not blocking: return False
            if c is None: raise SimError('deadlock: semaphore is never released')
            if not s.block(c, lambda: self.v > 0, None if timeout is None else s.now + timeout): return False
        self.v -= 1; return True
    def release(self, n=1): self.v += n
    def __enter__(self): self.acquire(); return self
    def __exit__(self, *a): self.release()

def _patch_threading():
    real = {n: getattr(threading, n) for n in ('Lock', 'RLock', 'Condition', 'Event', 'Semaphore', 'BoundedSemaphore')}
    sim = dict(Lock=lambda: SimLock(), RLock=lambda: SimLock(True), Condition=SimCondition, Event=SimEvent,
               Semaphore=SimSemaphore, BoundedSemaphore=SimSemaphore)
    def mk(n):
        def make(*a, **k): return (sim[n] if _from_repo() else real[n])(*a, **k)
        return make
    # classes that others may subclass stay classes: only /repo's view (module attribute of a proxy) differs
    class ThreadingProxy:
        def __getattr__(self, k): return getattr(threading, k)
    for n in ('Lock', 'RLock'): setattr(threading, n, mk(n))
    p = ThreadingProxy()
    for n in real: setattr(p, n, (lambda n: lambda *a, **k: sim[n](*a, **k))(n))
    return p, sim, real
_threading_proxy, _sim_sync, _real_sync = _patch_threading()

class _Clock:
    """time as /repo sees it"""
    def __getattr__(self, k): return getattr(time, k)
    def time(self): return _sched.now if _sched is not None else FREE_CLOCK[0]
    monotonic = perf_counter = time
    def sleep(self, dt):
        s = _sched; c = s.me() if s is not None else None
        if c is not None: s.sleep(c, dt)
        else: FREE_CLOCK[0] += dt
FREE_CLOCK = [1.0e9]
_clock = _Clock()


# ------------------------------------------------------------------ hash seeds and addresses
class Salt:
    value = 0
    tokens = {}
    keep = []

def sim_hash(o):
    """hash() with the string hash seed and the object addresses chosen by the scenario"""
    if isinstance(o, tuple): return _mix('t', tuple(sim_hash(e) for e in o))
    if isinstance(o, str): return _mix('s', o)
    if isinstance(o, type): return _mix('c', o.__name__)
    if type(o).__hash__ is object.__hash__: return sim_id(o)
    return builtins.hash(o)
def _mix(tag, x):
    h = zlib.crc32(repr((Salt.value, tag, x)).encode())
    return (h << 20) ^ zlib.crc32(repr((x, Salt.value, 7)).encode())
def sim_id(o):
    k = builtins.id(o)
    if k not in Salt.tokens:
        Salt.tokens[k] = _mix('i', len(Salt.tokens)); Salt.keep.append(o)
    return Salt.tokens[k]


# ------------------------------------------------------------------ seams into the numerical backend
def _nan_like(out):
    import jax.numpy as jnp
    return type(out)(*[jnp.full(x.shape, jnp.nan, x.dtype) for x in out]) if hasattr(out, '_fields') else tuple(jnp.full(x.shape, jnp.nan, x.dtype) for x in out)

_seams_done = False
def share_compiled():
    """A restarted process compiles the same programs again: programs whose intermediate code is equal, character by
    character, are compiled once per interpreter (executables have no state of their own)"""
    import collections, io
    from jax._src import compiler
    real = compiler.backend_compile; cache = collections.OrderedDict()
    def backend_compile(backend, module, options, host_callbacks):
        if host_callbacks: return real(backend, module, options, host_callbacks)
        f = io.StringIO(); module.operation.print(file=f, enable_debug_info=False, large_elements_limit=None)
        k = (hashlib.sha256(f.getvalue().encode()).digest(), bytes(options.SerializeAsString()), builtins.id(backend))
        r = cache.get(k)
        if r is None:
            r = cache[k] = real(backend, module, options, host_callbacks)
            if len(cache) > 1500: cache.popitem(last=False)
        else: cache.move_to_end(k)
        return r
    compiler.backend_compile = backend_compile
def install_seams():
    """Wrappers around calls into the numerical backend that can fail"""
    global _seams_done
    if _seams_done: return
    _seams_done = True
    import jax, jax.numpy as jnp, numpy as np, scipy.linalg
    share_compiled()
    def wrap(mod, name, seam, nan):
        real = getattr(mod, name)
        def fn(*a, **k):
            s = _sched
            if s is None: return real(*a, **k)
            f = sys._getframe(1)
            if not f.f_code.co_filename.startswith(REPO_PREFIXES): return real(*a, **k)
            fault = s.seam(seam)
            if fault == 'nan' and nan: return _nan_like(real(*a, **k))
            if fault == 'nan': raise make_fault('linalg')
            if fault: raise make_fault(fault)
            return real(*a, **k)
        fn.__wrapped__ = real; fn.__name__ = name
        setattr(mod, name, fn)
    wrap(jnp.linalg, 'svd', 'jax_svd', True)
    wrap(jax, 'device_put', 'device_put', False)
    wrap(np.linalg, 'svd', 'lapack_svd', False)
    wrap(scipy.linalg, 'svd', 'lapack_svd', False)
    for n, m in (('qr', np.linalg), ('eigh', np.linalg), ('inv', jnp.linalg), ('qr', jnp.linalg), ('eigh', jnp.linalg)):
        wrap(m, n, 'linalg', False)


# ------------------------------------------------------------------ simulated processes
KRYLOV_ENV = ('EMLP_SIM_SVD_LIMIT', 'EMLP_SIM_KRYLOV_LIMIT')

def kill_process():
    """The simulated process ends: all its memory is gone"""
    import plum
    for m in [m for m in sys.modules if m.split('.')[0] in _Finder.roots]: del sys.modules[m]
    plum.dispatch.functions.clear(); plum.dispatch.classes.clear()
    Salt.tokens.clear(); Salt.keep.clear()

def start_process(salt=0, npseed=0, svd_limit=None, krylov_limit=None, extra=()):
    """A new process imports the library. Returns the emlp package."""
    import numpy as np, random
    install_seams()
    kill_process()
    Salt.value = salt
    for k, v in zip(KRYLOV_ENV, (svd_limit, krylov_limit)):
        if v is None: os.environ.pop(k, None)
        else: os.environ[k] = repr(v)
    np.random.seed(npseed % 2**32); random.seed(npseed)
    rl = logging.root.level
    import emlp
    for x in extra: importlib.import_module(x)
    for name, m in list(sys.modules.items()):
        if name.split('.')[0] in _Finder.roots and getattr(m, '__file__', None):
            m.hash = sim_hash; m.id = sim_id
            for a, v in list(vars(m).items()):
                if v is threading: setattr(m, a, _threading_proxy)
                elif v is time: setattr(m, a, _clock)
                elif v is _real_sleep: setattr(m, a, _clock.sleep)
                elif v in (_real_time, _real_monotonic, _real_perf) if callable(v) and getattr(v,'__module__',None)=='time' else False: setattr(m, a, _clock.time)
                else:
                    for n, r in _real_sync.items():
                        if v is r: setattr(m, a, _sim_sync[n])
    logging.root.setLevel(rl)
    # wall clock readings of a process that has no clients running
    FREE_CLOCK[0] = 1.0e9
    return emlp

class ErrorLog(logging.Handler):
    def __init__(self): super().__init__(logging.DEBUG); self.records = []
    def emit(self, r):
        try: self.records.append((r.levelno, r.getMessage()))
        except Exception: self.records.append((r.levelno, str(r.msg)))
ERRORS = ErrorLog()
logging.root.handlers[:] = [ERRORS]
logging.root.setLevel(logging.WARNING)
