"""Python side of the simulator: loads the instrumented core, opens and closes simulated runs, interleaves interpreter
threads with the core's own threads."""
import ctypes
import os
import random
import sys
import threading

from ctypes import c_char_p, c_int, c_int64, c_uint32, c_uint64, c_void_p, POINTER, Structure, byref

u32, u64 = c_uint32, c_uint64


class Config(Structure):
    _fields_ = [('seed', u64), ('entropy_seed', u64), ('fault_seed', u64), ('max_ops', u64),
                ('strategy', u32), ('mean_run', u32), ('sync_permille', u32), ('race', u32),
                ('quarantine', u32), ('thread_fail_at', u32), ('thread_fail_len', u32), ('spurious_permille', u32),
                ('alloc_fail_at', u64), ('alloc_fail_len', u64), ('clock_base', u64), ('clock_step', u64),
                ('clock_jump_permille', u32), ('entropy_mode', u32), ('write_fail_at', u64), ('write_fault', u32),
                ('n_forced', u32), ('read_fail_at', u64), ('read_fault', u32), ('pct_depth', u32),
                ('py_hot_permille', u32), ('heap_fill', u32)]


class Switch(Structure):
    _fields_ = [('frm', u32), ('to', u32), ('ops', u64)]


class Stats(Structure):
    _fields_ = [(n, u64) for n in
                'ops switches preemptions sync_ops atomics threads allocs live_allocs live_bytes entropy_draws clock_reads '
                'clock_jumps sleeps sim_ns thread_faults alloc_faults spurious write_faults read_faults starvations '
                'hash_inter hash_all races blocked_at_end unjoined max_live_threads quarantined'.split()]

    def dict(self):
        return {n: int(getattr(self, n)) for n, _ in self._fields_}


STRATEGIES = {0: 'random walk', 1: 'priorities', 2: 'starvation', 3: 'round robin', 4: 'run to block', 5: 'forced'}
RANDOM, PRIORITY, STARVE, ROBIN, SERIAL, FORCED = range(6)


class Native:
    def __init__(self, path, fd=2, trace_path=None, cap=1 << 20):
        self.path = path
        self.lib = lib = ctypes.CDLL(path)
        self.quick = ctypes.PyDLL(path)             # for calls that never hand over the baton
        lib.sim_init.argtypes = [c_int, c_char_p, u64]
        lib.sim_begin.argtypes = [POINTER(Config)]
        lib.sim_end.argtypes = [POINTER(Stats)]
        lib.sim_stats.argtypes = [POINTER(Stats)]
        lib.sim_live_allocs.restype = u64
        lib.sim_live_bytes.restype = u64
        lib.sim_trace.argtypes = [c_void_p, u64]
        lib.sim_trace.restype = u64
        lib.sim_alloc_arm.argtypes = [u64, u64]
        lib.sim_alloc_count.restype = u64
        lib.sim_step.restype = u64
        lib.sim_fail.argtypes = [c_char_p, c_char_p]
        lib.sim_set_forced.argtypes = [c_void_p, u32]
        self.lib.sim_init(fd, trace_path.encode() if trace_path else None, cap)
        self.cap = cap
        base = 0
        with open('/proc/self/maps') as s:
            for line in s:
                if line.rstrip().endswith(os.path.realpath(path)):
                    base = int(line.split('-')[0], 16)
                    break
        lib.sim_set_text_base.argtypes = [u64]
        lib.sim_set_text_base(base)
        self.totals = {}

    def begin(self, **kw):
        forced = kw.pop('forced', None)
        c = Config()
        c.max_ops = 60000000
        c.clock_base = 1700000000 * 10 ** 9
        c.clock_step = 1000000
        c.mean_run = 100
        c.sync_permille = 200
        for k, v in kw.items():
            setattr(c, k, v)
        if forced is not None:
            seq = sorted(((f, o, i, t) for i, (f, t, o) in enumerate(forced)))
            arr = (Switch * max(1, len(seq)))()
            for i, (f, o, _, t) in enumerate(seq):
                arr[i].frm, arr[i].to, arr[i].ops = f, t, o
            self.lib.sim_set_forced(arr, len(seq))
            c.strategy, c.n_forced = FORCED, len(seq)
        self.lib.sim_begin(byref(c))

    def end(self):
        s = Stats()
        self.lib.sim_end(byref(s))
        return s.dict()

    def stats(self):
        s = Stats()
        self.lib.sim_stats(byref(s))
        return s.dict()

    def trace(self):
        arr = (Switch * self.cap)()
        n = self.lib.sim_trace(arr, self.cap)
        return [(arr[i].frm, arr[i].to, arr[i].ops) for i in range(n)]

    def live(self):
        return int(self.lib.sim_live_allocs())


def read_trace_file(path, cap=1 << 20):
    """The schedule of a run that did not come back (crash): read from the shared file."""
    try:
        with open(path, 'rb') as s:
            n = int.from_bytes(s.read(8), 'little')
            data = s.read(16 * min(n, cap))
    except OSError:
        return []
    out = []
    for i in range(0, len(data) - 15, 16):
        out.append((int.from_bytes(data[i:i + 4], 'little'), int.from_bytes(data[i + 4:i + 8], 'little'),
                    int.from_bytes(data[i + 8:i + 16], 'little')))
    return out


def schedule(rng, race=False, light=False):
    """Draws the scheduling policy of one run (swarm: every run differs)."""
    strategy = rng.choice([RANDOM, RANDOM, RANDOM, PRIORITY, PRIORITY, STARVE, ROBIN, SERIAL])
    if strategy == ROBIN:
        mean = rng.choice([1, 3, 10, 50])
    elif strategy == PRIORITY:
        mean = rng.choice([20, 200, 2000])
    else:
        mean = rng.choice([2, 8, 30, 100, 400, 2000, 10000])
    if light and strategy != PRIORITY:
        mean = max(mean, 30)
    return dict(seed=rng.getrandbits(63), entropy_seed=rng.getrandbits(63), fault_seed=rng.getrandbits(63),
                strategy=strategy, mean_run=mean, sync_permille=rng.choice([0, 50, 200, 500, 900]),
                pct_depth=rng.choice([1, 2, 3, 6]), py_hot_permille=rng.choice([0, 8, 40, 300]), spurious_permille=rng.choice([0, 0, 100, 400]),
                clock_jump_permille=rng.choice([0, 0, 200]), heap_fill=rng.randrange(6) + rng.choice([0, 8]), race=1 if race else 0, quarantine=1 if race else 0)


class PyThreads:
    """Runs Python callables as simulated threads; every executed line of the traced packages is a preemption point."""

    def __init__(self, native, prefix, trace_lines=True):
        self.native, self.prefix, self.trace_lines = native, prefix, trace_lines
        self.lines = 0

    def _tracer(self):
        tick, switch, prefix = self.native.quick.sim_py_tick, self.native.lib.sim_py_switch, self.prefix

        def local(frame, event, arg):
            if event == 'line':
                self.lines += 1
                if tick(0):
                    switch()
            return local

        def hot(frame, event, arg):             # lines that talk to the core: shared function objects
            if event == 'line':
                self.lines += 1
                if tick(1):
                    switch()
            return hot
        core = os.path.join(prefix, 'core') + os.sep

        def glob(frame, event, arg):
            name = frame.f_code.co_filename
            return (hot if name.startswith(core) else local) if name.startswith(prefix) else None
        return glob

    def run(self, functions):
        """Runs all callables concurrently; returns [(ok, value or exception)]."""
        lib, out, threads = self.native.lib, [None] * len(functions), []
        for i, fn in enumerate(functions):
            tid = lib.sim_py_alloc()

            def body(i=i, fn=fn, tid=tid):
                lib.sim_py_attach(tid)
                try:
                    if self.trace_lines:
                        sys.settrace(self._tracer())
                    try:
                        out[i] = (True, fn())
                    except Exception as e:          # noqa
                        out[i] = (False, e)
                    finally:
                        sys.settrace(None)
                finally:
                    lib.sim_py_detach()
            th = threading.Thread(target=body, daemon=True)
            threads.append((tid, th))
            th.start()
            lib.sim_py_await(tid)
        for tid, th in threads:
            lib.sim_py_join(tid)
            th.join()
        return out


_loaded = {}
_STATE = ('_ccore_library__library', '_ccore_library__workable', '_ccore_library__initialized')


def use_core(path):
    """Makes the Python package work with the given core library."""
    import pyclustering.core.definitions as d
    import pyclustering.core.wrapper as w
    d.PATH_PYCLUSTERING_CCORE_LIBRARY = w.PATH_PYCLUSTERING_CCORE_LIBRARY = path
    lib = w.ccore_library
    if all(hasattr(lib, k) for k in _STATE):            # the loader's own state, so that one library object serves all runs
        if path not in _loaded:
            setattr(lib, _STATE[0], None)
            setattr(lib, _STATE[2], False)
            if not lib.workable():
                raise RuntimeError('the package does not accept the core at %s' % path)
            _loaded[path] = lib.get()
        for k, v in zip(_STATE, (_loaded[path], True, True)):
            setattr(lib, k, v)
        for k in [k for k in vars(_loaded[path]) if not k.startswith('_')]:     # as freshly loaded: no declared types of earlier runs
            delattr(_loaded[path], k)
        if lib.get() is _loaded[path] and lib.workable():
            return lib
    lib.initialize()
    if not lib.workable():
        raise RuntimeError('the package does not accept the core at %s' % path)
    return lib
