"""Runs a check: spreads simulated runs over worker processes, survives their crashes, reproduces and minimises what
fails, writes the evidence file.

A check module (checks/cXX.py) provides
    ID, RULE, REAL, STUB              identification and what ran real code
    PLAN = {'quick': (runs, seconds), 'thorough': (runs, seconds)}
    make(rng, index, tier) -> case    a JSON value; everything a run does is a function of it
    run(env, case)                    executes one simulated run, raises Violation
    shrink(case) -> iterable          simpler cases (optional)
"""
import argparse
import gc
import hashlib
import importlib
import itertools
import json
import os
import random
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DSIM_REPO', '/repo')
PY = os.environ.get('DSIM_PYTHON') or ('/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable)
NPROC = 8


class Violation(Exception):
    """The property does not hold in this run. `kind` names the class of failure and survives minimisation."""
    def __init__(self, kind, message):
        super().__init__(message)
        self.kind = kind


class HarnessError(Exception):
    pass


def worker_env(hashseed=0):
    e = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'LANG', 'TMPDIR', 'DSIM_REPO', 'DSIM_PYTHON')}
    e.update(PYTHONPATH=VERIF + os.pathsep + REPO, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1',
             MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', LC_ALL='C.UTF-8', LANG='C.UTF-8',
             MPLCONFIGDIR=os.environ.get('DSIM_MPL', os.path.join(tempfile.gettempdir(), 'dsim-mpl-%d' % os.getuid())))
    return e


# ---------------------------------------------------------------------------------------------------- worker side

class Session:
    def __init__(self, env, native, cfg, main):
        self.env, self.native, self.cfg, self.main = env, native, dict(cfg), main
        self.stats = None

    def __enter__(self):
        gc.collect(0 if self.env.sessions else 2)
        self.env.sessions += 1
        forced = self.env.forced if self.main else None
        if forced is not None:
            self.native.begin(forced=[tuple(x) for x in forced], **self.cfg)
        else:
            self.native.begin(**self.cfg)
        return self

    def __exit__(self, et, ev, tb):
        self.stats = self.native.end()
        self.env.account(self.stats, self.cfg, self.main)
        return False


class Env:
    """What a run may use: natives by core count, simulated sessions, counters."""

    def __init__(self, build_dir, fd, trace_path):
        self.dir, self.fd, self.trace_path = build_dir, fd, trace_path
        self.natives = {}
        self.counts = {}
        self.faults = {}
        self.probes = {}
        self.distinct = set()
        self.run_keys = []
        self.forced = None
        self.main_native = None
        self.main_hash = None
        self.scratch = None
        self.sessions = 0

    def native(self, cores):
        from simlib import native
        if cores not in self.natives:
            os.environ['DSIM_CORES'] = str(cores)
            path = os.path.join(self.dir, 'libdsim_c%d.so' % cores)
            self.natives[cores] = native.Native(path, self.fd, self.trace_path if cores != 2 else None)
        return self.natives[cores]

    def core(self, cores):
        """The native with this many cores, installed as the library the Python package uses."""
        from simlib import native
        n = self.native(cores)
        native.use_core(n.path)
        return n

    def session(self, nat, cfg, main=True):
        if main:
            self.main_native = nat
        return Session(self, nat, cfg, main)

    def account(self, s, cfg, main):
        c = self.counts
        c['sessions'] = c.get('sessions', 0) + 1
        for k in ('ops', 'switches', 'preemptions', 'sync_ops', 'atomics', 'threads', 'allocs', 'entropy_draws', 'clock_reads', 'sim_ns'):
            c[k] = c.get(k, 0) + s[k]
        for k, n in (('thread_faults', 'worker thread refused'), ('alloc_faults', 'allocation failed'), ('spurious', 'spurious condition wake-up'),
                     ('write_faults', 'file write fault'), ('read_faults', 'file read fault'), ('clock_jumps', 'clock jump'),
                     ('starvations', 'thread starved')):
            if s[k]:
                self.faults[n] = self.faults.get(n, 0) + s[k]
        if cfg.get('entropy_mode'):
            if s['entropy_draws']:
                self.faults['degenerate entropy'] = self.faults.get('degenerate entropy', 0) + s['entropy_draws']
        if main:
            self.main_hash = s['hash_all']
            if s['switches'] >= 2:
                self.run_keys.append(s['hash_inter'])
            k = 'strategy: ' + ('random walk', 'priorities', 'starvation', 'round robin', 'run to block', 'forced')[
                5 if self.forced is not None else cfg.get('strategy', 0)]
            c[k] = c.get(k, 0) + 1

    def fault(self, name, n=1):
        self.faults[name] = self.faults.get(name, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def note(self, key):
        """What makes this run distinct, besides its interleavings (one run counts once at most)."""
        self.run_keys.append(int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), 'big'))

    def run_done(self):
        if self.run_keys:
            self.distinct.add(hash(tuple(self.run_keys)) if len(self.run_keys) > 1 else self.run_keys[0])
        self.run_keys = []


def from_library(tb):
    for f in traceback.extract_tb(tb):
        if os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep):
            return True
    return False


def execute(check, env, case):
    """Runs one case. Returns None or (kind, message)."""
    env.forced = case.get('forced') if isinstance(case, dict) else None
    env.main_hash = None
    env.sessions = 0
    env.run_keys = []
    try:
        check.run(env, case)
        env.run_done()
        return None
    except Violation as v:
        return (v.kind, str(v))
    except HarnessError:
        raise
    except Exception as e:                                  # noqa
        if from_library(e.__traceback__):
            last = [f for f in traceback.extract_tb(e.__traceback__) if REPO in f.filename][-1]
            return ('unexpected exception', '%s: %s (at %s:%d)' % (type(e).__name__, str(e)[:300], os.path.relpath(last.filename, REPO), last.lineno))
        raise


def quiet_imports():
    import warnings
    warnings.simplefilter('ignore')


def setup_env(args, fd):
    quiet_imports()
    check = importlib.import_module('checks.' + args.check.lower())
    env = Env(args.build, fd, args.trace)
    env.scratch = args.scratch
    if hasattr(check, 'setup'):
        check.setup(env)
    if 'simlib.catalog' in sys.modules:
        sys.modules['simlib.catalog'].preload()
    # finalisers must run at points that are a function of the run: no collection except between runs
    gc.collect()
    gc.freeze()
    gc.disable()
    return check, env


def seeds_for(check_id, seed, index):
    h = hashlib.sha256(('%s/%d/%d' % (check_id, seed, index)).encode()).digest()
    return random.Random(int.from_bytes(h[:16], 'big'))


def worker_main(argv):
    ap = argparse.ArgumentParser()
    for n in ('check', 'build', 'trace', 'scratch', 'mode', 'tier'):
        ap.add_argument('--' + n, default='')
    for n in ('seed', 'first', 'stride', 'count', 'cpu', 'fd'):
        ap.add_argument('--' + n, type=int, default=0)
    ap.add_argument('--seconds', type=float, default=1e9)
    args = ap.parse_args(argv)
    try:
        os.sched_setaffinity(0, {args.cpu % (os.cpu_count() or 1)})
    except OSError:
        pass
    out = os.fdopen(args.fd, 'w', buffering=1)
    check, env = setup_env(args, args.fd)

    if args.mode == 'serve':            # fork server for replay and minimisation
        out.write(json.dumps({'ready': 1}) + '\n')
        out.flush()
        for line in sys.stdin:
            req = json.loads(line)
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    try:
                        r = execute(check, env, req['case'])
                        tr = None
                        if env.main_native is not None and req.get('want_trace'):
                            tr = env.main_native.trace()
                        out.write(json.dumps({'result': r, 'trace': tr, 'hash': env.main_hash}) + '\n')
                    except BaseException:       # noqa
                        out.write(json.dumps({'error': traceback.format_exc()[-3000:]}) + '\n')
                    out.flush()
                finally:
                    os._exit(code)
            deadline = time.time() + req.get('timeout', 60)
            status = None
            while time.time() < deadline:
                p, status = os.waitpid(pid, os.WNOHANG)
                if p:
                    break
                status = None
                time.sleep(0.002)
            if status is None:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                out.write(json.dumps({'end': 'timeout'}) + '\n')
            elif os.WIFSIGNALED(status):
                out.write(json.dumps({'end': 'signal', 'signal': os.WTERMSIG(status)}) + '\n')
            else:
                out.write(json.dumps({'end': 'exit', 'code': os.WEXITSTATUS(status)}) + '\n')
            out.flush()
        return 0

    t0 = time.time()
    done = rechecks = 0
    samples = []
    progress = open(args.trace + '.case', 'w+')
    for index in itertools.islice(itertools.count(args.first, args.stride), args.count):
        if time.time() - t0 > args.seconds:
            break
        case = check.make(seeds_for(args.check, args.seed, index), index, args.tier)
        progress.seek(0)
        progress.write(json.dumps({'index': index, 'case': case}))
        progress.truncate()
        progress.flush()
        try:
            r = execute(check, env, case)
        except BaseException as e:      # noqa
            out.write(json.dumps({'error': traceback.format_exc()[-3000:], 'index': index}) + '\n')
            out.flush()
            os._exit(3)
        if r is not None:
            tr = env.main_native.trace() if env.main_native is not None and env.forced is None else None
            out.write(json.dumps({'violation': r, 'index': index, 'case': case, 'trace_len': len(tr or [])}) + '\n')
            out.flush()
            break
        done += 1
        if len(samples) < 1:
            samples.append(case)
        if getattr(check, 'RECHECK', True) and rechecks < 3 and env.main_native is not None and env.main_hash is not None and isinstance(case, dict):
            # the same run again, driven only by its recorded schedule, must be the same run
            h, tr = env.main_hash, env.main_native.trace()
            if len(tr) < env.main_native.cap:
                again = dict(case)
                again['forced'] = tr
                r2 = execute(check, env, again)
                rechecks += 1
                if r2 is not None:      # what the process did before matters
                    out.write(json.dumps({'violation': r2, 'index': index, 'case': again, 'trace_len': len(tr)}) + '\n')
                    out.flush()
                    break
                if env.main_hash != h:  # the code keeps something between calls; the number of these is in the evidence (0 on the pinned tree)
                    env.count('repeated runs that took other steps')
                env.forced = None
    out.write(json.dumps({'done': done, 'rechecks': rechecks, 'counts': env.counts, 'faults': env.faults, 'probes': env.probes,
                          'distinct': sorted(env.distinct), 'samples': samples, 'seconds': time.time() - t0}) + '\n')
    out.flush()
    os._exit(0)


# ---------------------------------------------------------------------------------------------------- parent side

class Proc:
    def __init__(self, check_id, build_dir, scratch, tag, extra, stdin=None, hashseed=0):
        r, w = os.pipe()
        self.trace = os.path.join(scratch, 'trace-%s' % tag)
        self.log = open(os.path.join(scratch, 'log-%s' % tag), 'w+')
        sub = os.path.join(scratch, 'files-%s' % tag)
        os.makedirs(sub, exist_ok=True)
        cmd = [PY, '-W', 'ignore', '-c', 'import sys; from simlib import frame; sys.exit(frame.worker_main(sys.argv[1:]))',
               '--check', check_id, '--build', build_dir, '--trace', self.trace, '--scratch', sub, '--fd', str(w)] + [str(x) for x in extra]
        self.p = subprocess.Popen(cmd, cwd=sub, env=worker_env(hashseed), stdin=stdin or subprocess.DEVNULL, stdout=self.log, stderr=self.log,
                                  pass_fds=(w,), start_new_session=True, text=True, preexec_fn=no_aslr)
        os.close(w)
        self.r = r
        self.buf = b''
        self.lines = []
        self.eof = False
        self.last = time.time()

    def pump(self, timeout=0.0):
        while not self.eof:
            rd, _, _ = select.select([self.r], [], [], timeout)
            if not rd:
                break
            data = os.read(self.r, 1 << 16)
            if not data:
                self.eof = True
                break
            self.buf += data
            timeout = 0.0
        *full, self.buf = self.buf.split(b'\n')
        for l in full:
            if l.strip():
                self.last = time.time()
                try:
                    self.lines.append(json.loads(l))
                except ValueError:
                    self.lines.append({'error': 'garbled record: %r' % l[:200]})

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def tail(self):
        self.log.flush()
        self.log.seek(0)
        return self.log.read()[-2000:]

    def close(self):
        try:
            os.close(self.r)
        except OSError:
            pass
        self.log.close()


def no_aslr():
    try:
        import ctypes
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:       # noqa
        pass
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except Exception:       # noqa
        pass


class Server:
    """Fork server: runs single cases in fresh children of a warmed-up interpreter."""

    def __init__(self, check_id, build_dir, scratch, tag='serve'):
        self.proc = Proc(check_id, build_dir, scratch, tag, ['--mode', 'serve'], stdin=subprocess.PIPE)
        self._wait(lambda l: 'ready' in l, 120)

    def _wait(self, pred, timeout):
        end = time.time() + timeout
        while time.time() < end:
            self.proc.pump(0.2)
            for i, l in enumerate(self.proc.lines):
                if pred(l):
                    out, self.proc.lines = self.proc.lines[:i + 1], self.proc.lines[i + 1:]
                    return out
            if self.proc.eof:
                break
        raise HarnessError('replay process did not answer: ' + self.proc.tail())

    def run(self, case, want_trace=False, timeout=60):
        """Returns (verdict, trace, hash): verdict is None or (kind, message); HarnessError when the harness fails."""
        self.proc.p.stdin.write(json.dumps({'case': case, 'want_trace': want_trace, 'timeout': timeout}) + '\n')
        self.proc.p.stdin.flush()
        lines = self._wait(lambda l: 'end' in l, timeout + 30)
        return interpret(lines, self.proc.trace)

    def close(self):
        self.proc.kill()
        self.proc.close()


def signame(n):
    try:
        return signal.Signals(n).name
    except ValueError:
        return str(n)


def interpret(lines, trace_path):
    from simlib import native
    trace, h = None, None
    end = lines[-1]
    for l in lines[:-1]:
        if 'error' in l:
            raise HarnessError(l['error'])
        if 'native_violation' in l:
            if l['native_violation'] == 'harness':
                raise HarnessError(l['message'])
            return (l['native_violation'], l['message']), native.read_trace_file(trace_path), None
        if 'result' in l:
            r = l['result']
            return (tuple(r) if r else None), l.get('trace'), l.get('hash')
    if end['end'] == 'signal':
        return ('crash', 'the process was killed by %s' % signame(end['signal'])), native.read_trace_file(trace_path), None
    if end['end'] == 'timeout':
        return ('hang', 'the run did not end'), native.read_trace_file(trace_path), None
    raise HarnessError('run ended without a result: %r' % (lines,))


def run_shards(check, build_dir, scratch, seed, tier, runs, seconds, verbose=False):
    n = min(NPROC, os.cpu_count() or 1)
    procs = []
    for k in range(n):
        count = runs // n + (1 if k < runs % n else 0)
        if not count:
            continue
        procs.append(Proc(check.ID, build_dir, scratch, 's%d' % k,
                          ['--first', k, '--stride', n, '--count', count, '--seconds', seconds, '--seed', seed, '--cpu', k, '--tier', tier],
                          hashseed=k % 3))
    found, errors, results = [], [], []
    hard = time.time() + seconds + getattr(check, 'GRACE', 60)
    open_ = list(procs)
    while open_:
        for p in list(open_):
            p.pump(0.02)
            if p.eof:
                p.p.wait()
                open_.remove(p)
                handle_end(p, found, errors, results)
            elif time.time() > hard:
                cur = current_case(p)
                p.kill()
                p.pump()
                open_.remove(p)
                if cur is None:
                    errors.append('worker did not finish in time')
                else:
                    found.append(dict(kind='hang', message='the run did not end', index=cur['index'], case=cur['case']))
        if found and len(open_) > 0:
            # one failure decides the check; give the others a moment, then stop them
            stop = time.time() + 2
            while time.time() < stop and any(not p.eof for p in open_):
                for p in open_:
                    p.pump(0.05)
            for p in list(open_):
                if p.eof:
                    p.p.wait()
                    handle_end(p, found, errors, results)
                else:
                    p.kill()
                open_.remove(p)
    for p in procs:
        p.close()
    return found, errors, results


def current_case(p):
    try:
        with open(p.trace + '.case') as s:
            return json.load(s)
    except (OSError, ValueError):
        return None


def handle_end(p, found, errors, results):
    cur = current_case(p)
    for l in p.lines:
        if 'error' in l:
            errors.append(l['error'])
        elif 'native_violation' in l:
            if l['native_violation'] == 'harness' or cur is None:
                errors.append(l['message'])
            else:
                found.append(dict(kind=l['native_violation'], message=l['message'], index=cur['index'], case=cur['case']))
        elif 'violation' in l:
            found.append(dict(kind=l['violation'][0], message=l['violation'][1], index=l['index'], case=l['case']))
        elif 'done' in l:
            results.append(l)
    rc = p.p.returncode
    if rc < 0:
        if cur is None:
            errors.append('worker died with %s before its first run: %s' % (signame(-rc), p.tail()))
        else:
            found.append(dict(kind='crash', message='the process was killed by %s' % signame(-rc), index=cur['index'], case=cur['case'], log=p.tail()))
    elif rc not in (0, 3, 86):
        errors.append('worker ended with code %d: %s' % (rc, p.tail()))


def minimise(check, server, case, verdict, deadline):
    """Greedy: simpler workload first, then fewer context switches. Keeps the class of failure."""
    kind = verdict[0]
    best, best_v, tried = case, verdict, 0

    def same(c):
        nonlocal tried
        tried += 1
        try:
            v, tr, _ = server.run(c, want_trace=True, timeout=30)
        except HarnessError:
            return None
        return (v, tr) if v is not None and v[0] == kind else None

    progress = hasattr(check, 'shrink') and kind != 'hang'
    while progress and time.time() < deadline:
        progress = False
        for c in check.shrink(best):
            if time.time() > deadline:
                break
            r = same(c)
            if r:
                best, best_v, progress = c, r[0], True
                break
    # schedule
    first = same(best) if kind != 'hang' else None
    trace = first[1] if first else None
    if trace and isinstance(best, dict) and 'forced' not in best and len(trace) < 60000:
        forced = dict(best)
        forced['forced'] = trace
        r = same(forced)
        if r:
            cur, size = list(trace), max(1, len(trace) // 2)
            while size >= 1 and time.time() < deadline:
                i, changed = 0, False
                while i < len(cur) and time.time() < deadline:
                    cand = cur[:i] + cur[i + size:]
                    t = dict(best)
                    t['forced'] = cand
                    r = same(t)
                    if r:
                        cur, best_v, changed = cand, r[0], True
                    else:
                        i += size
                if size == 1 and not changed:
                    break
                size = max(1, size // 2) if size > 1 else (1 if changed else 0)
            best = dict(best)
            best['forced'] = cur
    return best, best_v, tried


def load_findings():
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as s:
            for line in s:
                if line.startswith('finding:'):
                    out.append(json.loads(line[len('finding:'):]))
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--seconds', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--no-minimise', action='store_true')
    args = ap.parse_args(argv)
    t0 = time.time()
    from simlib import build
    sys.path.insert(0, VERIF)
    check_id = args.property.upper()
    try:
        so = build.build()
    except build.BuildError as e:
        print('the core does not build:\n' + str(e), file=sys.stderr)
        return 2
    t_build = time.time() - t0
    build_dir = os.path.dirname(so)
    check = importlib.import_module('checks.' + check_id.lower())
    scratch = tempfile.mkdtemp(prefix='dsim-%s-' % check_id)
    os.environ['DSIM_MPL'] = os.path.join(scratch, 'mpl')
    try:
        if args.replay:
            with open(args.replay) as s:
                rep = json.load(s)
            server = Server(check_id, build_dir, scratch)
            v, _, h = server.run(rep['case'])
            server.close()
            if v is None:
                print('replay: the run passes')
                return 0
            print('replay: %s: %s' % v)
            print('VIOLATION property=%s replay=%s' % (check_id, args.replay))
            return 1
        runs, seconds = check.PLAN[args.tier if args.tier in check.PLAN else 'quick']
        runs, seconds = args.runs or runs, args.seconds or seconds
        found, errors, results = run_shards(check, build_dir, scratch, args.seed, args.tier, runs, seconds)
        total = sum(r['done'] for r in results)
        known = load_findings()
        new, reported = [], {}
        for f in found:
            k = next((k for k in known if k['property'] == check_id and k['kind'] == f['kind'] and f['message'].startswith(k['match'])), None)
            if k:
                reported[k['what']] = 1
            else:
                new.append(f)
        # findings listed are exercised on purpose by the check's own probes
        if hasattr(check, 'findings'):
            server = Server(check_id, build_dir, scratch, 'known')
            for k in known:
                if k['property'] == check_id:
                    v, _, _ = server.run(k['case'])
                    if v is not None and v[0] == k['kind'] and v[1].startswith(k['match']):
                        reported[k['what']] = 1
            server.close()
        for w in reported:
            print('KNOWN-FINDING: property=%s %s' % (check_id, w))
        replay_path = None
        if new:
            new.sort(key=lambda f: f['index'])
            f = new[0]
            print('violation in run %d: %s: %s' % (f['index'], f['kind'], f['message']))
            if f.get('log'):
                print(f['log'][-800:])
            case, verdict, reproduced, tried = f['case'], (f['kind'], f['message']), 0, 0
            try:
                server = Server(check_id, build_dir, scratch)
                if f['kind'] != 'hang':
                    for _ in range(2):
                        v, _, _ = server.run(case, timeout=60)
                        if v is not None:
                            reproduced += 1
                            verdict = v
                    if reproduced and not args.no_minimise:
                        case, verdict, tried = minimise(check, server, case, verdict, time.time() + getattr(check, 'MINIMISE_S', 40))
                server.close()
                server = Server(check_id, build_dir, scratch, 'final')
                v, _, _ = server.run(case, timeout=60)
                confirmed = v is not None and v[0] == verdict[0]
                server.close()
            except HarnessError as e:
                confirmed = False
                print('while reproducing: %s' % e, file=sys.stderr)
            rep = dict(property=check_id, seed=args.seed, index=f['index'], kind=verdict[0], message=verdict[1], case=case,
                       original_case=f['case'], reproduced=bool(confirmed), minimisation_runs=tried,
                       replay='cd /verif && python3 run.py %s --replay <this file>' % check_id)
            text = json.dumps(rep, indent=1)
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
            replay_path = os.path.join(VERIF, 'replays', '%s-%s.json' % (check_id, hashlib.sha256(text.encode()).hexdigest()[:12]))
            with open(replay_path, 'w') as s:
                s.write(text)
            print('minimised: %s: %s (%s by a fresh process)' % (verdict[0], verdict[1], 'reproduced' if confirmed else 'NOT reproduced'))
        wall = time.time() - t0
        write_evidence(check, args, results, runs, total, len(new), wall, t_build, reported)
        if new:
            print('VIOLATION property=%s replay=%s' % (check_id, replay_path))
            return 1
        if errors:
            for e in errors[:3]:
                print('harness error: ' + e, file=sys.stderr)
            return 2
        if not total:
            print('nothing was explored', file=sys.stderr)
            return 2
        print('%s: %d simulated runs, no violation (%.1f s)' % (check_id, total, wall))
        return 0
    except HarnessError as e:
        print('harness error: %s' % e, file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def write_evidence(check, args, results, runs, total, violations, wall, t_build, reported):
    counts, faults, probes, distinct, samples, rechecks, sim_s = {}, {}, {}, set(), [], 0, 0.0
    for r in results:
        for a, b in ((counts, r['counts']), (faults, r['faults']), (probes, r['probes'])):
            for k, v in b.items():
                a[k] = a.get(k, 0) + v
        distinct.update(r['distinct'])
        samples += r['samples'][:1]
        rechecks += r['rechecks']
        sim_s = max(sim_s, r['seconds'])
    probes_missed = [p for p in getattr(check, 'PROBES', []) if not probes.get(p)]
    ev = {'property': check.ID, 'tier': args.tier if args.tier in ('quick', 'thorough') else 'quick', 'seed': args.seed,
          'level': getattr(check, 'LEVEL', 'exploration'),
          'coverage': {'evaluations': total, 'distinct_nontrivial': len(distinct), 'rule': check.RULE,
                       'samples': [json.loads(json.dumps(s)[:4000]) if len(json.dumps(s)) < 4000 else str(s)[:2000] for s in samples[:3]],
                       'planned_runs': runs, 'runs_per_hour': int(total / sim_s * 3600) if sim_s else 0,
                       'simulated_seconds': round(counts.get('sim_ns', 0) / 1e9, 3),
                       'faults_injected': faults, 'probes': probes, 'probes_not_reached': probes_missed,
                       'scheduler': {k: v for k, v in sorted(counts.items())},
                       'determinism_rechecks': rechecks, 'real_code': check.REAL, 'stubbed': check.STUB},
          'assumptions': getattr(check, 'ASSUMPTIONS', []) + [
              'sequentially consistent memory between preemption points', 'sampling: a clean batch is evidence, not proof'],
          'wall_s': round(wall, 2), 'violations': violations}
    if reported:
        ev['coverage']['known_findings'] = sorted(reported)
    ev['coverage']['build_s'] = round(t_build, 2)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', check.ID + '.json'), 'w') as s:
        json.dump(ev, s, indent=1, default=str)


if __name__ == '__main__':
    sys.exit(main())
