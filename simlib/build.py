"""Builds the instrumented core from the working tree of the repository, together with the simulator runtime.

The result is one shared object per (sources, flags) content hash, kept in a git-ignored cache below /verif. Nothing is
taken from the repository's own build products: a change in any source or header changes the hash and is rebuilt.
"""
import concurrent.futures
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('DSIM_REPO', '/repo')
CACHE = os.path.join(VERIF, '.build')
CXX = 'g++-10'
CORES = (1, 2, 3, 4, 5, 7, 9)

WRAP = """pthread_create pthread_join pthread_detach pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast pthread_once
sched_yield nanosleep clock_nanosleep clock_gettime time malloc calloc realloc free write writev read rand srand
memcpy memmove memset
_ZNSt6thread20hardware_concurrencyEv
_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE
_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj
_ZNSt6chrono3_V212system_clock3nowEv _ZNSt6chrono3_V212steady_clock3nowEv
_ZNSt13random_device9_M_getvalEv
_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE
_ZNSt13random_device7_M_initERKSs
_ZNSt13random_device7_M_finiEv""".split()

CORE_FLAGS = ['-O1', '-g1', '-fPIC', '-std=c++14', '-pthread', '-m64', '-fno-gnu-unique', '-fsanitize=thread',
              '-DEXPORT_PYCLUSTERING_INTERFACE', '-w']
RT_FLAGS = ['-O2', '-g1', '-fPIC', '-std=c++14', '-pthread', '-fno-gnu-unique', '-fno-builtin', '-Wall',
            '-Wno-unused-function', '-fexceptions'] + (['-DDSIM_DEBUG'] if os.environ.get('DSIM_DEBUG') else [])


class BuildError(Exception):
    pass


def sources():
    out = []
    for root, _, files in os.walk(os.path.join(REPO, 'ccore', 'src')):
        out += [os.path.join(root, f) for f in files if f.endswith('.cpp')]
    return sorted(out)


def digest():
    h = hashlib.sha256()
    files = sources()
    for root, _, names in os.walk(os.path.join(REPO, 'ccore', 'include')):
        files += [os.path.join(root, f) for f in names if f.endswith(('.hpp', '.h'))]
    files += [os.path.join(VERIF, 'dsim', f) for f in sorted(os.listdir(os.path.join(VERIF, 'dsim')))]
    for f in sorted(files):
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as s:
            h.update(s.read())
    h.update(' '.join(CORE_FLAGS + RT_FLAGS + WRAP).encode())
    return h.hexdigest()[:24]


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(' '.join(cmd[:3]) + ' ...\n' + p.stdout[-4000:])


def build(verbose=False):
    """Returns the path of the shared object, building it when needed."""
    os.makedirs(CACHE, exist_ok=True)
    key = digest()
    target = os.path.join(CACHE, key, 'libdsim.so')
    if os.path.exists(target):
        os.utime(os.path.dirname(target))
        return target
    with open(os.path.join(CACHE, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(target):
            return target
        stale = sorted((os.path.getmtime(os.path.join(CACHE, old)), old) for old in os.listdir(CACHE) if old != 'lock')
        for when, old in stale[:-5]:
            if time.time() - when > 1800:       # nothing runs for so long
                shutil.rmtree(os.path.join(CACHE, old), ignore_errors=True)
        work = os.path.join(CACHE, key + '.tmp%d' % os.getpid())
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        inc = ['-I' + os.path.join(REPO, 'ccore', 'include')]
        jobs, objs = [], []
        for i, src in enumerate(sources()):
            o = os.path.join(work, 'c%03d.o' % i)
            objs.append(o)
            jobs.append([CXX, '-c'] + CORE_FLAGS + inc + [src, '-o', o])
        for f in sorted(os.listdir(os.path.join(VERIF, 'dsim'))):
            if f.endswith('.cpp') and f != 'rt.cpp':
                o = os.path.join(work, 'w_' + f[:-4] + '.o')
                objs.append(o)
                jobs.append([CXX, '-c'] + CORE_FLAGS + inc + [os.path.join(VERIF, 'dsim', f), '-o', o])
        rt = os.path.join(work, 'rt.o')
        jobs.insert(0, [CXX, '-c'] + RT_FLAGS + [os.path.join(VERIF, 'dsim', 'rt.cpp'), '-o', rt])
        jobs.sort(key=lambda j: -os.path.getsize(j[-3]))
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            list(ex.map(run, jobs))
        run(['objcopy'] + sum([['--redefine-sym', '%s=__real_%s' % (s, s)] for s in ('memcpy', 'memmove', 'memset')], []) + [rt])
        tmp = os.path.join(work, 'libdsim.so')
        run([CXX, '-shared', '-pthread', '-static-libstdc++', '-static-libgcc', '-Wl,-Bsymbolic', '-Wl,--exclude-libs,ALL',
             '-Wl,-z,now'] + ['-Wl,--wrap=' + w for w in WRAP] + [rt] + objs + ['-o', tmp])
        for o in objs + [rt]:
            os.unlink(o)
        for c in CORES:     # one copy per simulated core count: the core reads it once, when it is loaded
            shutil.copyfile(tmp, os.path.join(work, 'libdsim_c%d.so' % c))
        final = os.path.join(CACHE, key)
        shutil.rmtree(final, ignore_errors=True)
        os.rename(work, final)
        return target


if __name__ == '__main__':
    try:
        print(build(True))
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(3)
