"""Calling the C++ workloads (dsim/wl_*.cpp)."""
import ctypes

i64 = ctypes.c_int64


def arr(values, ctype=i64):
    values = list(values)
    a = (ctype * max(1, len(values)))()
    for i, v in enumerate(values):
        a[i] = v
    return a


def struct(name, fields):
    """fields: names, or (name, n) for arrays; all 64-bit."""
    return type(name, (ctypes.Structure,), {'_fields_': [(f, i64) if isinstance(f, str) else (f[0], i64 * f[1]) for f in fields]})


def make(cls, **kw):
    o = cls()
    for k, v in kw.items():
        if isinstance(v, (list, tuple)):
            a = getattr(o, k)
            for i, x in enumerate(v):
                a[i] = x
        else:
            setattr(o, k, v)
    return o


def smaller(case, key, values):
    for v in values:
        if v != case[key]:
            c = dict(case)
            c[key] = v
            yield c


def sched_shrinks(cfg):
    """Simpler scheduling configurations."""
    for k, v in (('spurious_permille', 0), ('clock_jump_permille', 0), ('entropy_mode', 0)):
        if cfg.get(k):
            yield dict(cfg, **{k: v})
