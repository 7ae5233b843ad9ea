import contextlib, io, warnings
from lib import *
import numba
import cddm.conf as conf
import cddm.print_tools as pt

FFT = {"mkl_fft": "MKL_FFT_INSTALLED", "scipy.fftpack": "SCIPY_INSTALLED", "scipy": "SCIPY_INSTALLED", "numpy.fft": None, "numpy": None,
       "pyfftw": "PYFFTW_INSTALLED"}
SHOW = {"matplotlib": None, "cv2": "CV2_INSTALLED", "pyqtgraph": "PYQTGRAPH_INSTALLED"}


@contextlib.contextmanager
def kept():
    flags = {n: getattr(conf, n) for n in list(FFT.values()) + list(SHOW.values()) if n}
    saved = dict(conf.CDDMConfig.__dict__)
    nt = numba.get_num_threads()
    try:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            yield w
    finally:
        conf.CDDMConfig.__dict__.clear()
        conf.CDDMConfig.__dict__.update(saved)
        numba.set_num_threads(nt)
        for k, v in flags.items():
            setattr(conf, k, v)


def differs(before, **new):
    want = dict(before, **new)
    got = dict(conf.CDDMConfig.__dict__)
    return "" if got == want and all(type(got[k]) is type(want[k]) for k in want) else "settings %r, expected %r" % (got, want)


def libraries(rng, i):
    with kept() as w:
        present = {}
        for n in set(v for v in list(FFT.values()) + list(SHOW.values()) if v):
            present[n] = bool(rng.integers(0, 2))
            setattr(conf, n, present[n])
        fn, table, key = ((conf.set_fftlib, FFT, "fftlib"), (conf.set_rfft2lib, FFT, "rfft2lib"), (conf.set_showlib, SHOW, "showlib"))[i % 3]
        names = list(table)
        old = {"scipy.fftpack": "scipy", "numpy.fft": "numpy"}
        setattr(conf.CDDMConfig, key, old.get(n0 := names[int(rng.integers(0, len(names)))], n0))
        conf.CDDMConfig.verbose = int(rng.integers(-2, 3))
        before = dict(conf.CDDMConfig.__dict__)
        name = names[int(rng.integers(0, len(names)))]
        r = fn(name)
        ok = table[name] is None or present[table[name]]
        if r != before[key]:
            return "%s(%r) returned %r, the setting was %r" % (fn.__name__, name, r, before[key])
        e = differs(before, **({key: old.get(name, name)} if ok else {}))
        if e:
            return "%s(%r): %s" % (fn.__name__, name, e)
        if (len(w) > 0) == ok:
            return "%s(%r): %d warnings, library available: %r" % (fn.__name__, name, len(w), ok)
        mid = dict(conf.CDDMConfig.__dict__)
        for bad in ("", "NUMPY", name + "x", "fftw"):
            try:
                fn(bad)
                return "%s(%r) was not rejected" % (fn.__name__, bad)
            except ValueError:
                pass
        e = differs(mid)
        if e:
            return "rejected names: " + e
        for n in present:
            setattr(conf, n, True)
        fn(r)
        return differs(before)


def numbers(rng, i):
    with kept():
        before = dict(conf.CDDMConfig.__dict__)
        if i % 3 == 0:
            v = [int(rng.integers(-4, 5)), float(rng.normal() * 2), bool(rng.integers(0, 2))][int(rng.integers(0, 3))]
            fn, key, new = conf.set_verbose, "verbose", max(0, int(v))
        elif i % 3 == 1:
            v = int(rng.integers(1, 9))
            fn, key, new = conf.set_fft_threads, "fft_threads", v
        else:
            v = int(rng.integers(1, numba.config.NUMBA_NUM_THREADS + 1))
            fn, key, new = conf.set_numba_threads, "numba_threads", v
        r = fn(v)
        if r != before[key]:
            return "%s(%r) returned %r, the setting was %r" % (fn.__name__, v, r, before[key])
        e = differs(before, **{key: new})
        if e:
            return "%s(%r): %s" % (fn.__name__, v, e)
        if key == "numba_threads" and numba.get_num_threads() != v:
            return "numba uses %d threads, asked for %d" % (numba.get_num_threads(), v)
        fn(r)
        return differs(before)


def said(f, *a, **k):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        f(*a, **k)
    return out.getvalue()


def calls(rng):
    total = int(rng.integers(1, 6))
    m = "message %d" % rng.integers(0, 100)
    return [(1, pt.print1, (m, 3), {}, m + " 3\n"), (2, pt.print2, (m,), {"end": "!"}, m + "!"),
            (1, pt.print_progress, (total - 1, total), {}, None), (1, pt.print_progress, (total, total), {}, None),
            (2, pt.print_frame_rate, (7, 1.0, 3.0), {}, None)]


def messages(rng, i):
    with kept():
        v = int(rng.integers(-2, 4))
        conf.CDDMConfig.verbose = v
        before = dict(conf.CDDMConfig.__dict__)
        for level, f, a, k, text in calls(rng):
            s = said(f, *a, **k)
            if bool(s) != (v >= level) or (text is not None and s not in ("", text)):
                return "%s at level %d printed %r" % (f.__name__, v, s)
        return differs(before)


def nested(rng, i):
    with kept():
        v = int(rng.integers(0, 3))
        conf.CDDMConfig.verbose = v
        before = dict(conf.CDDMConfig.__dict__)
        depth = int(rng.integers(1, 5))
        levels = []
        for d in range(depth):
            levels.append(pt.disable_prints())
            for _, f, a, k, _ in calls(rng):
                if said(f, *a, **k):
                    return "%s printed inside %d switched-off parts (level %d)" % (f.__name__, d + 1, v)
        if levels[0] != v:
            return "disable_prints returned %r, the level was %r" % (levels[0], v)
        for d in range(depth):
            if depth == 1 and i % 2:
                pt.enable_prints()
            else:
                pt.enable_prints(levels.pop())
            if d < depth - 1:
                for _, f, a, k, _ in calls(rng):
                    if said(f, *a, **k):
                        return "%s printed inside %d switched-off parts (level %d)" % (f.__name__, depth - 1 - d, v)
        return differs(before)


SCENARIOS = [("libraries", libraries), ("numbers", numbers), ("messages", messages), ("nested prints", nested)]
