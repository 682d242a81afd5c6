"""Runtime contract checking on the real code (bounded; cross-check and replay)."""
import os
import time
import traceback
import warnings
import zlib
import numpy as np

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
THOROUGH = TIER == 'thorough'
CASES = []


class Skip(Exception):
    pass


def case(f):
    CASES.append(f)
    return f


def short(v):
    try:
        if isinstance(v, np.ndarray) and v.size > 12:
            return f"array{v.shape} {v.dtype} first={v.ravel()[:4].tolist()}"
        s = repr(v)
        return s if len(s) < 300 else s[:300] + '...'
    except Exception:
        return '<?>'


class Tester:
    def __init__(self, name):
        self.name = name
        self.rng = np.random.RandomState((SEED * 7919 + zlib.crc32(name.encode())) % 2**32)
        self.evals = 0
        self.distinct = set()
        self.failures = []
        self.samples = []

    def fail(self, msg, key=None, **inp):
        self.failures.append(dict(case=self.name, key=self.name + ('/' + key if key else ''),
                                  msg=msg + ' ' + ', '.join(f"{k}={short(v)}"
                                                            for k, v in inp.items())))

    def note(self, **inp):
        self.evals += 1
        s = ', '.join(f"{k}={short(v)}" for k, v in inp.items())
        if s:
            self.distinct.add(hash(s))
            if len(self.samples) < 3:
                self.samples.append(f"{self.name}: {s}")

    def check(self, cond, msg, /, key=None, **inp):
        self.note(**inp)
        if not bool(np.all(cond)):
            self.fail(msg, key, **inp)
            return False
        return True

    def equal(self, a, b, msg, /, key=None, **inp):
        a, b = np.asarray(a), np.asarray(b)
        self.note(**inp)
        if a.shape != b.shape:
            self.fail(f"{msg}: shape {a.shape} instead of {b.shape}", key, **inp)
            return False
        if not np.array_equal(a, b):
            self.fail(f"{msg}: got {short(a)} expected {short(b)}", key, **inp)
            return False
        return True

    def close(self, a, b, msg, /, rtol=1e-12, atol=0.0, key=None, **inp):
        """|a-b| <= atol + rtol*|b| elementwise, same shape, no nan/inf"""
        a, b = np.asarray(a), np.asarray(b)
        self.note(**inp)
        if a.shape != b.shape:
            self.fail(f"{msg}: shape {a.shape} instead of {b.shape}", key, **inp)
            return False
        if a.size == 0:
            return True
        if a.dtype == object or a.dtype.kind not in 'biufc':
            a = a.astype(float)
        if b.dtype == object or b.dtype.kind not in 'biufc':
            b = b.astype(float)
        if not np.isfinite(a).all():
            self.fail(f"{msg}: non-finite result {short(a)}", key, **inp)
            return False
        err = np.abs(a - b) - (atol + rtol * np.abs(b))
        if err.max() > 0:
            k = np.unravel_index(err.argmax(), err.shape) if a.ndim else ()
            self.fail(f"{msg}: at {tuple(int(q) for q in k)} got {a[k]!r} expected {b[k]!r}",
                      key, **inp)
            return False
        return True

    def raises(self, exc, f, msg, /, key=None, **inp):
        self.note(**inp)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                r = f()
        except exc:
            return True
        except Exception as e:
            self.fail(f"{msg}: raised {type(e).__name__}: {e}", key, **inp)
            return False
        self.fail(f"{msg}: no exception, returned {short(r)}", key, **inp)
        return False

    def warns(self, f, msg, /, key=None, **inp):
        self.note(**inp)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            r = f()
        if not w:
            self.fail(f"{msg}: no warning", key, **inp)
        return r

    def attempt(self, f, msg, /, key=None, **inp):
        """call that must not raise; returns its value (None on failure)"""
        self.note(**inp)
        try:
            return f()
        except Skip:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            self.fail(f"{msg}: raised {type(e).__name__}: {e} at {tb[-1].filename}:"
                      f"{tb[-1].lineno}", key, **inp)
            return None

    def private(self, obj, name):
        """internal helper, checked only while it exists"""
        v = getattr(obj, name, None)
        if v is None:
            raise Skip(name)
        return v


def run(mod, only=None):
    out = dict(cases=0, evals=0, distinct=0, failures=[], samples=[], skipped=[], times={})
    for f in list(CASES):
        name = f.__name__
        if f.__module__ != mod.__name__ or (only and name != only):
            continue
        t = Tester(name)
        t0 = time.time()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with np.errstate(all='ignore'):
                    f(t)
        except Skip as e:
            out['skipped'].append(f"{name}: {e}")
        except Exception as e:
            tb = traceback.format_exc().strip().splitlines()
            t.fail(f"exception {type(e).__name__}: {e} | " + ' | '.join(tb[-6:-1])[:600])
        out['cases'] += 1
        out['evals'] += t.evals
        out['distinct'] += len(t.distinct)
        out['failures'] += t.failures[:6]
        out['samples'] += t.samples[:1]
        out['times'][name] = round(time.time() - t0, 2)
    return out
