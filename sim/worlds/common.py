"""Vector generators and the reference model of an activation vector, shared by the worlds."""
import copy
import random

import numpy as np
from bitarray import bitarray

from ..engine import Violation

LENGTHS = [1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511,
           512, 513, 1000, 1023, 1024, 1025]
BIG = [4095, 4096, 4097, 8063, 8064, 8065, 8192, 9000, 20000, 32767, 32768, 32769, 65535, 65536, 65537, 100000]


def gen_vec(rng, n=None, big=0.02):
    if n is None:
        r = rng.random()
        if r < big:
            n = rng.choice(BIG)
        elif r < 0.25:
            n = rng.randint(1, 12)
        else:
            n = rng.choice(LENGTHS) if rng.random() < 0.8 else rng.randint(13, 400)
    kind = rng.choices(["rand", "rle", "zeros", "ones", "alt", "first", "last", "sparse", "lead0"],
                       [30, 25, 5, 5, 5, 5, 5, 10, 10])[0]
    return {"n": n, "k": kind, "s": rng.randrange(10 ** 6)}


def make_vec(spec):
    n, k = spec["n"], spec["k"]
    r = np.random.RandomState(spec["s"] % (2 ** 31))
    v = np.zeros(n, dtype=np.ubyte)
    if k == "rand":
        v[r.rand(n) < (0.1 + 0.8 * r.rand())] = 1
    elif k == "rle":
        cuts = np.sort(r.randint(0, n + 1, size=r.randint(0, 6)))
        val = r.randint(0, 2)
        prev = 0
        for c in list(cuts) + [n]:
            v[prev:c] = val
            val = 1 - val
            prev = c
    elif k == "ones":
        v[:] = 1
    elif k == "alt":
        v[spec["s"] % 2::2] = 1
    elif k == "first":
        v[0] = 1
    elif k == "last":
        v[-1] = 1
    elif k == "sparse":
        v[r.randint(0, n, size=max(1, n // 50))] = 1
    elif k == "lead0":
        v[n // 2:] = (r.rand(n - n // 2) < 0.6)
    return v


def shrink_vec(spec):
    out = []
    for n in (1, 2, 3, 5, 8, 9, 64, 65, 129, 257, spec["n"] // 2, spec["n"] - 1):
        if 0 < n < spec["n"]:
            out.append({"n": n, "k": spec["k"], "s": spec["s"]})
    for k in ("zeros", "ones", "last", "first", "alt"):
        if spec["k"] not in ("zeros", "ones", "last", "first", "alt"):
            out.append({"n": spec["n"], "k": k, "s": 0})
    return out


# -- reference model: every view of a 0/1 vector, computed independently of ruleskit ---------------------------------
def m_int(v):
    return int("".join("1" if x else "0" for x in v.tolist()), 2)


def m_compressed(v):
    l = v.tolist()
    return [l[0]] + [i for i in range(1, len(l)) if l[i] != l[i - 1]] + [len(l)]


def m_views(v):
    n = len(v)
    nones = int(v.sum())
    c = m_compressed(v)
    return {"len": n, "nones": nones, "coverage": nones / n, "entropy": len(c), "rel_entropy": len(c) / n,
            "ones": np.nonzero(v)[0].tolist(), "c": c}


def same_raw(got, v):
    return isinstance(got, np.ndarray) and got.shape == v.shape and bool((np.asarray(got) == v).all())


def show(v, n=24):
    l = np.asarray(v).tolist()
    return f"len {len(l)} {l[:n]}{'...' if len(l) > n else ''}"


VIEWS = ["raw", "len", "nones", "coverage", "entropy", "rel_entropy", "ones", "as_bitarray", "as_integer",
         "as_compressed", "as_compressed_str", "as_compressed_array"]
PROFILE = ["sizeof_path", "sizeof_file", "sizeof_raw", "sizeof_bitarray", "sizeof_integer", "sizeof_compressed_array",
           "sizeof_compressed_str", "time_write", "time_read", "time_raw_to_compressed", "time_raw_to_integer",
           "time_raw_to_bitarray", "time_compressed_to_raw", "time_bitarray_to_raw", "time_integer_to_raw",
           "time_compressed_to_bitarray", "time_bitarray_to_compressed", "time_integer_to_compressed",
           "time_bitarray_to_integer", "time_integer_to_bitarray", "time_compressed_to_integer", "n_written",
           "n_read", "n_raw_to_compressed", "n_compressed_to_raw", "n_raw_to_bitarray", "n_raw_to_integer",
           "n_bitarray_to_raw", "n_integer_to_raw"]


def view(a, name):
    return len(a) if name == "len" else getattr(a, name)


def brief(x, n=60):
    """A short text for anything: a long integer has no decimal text."""
    if isinstance(x, int) and not isinstance(x, bool) and abs(x) >> 128:
        return f"{hex(x)[:n]} ({x.bit_length()} bits)"
    try:
        s = repr(x)
    except Exception as e:
        s = f"<{type(x).__name__} without text: {type(e).__name__}>"
    return s[:n]


def compare_view(name, got, v, views=None):
    """None if the view is right, else a description."""
    try:
        return _compare_view(name, got, v, views)
    except Exception as e:  # something that can not even be compared
        return f"{name} is {brief(got)} for {show(v)} ({type(e).__name__}: {e})"


def _compare_view(name, got, v, views=None):
    m = views or m_views(v)
    if name == "raw":
        ok = same_raw(got, v)
        return None if ok else f"raw is {show(got) if isinstance(got, np.ndarray) else brief(got)}, want {show(v)}"
    if name == "as_bitarray":
        ok = isinstance(got, bitarray) and got.tolist() == v.tolist()
        return None if ok else f"bit array {str(got)[:60]} want {show(v)}"
    if name == "as_integer":
        return None if isinstance(got, int) and got == m_int(v) else \
            f"integer {brief(got)} want {brief(m_int(v))}"
    if name in ("as_compressed", "as_compressed_str"):
        want = ",".join(str(x) for x in m["c"])
        return None if isinstance(got, str) and got.replace(" ", "") == want else \
            f"compressed {str(got)[:80]!r} want {want[:80]!r}"
    if name == "as_compressed_array":
        ok = isinstance(got, np.ndarray) and got.tolist() == m["c"]
        return None if ok else f"compressed array {str(got)[:80]} want {str(m['c'])[:80]}"
    want = m[name]
    if name in ("coverage", "rel_entropy"):
        ok = abs(got - want) < 1e-12
    elif name == "ones":
        ok = list(got) == want
    else:
        ok = got == want
    return None if ok else f"{name} is {brief(got, 200)}, want {brief(want, 200)}"


def audit(a, v, stats, where, prop, views=VIEWS, order=None):
    """Every view against the model. The first view asked for can load or convert the vector, so the order matters."""
    m = m_views(v)
    if order is not None:
        views = list(views)
        random.Random(order).shuffle(views)
    for name in views:
        try:
            got = view(a, name)
        except Exception as e:
            raise Violation(f"audit-error:{name}:{type(e).__name__}", f"{where}: reading {name} of a vector with "
                                                                      f"{show(v)} raised {type(e).__name__}: {e}")
        bad = compare_view(name, got, v, m)
        stats.d["checks"] += 1
        if bad:
            raise Violation(f"audit-wrong:{name}", f"{where}: {bad}")


def drop_faults(trace):
    for i, o in enumerate(trace["ops"]):
        if o.get("fault"):
            c = copy.deepcopy(trace)
            c["ops"][i]["fault"] = None
            yield c
            if o["fault"].get("at", 0) > 0:
                c = copy.deepcopy(trace)
                c["ops"][i]["fault"]["at"] = 0
                yield c


def shrink_vecs(trace):
    specs = []
    for i, o in enumerate(trace["ops"]):
        if isinstance(o.get("vec"), dict):
            specs.append(i)
    # all at once first: vectors usually have to share a length
    if specs:
        ns = {trace["ops"][i]["vec"]["n"] for i in specs}
        for n in (1, 2, 3, 5, 8, 9, 65, 129, 257, max(ns) // 2):
            if 0 < n < max(ns):
                c = copy.deepcopy(trace)
                for i in specs:
                    c["ops"][i]["vec"]["n"] = min(n, c["ops"][i]["vec"]["n"])
                yield c
    for i in specs:
        for s in shrink_vec(trace["ops"][i]["vec"]):
            c = copy.deepcopy(trace)
            c["ops"][i]["vec"] = s
            yield c


class Alloc:
    """Fails the allocation of one block holding more than two vectors."""

    def __init__(self):
        self.fired = 0

    def __call__(self, name, args):
        seq = args[0] if args else ()
        try:
            n = len(seq)
        except TypeError:
            return
        if n > 2:
            self.fired += 1
            raise MemoryError("simulated: unable to allocate the stacked block")
