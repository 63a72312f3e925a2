"""Data sets, rule specifications and the reference model of rules and rule sets (plain python and numpy, independent of
ruleskit), shared by the worlds that work with rules."""
import copy
import json
import math

import numpy as np
import pandas as pd

from .. import host
from ..engine import Violation
from ..fs import SimCrash
from ..kernel import NoProgress
from .common import Alloc

INT_LABELS = [[0, 1], [0, 1, 2], [-1, 1], [3, 7, 11, 2], [1, 2]]
STR_LABELS = [["a", "b"], ["no", "yes", "maybe"], ["x", "y", "z", "w"], ["low risk", "high"], ["zero", "one"],
              ["a" * 40, "a" * 39 + "b"], ["b", "B", "é"]]


# -- generation -----------------------------------------------------------------------------------------------------
def gen_data(rng, kind, n=None, d=None):
    if n is None:
        n = rng.choice([5, 6, 8, 10, 13, 17, 24, 33, 48, 60, rng.randint(5, 60), rng.randint(20, 60)])
        if n >= 60 and rng.random() < 0.5:  # more points than fit in a byte
            n = rng.choice([256, 300, 513, rng.randint(200, 1200)])
    return {"n": n, "d": d or rng.randint(1, 4), "s": rng.randrange(10 ** 6), "nan": rng.choice([0, 0, 0.1, 0.3]),
            "inf": rng.choice([0, 0, 0, 0.1]), "kind": kind,
            "y": rng.choice(["norm", "small", "sym", "offset"] * 3 + ["tiny", "huge"]) if kind == "reg" else rng.choice(["uni", "skew"])}


def gen_rule(rng, d, wide=0.3):
    k = rng.randint(1, min(3, d))
    f = rng.sample(range(d), k)
    lo, hi = [], []
    for _ in f:
        r = rng.random()
        if r < wide:
            a, b = -1, rng.choice([9, 10, 6])
        else:
            a = rng.choice([0, 1, 2, 3, 4, 5, 2.5])
            b = a + rng.choice([0, 1, 2, 3, 4, 5.5])
        if rng.random() < 0.06:
            a = -math.inf
        if rng.random() < 0.06:
            b = math.inf
        if rng.random() < 0.03:
            a, b = 8, 3
        lo.append(a)
        hi.append(b)
    return {"f": f, "lo": lo, "hi": hi}


def rule_key(r):
    o = sorted(range(len(r["f"])), key=lambda i: r["f"][i])
    return tuple((r["f"][i], float(r["lo"][i]), float(r["hi"][i])) for i in o)


def gen_rules(rng, n, d, wide=0.3):
    out, seen = [], set()
    for _ in range(n * 30):
        r = gen_rule(rng, d, wide)
        k = rule_key(r)
        if k not in seen:
            seen.add(k)
            out.append(r)
            if len(out) == n:
                break
    return out


def spice(rng, data, rules):
    """Other magnitudes (the same for data and bounds, so that bounds still are hit exactly) and bounds one float off."""
    s = rng.choice([1] * 6 + [1 / 3, 0.1, 16777217.0, 1e-9])
    b = rng.choice([0] * 5 + [-5, -5, 1e6])
    for spec in data:
        spec["scale"], spec["shift"] = s, b

    def move(v):
        if s != 1 or b:
            v = v * s + b
        if math.isfinite(v) and rng.random() < 0.04:
            v = float(np.nextafter(v, rng.choice([-math.inf, math.inf])))
        return v

    out = {}
    twins = rng.random() < 0.15
    for r in rules:
        r = {"f": r["f"], "lo": [move(v) for v in r["lo"]], "hi": [move(v) for v in r["hi"]]}
        out.setdefault(rule_key(r), r)
        if twins and rng.random() < 0.5:  # another rule with the same hash: hash(-1) == hash(-2)
            swap = {-1: -2, -2: -1}
            t = {"f": list(r["f"]), "lo": [swap.get(v, v) for v in r["lo"]], "hi": [swap.get(v, v) for v in r["hi"]]}
            out.setdefault(rule_key(t), t)
    return list(out.values())


def enc(x):
    """JSON has no infinity."""
    return {math.inf: "inf", -math.inf: "-inf"}.get(x, x) if isinstance(x, float) else x


def dec(x):
    return float(x) if isinstance(x, str) else x


def enc_rule(r):
    return {"f": r["f"], "lo": [enc(x) for x in r["lo"]], "hi": [enc(x) for x in r["hi"]]}


def dec_rule(r):
    return {"f": list(r["f"]), "lo": [dec(x) for x in r["lo"]], "hi": [dec(x) for x in r["hi"]]}


class Data:
    def __init__(self, spec, labels=None):
        self.spec = spec
        n, d = spec["n"], spec["d"]
        r = np.random.RandomState(spec["s"] % (2 ** 31))
        X = r.randint(0, 10, size=(n, d)).astype(float)
        X = X * spec.get("scale", 1) + spec.get("shift", 0)
        X[r.rand(n, d) < spec["nan"]] = np.nan
        X[r.rand(n, d) < spec["inf"]] = np.inf
        X[r.rand(n, d) < spec["inf"] / 2] = -np.inf
        self.X = X
        if spec["kind"] == "reg":
            k = spec["y"]
            if k == "norm":
                y = np.round(r.randn(n), 3)
            elif k == "small":
                y = r.randint(-2, 3, size=n).astype(float)
            elif k == "sym":
                y = r.choice([-1.0, 1.0], size=n)
            elif k == "tiny":
                y = np.round(r.randn(n) * 1e-6, 10)
            elif k == "huge":
                y = np.round(r.randn(n) * 1e9)
            else:
                y = np.round(100 + r.randn(n), 2)
            if y.std() == 0:
                y[0] += 1.0
            if spec.get("ynan"):  # some targets are not known; three different ones always are
                hide = np.random.RandomState((spec["s"] + 7) % (2 ** 31)).rand(n) < spec["ynan"]
                y[hide] = np.nan
                y[:3] = [1.0, 2.0, -1.5]
            self.y = y
        else:
            p = np.ones(len(labels)) if spec["y"] == "uni" else np.array([5.0] + [1.0] * (len(labels) - 1))
            idx = r.choice(len(labels), size=n, p=p / p.sum())
            self.y = np.array([labels[i] for i in idx], dtype=object if isinstance(labels[0], str) else int)

    def xs(self, form, names=None):
        X = self.X.copy()
        if form == "np":
            return X
        if form == "nps":  # not contiguous
            big = np.full((2 * X.shape[0], X.shape[1] + 1), 7.0, order="F")
            big[::2, 1:] = X
            return big[::2, 1:]
        if form == "int":
            Y = X.astype(int) if np.isfinite(X).all() else X
            return Y if (Y == X).all() else X
        cols = names or [f"X_{i}" for i in range(X.shape[1])]
        df = pd.DataFrame(X, columns=cols)
        if form == "dfr":
            df = df[cols[::-1]]
        if form == "dfx":
            df.insert(0, "other", [f"t{i}" for i in range(len(df))])
            df["more"] = -1.5
        if form == "dfi":
            df.index = range(100, 100 + len(df))
        if form == "dfd":  # labels that are not in order, some of them twice
            df.index = [f"p{(7 * i) % 5}" for i in range(len(df))]
        return df

    def ys(self, form):
        y = self.y.copy()
        if form == "np":
            return y
        if form == "col":
            return y.reshape(-1, 1)
        if form == "frame":
            return pd.DataFrame({"y": y})
        if form == "serd":
            return pd.Series(y, index=[(7 * i + 3) % 5 for i in range(len(y))])
        return pd.Series(y, index=range(1000, 1000 + len(y)) if form == "seri" else None)


# -- reference model ------------------------------------------------------------------------------------------------
def m_act(rule, X):
    out = np.zeros(len(X), dtype=np.ubyte)
    for i in range(len(X)):
        ok = True
        for f, lo, hi in zip(rule["f"], rule["lo"], rule["hi"]):
            v = X[i, f]
            if not (math.isfinite(v) and lo <= v <= hi):
                ok = False
                break
        out[i] = ok
    return out


def known(y):
    """The targets that are there."""
    return [v for v in y if not math.isnan(v)]


def m_fit(act, y, kind, horizon=1):
    """What a rule has to know after being fitted on the points where it is active."""
    n, k = len(y), int(act.sum())
    ya = [y[i] for i in range(n) if act[i]]
    out = {"coverage": k / n, "nones": k, "train_set_size": n}
    if kind == "reg":
        ya, y = known(ya), known(y)
        q, n = len(ya), len(y)
        p = math.fsum(ya) / q if q else math.nan
        out["prediction"] = p
        out["std"] = math.sqrt(math.fsum((v - p) ** 2 for v in ya) / (q - 1)) if q > 1 else ("0|nan" if k else math.nan)
        out["sign"] = "-" if p < 0 else "+"
        mean = math.fsum(y) / n
        sd = math.sqrt(math.fsum((v - mean) ** 2 for v in y) / n)
        out["zscore"] = abs(p - mean) / (math.sqrt(horizon / k) * sd) if k else math.nan
    else:
        cnt = {}
        for v in ya:
            cnt[v] = cnt.get(v, 0) + 1
        out["prediction"] = sorted(cnt, key=lambda c: (-cnt[c], c))[0] if cnt else None
    return out


def m_rule_criterion(act, pred, y, kind, method=None):
    ya = [y[i] for i in range(len(y)) if act[i]]
    if not ya or pred is None or (isinstance(pred, float) and math.isnan(pred)):
        return math.nan
    if kind == "reg":
        return m_error([pred - v for v in ya], y, method)
    return sum(1 for v in ya if v == pred) / len(ya)


def m_error(err, y, method):
    """Regression criterion from the errors at the points where something is predicted and all targets."""
    method = method or "mse_norm"
    n = len(y)
    err = known(err)
    if not err:
        return math.nan
    if method.startswith("mse"):
        e = math.fsum(v * v for v in err) / len(err)
    else:
        e = math.fsum(abs(v) for v in err) / len(err)
    mean = math.fsum(y) / n
    if method == "mse_norm":
        return e / (math.fsum((mean - v) ** 2 for v in y) / n)
    if method == "aae":
        z = sorted(y)
        med = (z[(n - 1) // 2] + z[n // 2]) / 2
        d = math.fsum(abs(v - med) for v in y) / n
        return e / d if d else None
    if method == "mae_norm":
        return e / (math.fsum(abs(mean - v) for v in y) / n)
    return e


def usable(p):
    return p is not None and not (isinstance(p, float) and math.isnan(p))


def m_predict(acts, preds, weights, kind, n):
    """Prediction of a rule set at each point: None where nothing is predicted."""
    out = []
    for i in range(n):
        rs = [j for j in range(len(acts)) if acts[j][i] and usable(preds[j])]
        if kind == "reg":
            num = math.fsum(preds[j] * weights[j] for j in rs)
            den = math.fsum(weights[j] for j in rs)
            out.append(num / den if rs and den else None)
        else:
            votes = {}
            for j in rs:
                votes[preds[j]] = votes.get(preds[j], 0) + weights[j]
            best = max(votes.values()) if votes else 0
            win = [c for c in votes if votes[c] == best]
            out.append(win[0] if len(win) == 1 else None)
    return out


def m_set_criterion(pred, union, y, kind, method=None):
    if kind == "reg":
        e = [p - v for p, v in zip(pred, y) if p is not None]
        return m_error(e, y, method) if e else math.nan
    n = sum(1 for p, a in zip(pred, union) if a and p is not None)
    return sum(1 for p, a, v in zip(pred, union, y) if a and p is not None and p == v) / n if n else math.nan


# -- comparison -----------------------------------------------------------------------------------------------------
def isnan(x):
    return x is None or (isinstance(x, (float, np.floating)) and math.isnan(x)) or x is pd.NA


UNIT = [1.0]  # figures much smaller than this count as zero; set by each run to suit its targets


def close(a, b, tol=1e-8):
    if isinstance(b, str):
        if b == "0|nan":
            return isnan(a) or abs(a) < 1e-12
        return isinstance(a, str) and a == b
    if isnan(b):
        return isnan(a)
    if isnan(a) or isinstance(a, str):
        return False
    a, b = float(a), float(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(UNIT[0], abs(a), abs(b))


def show(v, n=20):
    l = list(np.asarray(v).tolist()) if v is not None else None
    return f"{l[:n]}{'...' if len(l) > n else ''}" if l is not None else "None"


def or_all(acts, n):
    out = np.zeros(n, dtype=np.ubyte)
    for a in acts:
        out |= a
    return out


# -- what every run of these worlds needs ------------------------------------------------------------------------------
def short_op(o):
    return {k: v for k, v in o.items() if k not in ("id",) and v is not None}


def gen_cfg(rng, short=True):
    return {"dtype": rng.choice(["str", "str", "arr"]), "wc": rng.random() < 0.4, "raw": rng.random() < 0.12,
            "fs": rng.random() < 0.2, "ncpus": rng.choice([1, 1, 2]), "local": rng.random() < 0.65,
            "short": rng.choice([0, 0, 0, 1, 3, 64, 130]) if short else 0,
            "rng": rng.randrange(10 ** 6), "narrow": rng.choice([0, 0, 0, 0, 1, 2, 3])}


def gen_fault(rng, p, crash=False):
    if rng.random() > p:
        return None
    k = rng.choice(["enospc", "torn", "eio_w", "eio_r", "eacces", "emfile"] + (["crash"] if crash else []))
    f = {"kind": k, "at": rng.choice([0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 8, 10, 13, 17])}
    if k == "crash":
        f["at"] = rng.randint(0, 20)
    if k == "torn":
        f["frac"] = rng.choice([0.0, 0.1, 0.5, 0.9, 0.99])
    if k in ("enospc", "eacces", "emfile", "eio_w") and rng.random() < 0.3:
        f["sticky"] = True
    return f


class RuleRun:
    def __init__(self, trace, stats, **boot):
        self.t, self.stats = trace, stats
        self.prop = trace["prop"]
        self.cfg = dict(trace["cfg"])
        self.k = host.boot(short=self.cfg["short"], **boot)
        self.k.h.update(json.dumps([trace["cfg"], trace.get("data"), trace.get("rules"), trace["ops"]],
                                   sort_keys=True).encode())
        self.labels = trace["cfg"].get("labels")
        self.kind = trace["cfg"].get("kind", "reg")
        self.data = [Data(s, self.labels) for s in trace.get("data", ())]
        UNIT[0] = 1e-6 if self.data and all(d.spec.get("y") == "tiny" and not d.spec.get("ynan") for d in self.data) else 1.0
        self.specs = [dec_rule(r) for r in trace.get("rules", ())]
        self.fresh_image(self.cfg["rng"])
        self._acts = {}

    def fresh_image(self, seed):
        self.im = host.Image(seed, self.cfg["narrow"])
        self.A = self.im.Activation
        self.pkg = self.im.pkg
        self.apply_cfg()

    def apply_cfg(self):
        A, c = self.A, self.cfg
        A.DTYPE = str if c["dtype"] == "str" else np.ndarray
        A.WILL_COMPARE, A.STORE_RAW, A.FORCE_STAT, A.NCPUS = c["wc"], c["raw"], c["fs"], c["ncpus"]
        self.Rule = self.im.modules["ruleskit.rule"].Rule
        self.RuleSet = self.im.modules["ruleskit.ruleset"].RuleSet
        self.Cond = self.im.modules["ruleskit.condition"].HyperrectangleCondition
        self.RuleT = getattr(self.im.modules["ruleskit.rule"],
                             "RegressionRule" if self.kind == "reg" else "ClassificationRule")
        self.Rule.LOCAL_ACTIVATION = c["local"]
        self.Rule.COMPUTE_SUBATTRIBUTES = c.get("sub", False)
        self.Cond.SORT_ACCORDING_TO = c.get("sortby", "index")
        self.RuleSet.STACKED_FIT = c.get("stacked", False)
        self.RuleSet.CHECK_DUPLICATED = c.get("dup", False)
        if c.get("allidx"):
            self.RuleSet.all_features_indexes = {n: i for i, n in enumerate(c["fnames"])}

    def check_cfg(self, where):
        A, c = self.A, self.cfg
        got = (A.DTYPE is str, A.WILL_COMPARE, A.STORE_RAW, A.FORCE_STAT, self.Rule.LOCAL_ACTIVATION,
               self.RuleSet.STACKED_FIT)
        want = (c["dtype"] == "str", c["wc"], c["raw"], c["fs"], c["local"], c.get("stacked", False))
        if got != want:
            raise Violation("settings-changed", f"{where}: class settings are {got}, the user set {want}")

    def make_rule(self, i, names=None):
        s = self.specs[i]
        byname = bool(names) and self.cfg.get("byname")
        return self.RuleT(self.Cond(None if byname else list(s["f"]), bmins=list(s["lo"]), bmaxs=list(s["hi"]),
                                    features_names=[names[j] for j in s["f"]] if names else None))

    def act(self, i, k):
        """Model: points of data set k where rule i is active."""
        if (i, k) not in self._acts:
            self._acts[i, k] = m_act(self.specs[i], self.data[k].X)
        return self._acts[i, k]

    def call(self, o, fn, fault=True):
        self.k.begin_op(o["id"], o.get("fault") if fault else None)
        m = self.cfg.get("mem") if fault else None
        alloc = None
        if m:
            self.stats.bump("faults_fired", "low_memory")
            if m == "alloc":
                alloc = host.World.np_hook = Alloc()
            else:
                self.im.mem.set(avail=1e9, drop={"pairs": 4e8, "refuse": 9e8}[m], cycle=True)
        try:
            with host.guest():
                out = ("ok", fn())
        except SimCrash:
            out = ("crash", None)
        except NoProgress as e:
            raise Violation("no-progress", f"op {short_op(o)}: {e}")
        except Exception as e:
            out = ("err", e)
        finally:
            host.World.np_hook = None
            self.im.mem.set()
        fired = self.k.end_op()
        if out[0] == "err" and isinstance(out[1], MemoryError) and (alloc is not None and alloc.fired or m == "refuse"):
            fired = fired or [m]  # the operation may give up
        if self.k.me.dead:
            out = ("crash", None)
        return fired, out

    def fail(self, o, e, what="although nothing failed"):
        raise Violation(f"error:{o['op']}:{type(e).__name__}",
                        f"op {short_op(o)} raised {type(e).__name__}: {e} {what}")

    def attempt(self, o, fn):
        """Run an operation that may be hit by a fault; if it raises then, run it again without the fault.
        Returns (value, failed first)."""
        fired, out = self.call(o, fn)
        if out[0] == "ok":
            return out[1], False
        if not fired:
            self.fail(o, out[1])
        self.check_cfg(f"after op {short_op(o)} failed")
        self.stats.bump("op_kinds", "retry")
        fired, out = self.call(o, fn, fault=False)
        if out[0] != "ok":
            self.fail(o, out[1], "when repeated after a storage fault")
        return out[1], True

    def finish(self):
        c = self.t["cfg"]
        for n in ("kind", "local", "stacked", "dtype", "xs", "ys"):
            if n in c:
                self.stats.bump("cfg", f"{n}={c[n]}")
        self.stats.kernel(self.k)
        return self.k.digest()


def simplify(trace):
    """Smaller variants of a trace of these worlds."""
    for i, o in enumerate(trace["ops"]):
        if o.get("fault"):
            c = copy.deepcopy(trace)
            c["ops"][i]["fault"] = None
            yield c
            if o["fault"].get("at", 0) > 0:
                c = copy.deepcopy(trace)
                c["ops"][i]["fault"]["at"] -= 1
                yield c
    for k, val in (("short", 0), ("narrow", 0), ("fs", False), ("raw", False), ("wc", False), ("dtype", "str"),
                   ("ncpus", 1), ("xs", "np"), ("ys", "np"), ("local", False), ("stacked", False), ("sub", False),
                   ("sortby", "index"), ("fnames", None), ("byname", False), ("allidx", False), ("mem", None),
                   ("buf", False), ("dup", False)):
        if k in trace["cfg"] and trace["cfg"][k] != val:
            if k in ("xs", "fnames", "allidx") and trace["cfg"].get("byname"):
                continue  # names alone need frames
            c = copy.deepcopy(trace)
            c["cfg"][k] = val
            yield c
    for i, s in enumerate(trace.get("data", ())):
        for k in ("nan", "inf"):
            if s[k]:
                c = copy.deepcopy(trace)
                c["data"][i][k] = 0
                yield c
        for n in (2, 3, 5, s["n"] // 2, s["n"] - 1):
            if 2 <= n < s["n"]:
                c = copy.deepcopy(trace)
                c["data"][i]["n"] = n
                yield c
