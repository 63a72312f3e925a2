"""World T: two or three threads of one process share vectors, rules and rule sets and only read them.

C06  every thread gets the answers it would get alone, under every interleaving at source line granularity, and shared
     objects and class-wide settings are afterwards what they were
"""
import copy
import io
import json
import math
from pathlib import Path

import numpy as np
from bitarray import bitarray

from .. import host
from ..engine import Violation
from ..fs import SimCrash
from ..kernel import NoProgress
from .common import VIEWS, audit, compare_view, gen_vec, m_compressed, m_int, make_vec, same_raw, shrink_vec
from .rulemodel import (INT_LABELS, STR_LABELS, Data, RuleRun, close, enc_rule, gen_cfg, gen_data, gen_fault, gen_rules, spice,
                        isnan, m_act, m_fit, m_predict, or_all, short_op, show)
from .rulemodel import simplify as simplify_rules

NONTRIVIAL = ("an execution counts as distinct when the hash over its configuration, shared objects, operations, ordered "
              "file system events and context switches (with the step at which they happen) differs; every run has two "
              "or three threads with at least one operation each")
SHAPE = "set of (operation, stored format of the vector, vector shared while another thread is inside an operation) reached"
REAL = ["ruleskit.activation, ruleskit.rule, ruleskit.ruleset, ruleskit.condition, ruleskit.utils (from /repo), one image "
        "shared by the threads", "numpy", "pandas", "bitarray"]
STUB = ["thread scheduling (seeded, switches at every source line of ruleskit and every file system call)",
        "kernel file system (in memory)", "clock", "random source", "threading locks", "ruleskit._version"]
ASSUMPTIONS = ["a thread is preempted between source lines of ruleskit or at file system calls, not inside a line or "
               "inside numpy, pandas and bitarray calls",
               "forced statistics are off and profiling attributes are not asked for by the threads",
               "lasily opened vectors were read once before they are shared (the first read loads them)",
               "threads only read shared objects; they create, combine and modify objects of their own",
               "class labels: every rule is active at one point at least"]

LOGIC = ["and", "or", "xor", "add", "sub", "contains", "corr"]
FORMS = ["raw_u1", "raw_i8", "bitarray", "int", "cstr", "carr", "path", "lasy", "bitstr"]


def describe(trace):
    return {"cfg": trace["cfg"], "vecs": trace["vecs"], "ops": [short_op(o) for o in trace["ops"][:10]],
            "preemptions": trace["sched"][:8]}


# -- generation -----------------------------------------------------------------------------------------------------
def gen(rng, prop, tier):
    cfg = gen_cfg(rng)
    cfg["fs"] = False
    cfg["narrow"] = 0
    cfg["kind"] = rng.choice(["reg", "reg", "cls"])
    if cfg["kind"] == "cls":
        cfg["labels"] = rng.choice(INT_LABELS + STR_LABELS)
    cfg["stacked"] = False
    cfg["table"] = rng.random() < 0.4
    cfg["nthr"] = rng.choice([2, 2, 2, 3])
    cfg["xs"] = rng.choice(["np", "df"])
    cfg["ys"] = "np"
    nt = cfg["nthr"]
    d = rng.randint(1, 3)
    data = [gen_data(rng, cfg["kind"], d=d, n=rng.choice([5, 8, 12, rng.randint(5, 50)] * 6 + [rng.randint(200, 700)])) for _ in range(2)]
    rules = spice(rng, data, gen_rules(rng, rng.randint(1, 4), d))
    if cfg["kind"] == "cls":
        ds = [Data(s, cfg["labels"]) for s in data]
        rules = [r for r in rules if all(m_act(r, x.X).any() for x in ds)]
        if not rules:
            rules = [{"f": [0], "lo": [-1e9], "hi": [1e9]}]
            for s in data:
                s["nan"] = s["inf"] = 0
    nr = len(rules)
    n = rng.choice([1, 2, 3, 8, 9, 17, 33, 64, 129, 300, rng.randint(1, 200)])
    nv = rng.randint(2, 4)
    vecs = []
    for _ in range(nv):
        vecs.append({"vec": gen_vec(rng, n=n), "form": rng.choice(FORMS), "opt": rng.random() < 0.75,
                     "file": rng.random() < 0.6})
    hot = rng.randrange(nv)
    focus = rng.choice(["vec", "vec", "vec", "rule", "mix"])
    ops = []
    per = rng.randint(1, 4) if tier == "quick" else rng.randint(1, 8)
    for t in range(nt):
        for _ in range(per):
            i = hot if rng.random() < 0.6 else rng.randrange(nv)
            j = rng.randrange(nv)
            w = {"vec": [("get", 40), ("logic", 24), ("multi", 8), ("copy", 10), ("new", 14)],
                 "rule": [("ract", 10), ("rpredict", 14), ("rand", 10), ("reval", 6), ("spredict", 24), ("sact", 8),
                          ("seval", 8), ("look", 8), ("slice", 8), ("df", 4), ("new", 6), ("rfit", 4)],
                 "mix": [("get", 20), ("logic", 12), ("copy", 6), ("new", 10), ("rpredict", 10), ("rand", 10),
                         ("spredict", 16), ("slice", 6), ("look", 5), ("rfit", 5)]}[focus]
            k = rng.choices([x for x, _ in w], [y for _, y in w])[0]
            o = {"op": k, "t": t}
            if k == "get":
                o.update(i=i, view=rng.choice(VIEWS))
            elif k == "logic":
                o.update(i=i, j=j, f=rng.choice(LOGIC))
            elif k == "multi":
                o.update(l=[rng.randrange(nv) for _ in range(rng.randint(2, 4))], f=rng.choice(["and", "or", "xor"]))
            elif k == "copy":
                o.update(i=i)
            elif k == "new":
                o.update(vec=gen_vec(rng, n=n), form=rng.choice(["raw_u1", "raw_i8", "bitarray", "int", "cstr", "carr"]),
                         opt=rng.random() < 0.75, file=rng.random() < 0.6, view=rng.choice(VIEWS))
            elif k in ("ract", "rpredict", "reval", "rand", "rfit", "look"):
                o.update(i=rng.randrange(nr), j=rng.randrange(nr), xs=rng.random() < 0.5,
                         what=rng.choice(["activation", "coverage", "ones", "nones", "entropy"]))
            elif k in ("spredict", "slice"):
                o.update(xs=rng.random() < 0.6, a=rng.randrange(nr), w=rng.choice([None, None, "coverage"]))
            o["fault"] = gen_fault(rng, 0.08)
            ops.append(o)
    rng.shuffle(ops)
    for i, o in enumerate(ops):
        o["id"] = i
    sched = []
    style = rng.random()
    if style < 0.25:
        # dense: hand over every few lines
        step, o0 = rng.choice([1, 2, 3, 5, 9]), rng.choice(ops)
        for o in ops:
            if o is o0 or rng.random() < 0.3:
                for m in range(0, 60, step):
                    sched.append({"a": o["t"], "op": o["id"], "n": m + rng.randrange(step), "to": rng.randrange(nt)})
    else:
        for _ in range(rng.choice([1, 1, 2, 3, 4, 6, 10, 16])):
            o = rng.choice(ops)
            m = int(2 ** rng.uniform(0, 6.5 if o["op"] in ("get", "copy") else 8.5)) - 1
            sched.append({"a": o["t"], "op": o["id"], "n": m, "to": rng.randrange(nt)})
    return {"cfg": cfg, "data": data, "rules": [enc_rule(r) for r in rules], "vecs": vecs, "ops": ops, "sched": sched}


def simplify(trace):
    yield from simplify_rules(trace)
    for i, s in enumerate(trace["sched"]):
        for m in (s["n"] // 2, s["n"] - 1):
            if 0 <= m < s["n"]:
                c = copy.deepcopy(trace)
                c["sched"][i]["n"] = m
                yield c
    ns = max(v["vec"]["n"] for v in trace["vecs"])
    for n in (1, 2, 3, 8, 9, 65, ns // 2):
        if 0 < n < ns:
            c = copy.deepcopy(trace)
            for v in c["vecs"]:
                v["vec"]["n"] = n
            for o in c["ops"]:
                if "vec" in o:
                    o["vec"]["n"] = n
            yield c
    if trace["cfg"]["nthr"] == 3 and not any(o["t"] == 2 for o in trace["ops"]):
        c = copy.deepcopy(trace)
        c["cfg"]["nthr"] = 2
        yield c


# -- execution ------------------------------------------------------------------------------------------------------
class Run(RuleRun):
    def __init__(self, trace, stats):
        super().__init__(trace, stats, sched=trace["sched"], line_step=True)
        self.k.h.update(json.dumps([trace["sched"], trace["vecs"]], sort_keys=True).encode())
        self.inside = {}
        self.mine = []
        self.setup()

    def arg(self, v, form):
        n = len(v)
        if form == "carr" and n == 1:
            form = "raw_u1"
        kw = {}
        if form.startswith("raw_"):
            a = v.astype({"u1": np.ubyte, "i8": np.int64}[form[4:]])
        elif form == "bitarray":
            a = bitarray(v.tolist())
        elif form == "int":
            a, kw["length"] = m_int(v), n
        elif form == "cstr":
            a = ",".join(map(str, m_compressed(v)))
        elif form == "carr":
            a = np.array(m_compressed(v), dtype="int64")
        elif form == "bitstr":
            a = "".join(map(str, v.tolist()))
        else:
            self.nfile = getattr(self, "nfile", 0) + 1
            p = f"{host.TMP}/input_{self.nfile}.npy"
            b = io.BytesIO()
            np.save(b, v)
            self.k.fs.poke(p, b.getvalue())
            a, kw["lasy"] = Path(p), form == "lasy"
        return a, kw

    def setup(self):
        self.k.begin_op("setup", None)
        self.vecs = []
        with host.guest():
            for s in self.t["vecs"]:
                v = make_vec(s["vec"])
                a, kw = self.arg(v, s["form"])
                x = self.A(a, optimize=s["opt"], to_file=s["file"], **kw)
                if kw.get("lasy"):
                    _ = x.raw  # the first read of a lasily opened vector changes it
                self.vecs.append((x, v))
            self.rules = [self.make_rule(i) for i in range(len(self.specs))]
            self.rs = self.RuleSet(self.rules, stack_activation=self.cfg["table"])
            if any(o["op"] not in ("get", "logic", "multi", "copy", "new") for o in self.t["ops"]):
                self.rs.fit(self.data[0].y, self.data[0].xs(self.cfg["xs"]))
                self.fit = [m_fit(self.act(i, 0), self.data[0].y, self.kind) for i in range(len(self.specs))]
                self.fitted = True
            else:
                self.fitted = False
        self.Xs = [d.xs(self.cfg["xs"]) for d in self.data]
        self.names = [f"X_{j}" for j in range(self.data[0].X.shape[1])]

    def do(self, o, fn):
        """(True, value), or (False, None) after a fault hit it."""
        self.inside[o["t"]] = o["op"]
        fired, out = self.tcall(o, fn)
        self.inside[o["t"]] = None
        if out[0] == "err":
            if not fired:
                raise Violation(f"error:{o['op']}:{type(out[1]).__name__}",
                                f"op {short_op(o)} raised {type(out[1]).__name__}: {out[1]} although nothing failed")
            return False, None
        return True, out[1]

    def tcall(self, o, fn):
        # like RuleRun.call, but the fault and the step counter belong to this thread
        self.k.begin_op(o["id"], o.get("fault"))
        me = self.k.me
        try:
            out = ("ok", fn())
        except (SimCrash, NoProgress):
            raise
        except Exception as e:
            out = ("err", e)
        fired = me.fired
        me.fault = None
        me.op = None
        return fired, out

    def shape(self, o, a=None):
        busy = sorted(str(v) for t, v in self.inside.items() if v and t != o["t"])
        self.stats.shapes.add(f"{o['op']}/{o.get('view') or o.get('f') or ''}/{getattr(a, 'data_format', '')}/{busy[:1]}")

    def wrong(self, o, what):
        raise Violation(f"wrong:{o['op']}:{o.get('view') or o.get('f') or o.get('what') or ''}",
                        f"op {short_op(o)} of thread {o['t']}: {what}")

    # -- vectors
    def op_get(self, o):
        a, v = self.vecs[o["i"]]
        ok, got = self.do(o, lambda: len(a) if o["view"] == "len" else getattr(a, o["view"]))
        self.shape(o, a)
        if ok:
            bad = compare_view(o["view"], got, v)
            if bad:
                self.wrong(o, bad)

    def op_logic(self, o):
        (a, va), (b, vb) = self.vecs[o["i"]], self.vecs[o["j"]]
        f = o["f"]
        fn = {"and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b, "add": lambda: a + b,
              "sub": lambda: a - b, "contains": lambda: b in a, "corr": lambda: a.get_correlation(b)}[f]
        ok, got = self.do(o, fn)
        self.shape(o, a)
        if not ok:
            return
        if f == "contains":
            if bool(got) != bool(((va & vb) == vb).all()):
                self.wrong(o, f"{show(vb)} in {show(va)} answered {got}")
        elif f == "corr":
            want = int((va == vb).sum()) / len(va)
            if not close(got, want):
                self.wrong(o, f"correlation of {show(va)} and {show(vb)} is {got}, want {want}")
        else:
            want = {"and": va & vb, "or": va | vb, "add": va | vb, "xor": va ^ vb, "sub": va & (1 - vb)}[f]
            self.mine.append((o, got, want))

    def op_multi(self, o):
        vs = [self.vecs[i] for i in o["l"]]
        fn = getattr(self.A, f"multi_logical_{o['f']}")
        ok, got = self.do(o, lambda: fn([a for a, _ in vs]))
        self.shape(o)
        if ok:
            m = np.vstack([v for _, v in vs])
            s = m.sum(axis=0)
            want = {"and": s == len(vs), "or": s > 0, "xor": (s > 0) & (s < len(vs))}[o["f"]].astype(np.ubyte)
            self.mine.append((o, got, want))

    def op_copy(self, o):
        a, v = self.vecs[o["i"]]
        ok, got = self.do(o, lambda: copy.copy(a))
        self.shape(o, a)
        if ok:
            self.mine.append((o, got, v))

    def op_new(self, o):
        v = make_vec(o["vec"])
        a, kw = self.arg(v, o["form"])
        ok, got = self.do(o, lambda: self.A(a, optimize=o["opt"], to_file=o["file"], **kw))
        if ok:
            self.mine.append((o, got, v))
            o2 = dict(o, id=f"{o['id']}b", fault=None)
            ok, x = self.do(o2, lambda: len(got) if o["view"] == "len" else getattr(got, o["view"]))
            bad = compare_view(o["view"], x, v)
            if bad:
                self.wrong(o, bad)
        self.shape(o)

    # -- rules
    def op_ract(self, o):
        r, want = self.rules[o["i"]], self.act(o["i"], 0)
        ok, got = self.do(o, lambda: getattr(r, o["what"]))
        self.shape(o)
        if not ok:
            return
        w = o["what"]
        if w == "activation":
            if not same_raw(got, want):
                self.wrong(o, f"rule active at {show(got)}, want {show(want)}")
        else:
            bad = compare_view(w, got, want)
            if bad:
                self.wrong(o, bad)

    def op_rpredict(self, o):
        i, k = o["i"], 1 if o["xs"] else 0
        r = self.rules[i]
        ok, got = self.do(o, lambda: r.predict(self.Xs[1]) if o["xs"] else r.predict())
        self.shape(o)
        if not ok:
            return
        a, p = self.act(i, k), self.fit[i]["prediction"]
        vals = np.asarray(got).reshape(-1).tolist()
        for j in range(len(a)):
            v = vals[j] if j < len(vals) else "absent"
            if not (close(v, p) if a[j] else (isnan(v) or v == "nan")):
                self.wrong(o, f"rule {i} predicts {v!r} at point {j}, active there: {bool(a[j])}, prediction {p!r}")

    def op_reval(self, o):
        r = self.rules[o["i"]]
        ok, got = self.do(o, lambda: r.evaluate_activation(self.Xs[1]))
        self.shape(o)
        if ok:
            self.mine.append((o, got, self.act(o["i"], 1)))

    def op_rand(self, o):
        a, b = self.rules[o["i"]], self.rules[o["j"]]
        ok, got = self.do(o, lambda: a & b)
        self.shape(o)
        if ok:
            self.mine.append((o, got._activation, self.act(o["i"], 0) & self.act(o["j"], 0)))

    def op_rfit(self, o):
        """A rule of the thread's own, fitted while the others read."""
        i = o["i"]

        def fn():
            r = self.make_rule(i)
            r.fit(self.data[0].y, self.Xs[0])
            return r

        ok, r = self.do(o, fn)
        self.shape(o)
        if ok:
            f = self.fit[i]
            if not close(r.prediction, f["prediction"]) or not close(r.coverage, f["coverage"]):
                self.wrong(o, f"prediction {r.prediction!r} coverage {r.coverage}, want {f['prediction']!r} and "
                              f"{f['coverage']}")
            self.mine.append((o, r._activation, self.act(i, 0)))

    # -- rule sets
    def op_spredict(self, o):
        k = 1 if o["xs"] else 0
        n = len(self.data[k].y)
        acts = [self.act(i, k) for i in range(len(self.rules))]
        if not any(a.any() for a in acts):
            return
        w, weights = o["w"], [1.0] * len(acts)
        if self.kind == "cls":
            w = None
        if w == "coverage":
            weights = [self.act(i, 0).sum() / len(self.act(i, 0)) for i in range(len(acts))]
        live = [j for j in range(len(acts)) if weights[j] and acts[j].any()]
        if not live:
            return
        want = m_predict([acts[j] for j in live], [self.fit[j]["prediction"] for j in live],
                         [weights[j] for j in live], self.kind, n)
        ok, got = self.do(o, lambda: self.rs.predict(xs=self.Xs[1] if o["xs"] else None, weights=w))
        self.shape(o)
        if ok:
            vals = list(got)
            bad = [i for i in range(n) if i >= len(vals) or not close(vals[i], want[i])]
            if len(vals) != n or bad:
                self.wrong(o, f"rule set predicts {vals[:20]}, want {want[:20]}")

    def op_sact(self, o):
        ok, got = self.do(o, lambda: (self.rs.activation, self.rs.ruleset_coverage))
        self.shape(o)
        u = or_all([self.act(i, 0) for i in range(len(self.rules))], len(self.data[0].y))
        if ok and (not same_raw(got[0], u) or not close(got[1], u.sum() / len(u))):
            self.wrong(o, f"rule set active at {show(got[0])} with coverage {got[1]}, want {show(u)}")

    def op_seval(self, o):
        ok, got = self.do(o, lambda: self.rs.evaluate(self.Xs[1]))
        self.shape(o)
        if ok:
            self.mine.append((o, got, or_all([self.act(i, 1) for i in range(len(self.rules))], len(self.data[1].y))))

    def op_look(self, o):
        r = self.rules[o["i"]]
        ok, got = self.do(o, lambda: (r in self.rs, len(self.rs), self.rs[o["i"]], list(self.rs), str(r.condition),
                                      self.rs.get_features_count()))
        self.shape(o)
        if ok and (not got[0] or got[1] != len(self.rules) or got[2] is not r or
                   any(x is not y for x, y in zip(got[3], self.rules))):
            self.wrong(o, f"lookups answered {got}")

    def op_slice(self, o):
        ok, got = self.do(o, lambda: self.rs[o["a"]:])
        self.shape(o)
        if ok:
            u = or_all([self.act(i, 0) for i in range(o["a"], len(self.rules))], len(self.data[0].y))
            if len(got) != len(self.rules) - o["a"]:
                self.wrong(o, f"slice has {len(got)} rules")
            self.mine.append((o, got._activation, u))

    def op_df(self, o):
        ok, got = self.do(o, lambda: self.rs.to_df())
        self.shape(o)
        if ok:
            col = got["coverage"].tolist()[:len(self.rules)]
            want = [self.act(i, 0).sum() / len(self.act(i, 0)) for i in range(len(self.rules))]
            if not all(close(float(a), b) for a, b in zip(col, want)):
                self.wrong(o, f"table has coverages {col}, want {want}")

    # -- running --------------------------------------------------------------------
    def body(self, t):
        def f():
            for o in self.t["ops"]:
                if o["t"] == t:
                    self.stats.d["ops"] += 1
                    self.stats.d["checks"] += 1
                    self.stats.bump("op_kinds", o["op"])
                    getattr(self, "op_" + o["op"])(o)
        return f

    def run(self):
        over, errs = self.k.run_actors([self.body(t) for t in range(self.cfg["nthr"])])
        if over is not None:
            raise Violation("no-progress", str(over))
        for e in errs:
            if isinstance(e, Violation):
                raise e
        for e in errs:
            if e is not None:
                raise e
        self.check_cfg("after all threads ended")
        self.k.begin_op("final", None)
        with host.guest():
            for i, (a, v) in enumerate(self.vecs):
                audit(a, v, self.stats, f"shared vector {i} after all threads ended", self.prop, order=i)
            for o, a, v in self.mine:
                audit(a, v, self.stats, f"vector made by op {short_op(o)} of thread {o['t']}", self.prop, order=o["id"])
            if self.fitted:
                for i, r in enumerate(self.rules):
                    audit(r._activation, self.act(i, 0), self.stats, f"activation of rule {i} after all threads ended",
                          self.prop, views=["raw", "nones", "coverage"])
                    if not close(r.prediction, self.fit[i]["prediction"]):
                        raise Violation("rule-changed", f"rule {i} predicts {r.prediction!r}, was fitted to "
                                                        f"{self.fit[i]['prediction']!r}")
                if any(x is not y for x, y in zip(self.rs.rules, self.rules)) or len(self.rs) != len(self.rules):
                    raise Violation("rule-set-changed", "the rule set has other rules than before")
        return self.finish()


def run(trace, stats):
    return Run(trace, stats).run()
