"""World R: one process working with rules and rule sets on a simulated disk.

C07  histories of modifications of several rule sets that share rules; storage faults in any step
C08  fit, eval, predict against an independent model in every storage mode; faults followed by a retry
C10  thresholds from a file on the simulated disk; unreadable files; faults while fitting
C12  conjunctions of rules
"""
import copy
import json
import math
import random

import numpy as np
import pandas as pd

from .. import host
from ..engine import Violation
from .rulemodel import (INT_LABELS, STR_LABELS, Data, RuleRun, close, dec_rule, enc_rule, gen_cfg, gen_data, gen_fault,
                        gen_rules, spice, isnan, m_act, m_fit, m_predict, m_rule_criterion, m_set_criterion, or_all,
                        rule_key, short_op,
                        show, simplify, usable)

NONTRIVIAL = ("an execution counts as distinct when the hash over its configuration, data sets, rules, operations and "
              "the ordered file system events differs; every run performs at least one operation of the checked kind "
              "on real rules over a data set of at least 5 points")
SHAPE = "set of (operation, rule kind, storage mode, table tracked, stacked fit, failed or not) combinations reached"
REAL = ["ruleskit.rule, ruleskit.ruleset, ruleskit.condition, ruleskit.thresholds, ruleskit.activation, "
        "ruleskit.utils.rfunctions (from /repo)", "numpy", "pandas", "bitarray", "json", "io buffering"]
STUB = ["kernel file system (in memory)", "clock", "random source", "psutil.virtual_memory", "ruleskit._version"]
ASSUMPTIONS = ["rules of one rule set have distinct conditions", "targets have no missing values and are not constant",
               "in classification every fitted rule is active at one point at least and every evaluated rule set too",
               "a failed fit, eval or activation computation is repeated before its results are used",
               "one thread per process"]


def describe(trace):
    return {"cfg": trace["cfg"], "data": trace["data"], "rules": trace["rules"][:4],
            "ops": [short_op(o) for o in trace["ops"][:12]]}


# -- generation -----------------------------------------------------------------------------------------------------
def gen(rng, prop, tier):
    cfg = gen_cfg(rng)
    cfg["kind"] = rng.choice(["reg", "reg", "cls"])
    if cfg["kind"] == "cls":
        cfg["labels"] = rng.choice(INT_LABELS + STR_LABELS)
    cfg["stacked"] = rng.random() < 0.4
    cfg["xs"] = rng.choice(["np", "np", "nps", "int", "df", "dfr", "dfi", "dfx", "dfd"])
    cfg["ys"] = rng.choice(["np", "np", "np", "ser", "ser", "seri", "serd", "col", "frame"])
    cfg["fnames"] = rng.choice([None, None, ["d", "c", "b", "a"], ["b", "x y", "a", "B"]])
    cfg["sortby"] = rng.choice(["index", "index", "name"])
    cfg["dup"] = prop == "C07" and rng.random() < 0.3
    cfg["sub"] = rng.random() < 0.3
    # conditions that only know the names of their variables
    cfg["byname"] = bool(cfg["fnames"]) and prop != "C12" and cfg["xs"][:2] == "df" and rng.random() < 0.2
    if prop in ("C08", "C10") and cfg["fnames"] and rng.random() < 0.15:
        cfg["allidx"], cfg["byname"] = True, rng.random() < 0.8  # and rule sets that know the place of each name
    cfg["mem"] = rng.choice([None] * 9 + ["pairs", "refuse", "alloc"])
    many = prop == "C08" and rng.random() < 0.012
    d = 12 if not cfg["fnames"] and rng.random() < 0.1 else rng.randint(1, 4)
    d0 = gen_data(rng, cfg["kind"], d=d)
    d1 = gen_data(rng, cfg["kind"], d=d, n=d0["n"] if rng.random() < 0.3 else None)
    if "tiny" in (d0["y"], d1["y"]):
        d0["y"] = d1["y"] = "tiny"
    if max(d0["n"], d1["n"]) > 150 and cfg["short"] in (1, 3):
        cfg["short"] = 64  # millions of reads otherwise
    if many:
        d0["n"], d1["n"], d0["d"], d1["d"] = 12, 9, 4, 4
        cfg["short"], cfg["local"], cfg["narrow"] = 0, False, 0
        d = 4
    cfg["buf"] = d0["n"] == d1["n"] and rng.random() < 0.6
    data = [d0, d1]
    cfg["hor"] = rng.choice([1, 1, 1, 1, 2, 5]) if prop == "C08" and cfg["kind"] == "reg" else 1
    if prop == "C08" and cfg["kind"] == "reg" and rng.random() < 0.15:
        rng.choice(data)["ynan"] = rng.choice([0.1, 0.3, 0.6])
    n = rng.randint(270, 330) if many else rng.randint(1, 8)
    rules = spice(rng, data, gen_rules(rng, n, d, wide=0.75 if many else 0.3))
    if cfg["kind"] == "cls":
        ds = [Data(s, cfg["labels"]) for s in data]
        rules = [r for r in rules if all(m_act(r, x.X).any() for x in ds)]
        if not rules:
            rules = [{"f": [0], "lo": [-1e9], "hi": [1e9]}]
            for s in data:
                s["nan"] = s["inf"] = 0
    nr = len(rules)
    ops = {"C07": gen07, "C08": gen08, "C10": gen10, "C12": gen12}[prop](rng, tier, nr, cfg, many)
    for i, o in enumerate(ops):
        o["id"] = i
    return {"cfg": cfg, "data": data, "rules": [enc_rule(r) for r in rules], "ops": ops, "sched": []}


def gen07(rng, tier, nr, cfg, many):
    cfg["thr"] = rng.choice([None, None, 0.1, 0.3, 0.5])
    if cfg["thr"]:
        cfg["narrow"] = 0  # an empty rule set has an empty vector, which cannot be kept when all names are taken
    ops = []
    n = rng.randint(4, 14) if tier == "quick" else rng.randint(4, 30)
    ids = list(range(nr))
    ops.append({"op": "acts", "k": 0})
    for i in range(n):
        s = rng.randrange(4)
        kind = "new" if i < 2 else rng.choices(
            ["new", "append", "iadd", "add", "addrule", "slice", "sort", "setrules", "fit", "eval", "calc",
             "recompute", "query", "delact", "dup"], [10, 18, 8, 8, 4, 8, 8, 6, 9, 9, 4, 4, 4, 4, 2])[0]
        o = {"op": kind, "rs": s}
        if kind in ("new", "setrules"):
            o["ids"] = rng.sample(ids, rng.randint(0 if kind == "new" else 1, nr))
            o["stack"] = rng.random() < 0.55
            if rng.random() < 0.3:
                o["of"] = rng.randrange(4)  # the very list another rule set shows
        elif kind == "append":
            o["i"], o["plus"] = rng.choice(ids), rng.random() < 0.3
        elif kind == "addrule":
            o["i"], o["to"] = rng.choice(ids), rng.randrange(4)
        elif kind in ("iadd", "add"):
            o["b"], o["to"] = rng.randrange(4), rng.randrange(4)
        elif kind == "slice":
            o["a"], o["e"], o["st"] = rng.randint(0, 3), rng.randint(1, 8), rng.choice([1, 1, 2, -1])
            o["to"] = rng.randrange(4)
            if rng.random() < 0.4:
                o["sl"] = [rng.choice([None, None, rng.randint(-6, 6)]), rng.choice([None, None, rng.randint(-6, 6)]),
                           rng.choice([None, 1, 2, 3, -1, -2])]
        elif kind == "dup":
            o["j"], o["at"], o["twin"] = rng.randrange(8), rng.randrange(8), rng.random() < 0.5
        elif kind == "sort":
            o["by"], o["rev"] = rng.choice([None, None, "coverage", "nones"]), rng.random() < 0.3
        elif kind == "recompute":
            o["on"] = rng.choice([None, None, 0, 1])
        elif kind in ("fit", "eval", "calc"):
            o["k"], o["xs"], o["keep"] = rng.randrange(2), rng.random() < 0.7, rng.random() < 0.5
        o["fault"] = gen_fault(rng, 0.4) if kind not in ("sort",) else None
        o["look"] = rng.random() < 0.7
        ops.append(o)
    return ops


def gen08(rng, tier, nr, cfg, many):
    ops = [{"op": "build", "rs": 0, "ids": list(range(nr)), "stack": rng.random() < 0.5}]
    if nr > 2 and rng.random() < 0.5 and not many:
        ops.append({"op": "build", "rs": 1, "ids": rng.sample(range(nr), rng.randint(1, nr)),
                    "stack": rng.random() < 0.5})
    nrs = len(ops)
    if rng.random() < 0.15:
        ops.append({"op": "calc", "rs": 0, "k": 0})
        ops.append({"op": "fit", "rs": 0, "k": 0, "xs": False})
    else:
        ops.append({"op": "fit", "rs": 0, "k": 0})
    n = (rng.randint(2, 6) if tier == "quick" else rng.randint(2, 14)) if not many else 2
    for i in range(n):
        kind = rng.choices(["fit", "eval", "predict", "rfit", "reval", "rpredict", "query", "calc", "setb"],
                           [12, 26, 34, 6, 6, 10, 6, 4, 4])[0]
        o = {"op": kind, "rs": rng.randrange(nrs), "k": rng.randrange(2)}
        if kind == "fit":
            o["xs"] = rng.random() < 0.7
        if kind in ("eval", "reval", "query") and cfg["kind"] == "reg":
            o["m"] = rng.choice([None, None, None, "mse", "mae", "aae", "mse_norm", "mae_norm"])
        if kind == "eval" and cfg["kind"] == "reg":
            o["w"], o["ws"] = rng.choice([None, None, "coverage", "series"]), rng.randrange(10 ** 6)
        if kind in ("eval", "predict", "reval", "rpredict"):
            o["xs"] = rng.random() < 0.6
        if kind in ("eval", "reval"):
            o["keep"] = rng.random() < 0.3
        if kind == "predict":
            o["w"] = rng.choice([None, None, None, "coverage", "criterion", "series", "series"])
            if o["xs"] and rng.random() < 0.25:
                o["rows"] = [rng.random(), rng.choice([1, 1, 2, 3, 7])]
            o["ws"] = rng.randrange(10 ** 6)
        if kind == "rpredict" and rng.random() < 0.2:
            o["rows"] = [rng.random(), rng.choice([1, 1, 2, 3, 7])]
        if kind in ("rfit", "reval", "rpredict", "setb"):
            o["i"] = rng.randrange(nr)
        if kind == "setb":
            o.update(s=rng.randrange(10 ** 6), via=rng.choice(["rule", "cond"]), first=rng.choice(["lo", "hi"]),
                     text=rng.random() < 0.2)
        ops.append(o)
    if many:
        ops.append({"op": "predict", "rs": 0, "k": 1, "xs": True, "w": None, "ws": 0})
    for o in ops:
        o["fault"] = gen_fault(rng, 0.4) if not many else None
    return ops


THR_REG = ["coverage", "prediction", "std", "zscore", "criterion", "train_set_size"]
ARGS = {"abs": abs, "sqrt": math.sqrt, "exp": math.exp, "int": int, "log": math.log}
# what each can be applied to whatever the figures are
ARGS_OF = {"prediction": ["abs"], "zscore": ["abs", "sqrt"], "coverage": ["sqrt", "exp", "int"],
           "std": ["sqrt"], "criterion": ["sqrt"], "train_set_size": ["sqrt", "log", "int"]}
THR_CLS = ["coverage", "criterion", "train_set_size"]


def gen_limits(rng, cfg, pool):
    lim = []
    for a in rng.sample(pool, rng.randint(0, min(3, len(pool)))):
        for what in rng.sample(["min", "max", "equal", "different"], rng.choice([1, 1, 2])):
            # the limit is taken from the figures the rules have without limits: exactly one of them, just below,
            # just above, or in between
            lim.append({"a": a, "w": what, "q": rng.random(), "at": rng.choice(["on", "on", "below", "above",
                                                                              "mid"]),
                        "arg": rng.choice(ARGS_OF[a]) if rng.random() < 0.2 else None})
    if cfg["kind"] == "reg" and rng.random() < 0.1:
        a = rng.choice(["zscore", "zscore", "std"])
        lim.append({"a": a, "w": rng.choice(["min", "max"]),
                    "ref": rng.choice(["coverage", "prediction"] + (["std"] if a == "zscore" else []))})
    return lim


def gen10(rng, tier, nr, cfg, many):
    ops = []
    cfg["narrow"] = 0  # see gen07
    cfg["thrsame"] = rng.random() < 0.5  # one threshold file that is written anew
    cfg["thrown"] = rng.random() < 0.3  # limits for this kind of rules only
    pool = THR_REG if cfg["kind"] == "reg" else THR_CLS + (["prediction"] if isinstance(cfg["labels"][0], int) else [])
    for _ in range(rng.choice([1, 1, 2]) if tier == "quick" else rng.choice([1, 2, 4])):
        lim = gen_limits(rng, cfg, pool)
        ops.append({"op": "limits", "lim": lim, "state": rng.choices(["good", "missing", "broken", "cut", "dir", "none"],
                                                                    [70, 8, 8, 8, 6, 3])[0],
                    "s": rng.randrange(1000), "str": rng.random() < 0.4, "fault": gen_fault(rng, 0.25)})
        ops.append({"op": "tfit", "k": 0, "ids": rng.sample(range(nr), rng.randint(1, nr)),
                    "stack": rng.random() < 0.5, "force": rng.random() < 0.3, "fault": gen_fault(rng, 0.3)})
        if not cfg.get("allidx") and rng.random() < 0.25:  # on activations that are there already
            ops[-1]["xs"] = False
        if rng.random() < 0.6:
            if rng.random() < 0.2:
                ops.append(dict(copy.deepcopy(ops[-2]), lim=gen_limits(rng, cfg, pool)))
            ops.append({"op": "teval", "k": 1, "keep": rng.random() < 0.3, "force": rng.random() < 0.3,
                        "fault": gen_fault(rng, 0.3)})
    return ops


def gen12(rng, tier, nr, cfg, many):
    ops = []
    for i in range(nr):
        ops.append({"op": "mk", "i": i, "slot": i})
    n = rng.randint(2, 6) if tier == "quick" else rng.randint(2, 14)
    top = nr
    for _ in range(n):
        r = rng.random()
        if r < 0.7:
            ops.append({"op": "and", "a": rng.randrange(top), "b": rng.randrange(top), "slot": top})
            top += 1
        elif r < 0.8:
            ops.append({"op": "inside", "a": rng.randrange(top), "b": rng.randrange(top)})
        elif r < 0.87:
            ops.append({"op": "drop", "a": rng.randrange(top)})
        else:
            ops.append({"op": "fitand", "a": rng.randrange(top)})
        ops[-1]["look"] = rng.random() < 0.6
    for o in ops:
        o["fault"] = gen_fault(rng, 0.35)
    return ops


# -- execution ------------------------------------------------------------------------------------------------------
class M:
    """Model of one rule object."""

    def __init__(self, i):
        self.i = i
        self.k = None        # data set its activation is from
        self.fit = None      # figures it was fitted with
        self.fitk = None     # data set it was fitted on
        self.stale = False   # its bounds were changed after it was fitted
        self.crit = None     # criterion of the last evaluation: value, or None
        self.bad = False     # it was dropped from a rule set: eval leaves it alone unless forced


class S:
    """Model of one rule set."""

    def __init__(self, rs, ids, stack, k):
        self.rs, self.ids, self.stack, self.k = rs, list(ids), stack, k
        self.table = stack


class Run(RuleRun):
    def __init__(self, trace, stats):
        super().__init__(trace, stats)
        self.rules = {}
        self.models = {}
        self.bufs = {}
        self.sets = {}
        self.slots = {}
        self.limits = None
        self.cur = None

    def rule(self, i):
        if i not in self.rules:
            with host.guest():
                self.rules[i] = self.make_rule(i, self.cfg.get("fnames"))
            self.models[i] = M(i)
        return self.rules[i]

    def shape(self, o, s=None, failed=False):
        c = self.cfg
        self.stats.shapes.add(f"{o['op']}/{self.kind}/{'disk' if c['local'] else 'mem'}/{s.stack if s else ''}/"
                              f"{c['stacked']}/{failed}/{o.get('w') or o.get('by') or ''}/{o.get('xs')}/{o.get('keep')}")

    def xs(self, k):
        names = self.cfg.get("fnames")
        return self.buffer(self.data[k].xs(self.cfg["xs"], names[:self.data[k].X.shape[1]] if names else None))

    def buffer(self, x, role="x"):
        """The user may keep data in one object and change it in place from one call to the next."""
        if not self.cfg.get("buf"):
            return x
        vals = np.asarray(x)
        key = (role, type(x).__name__, vals.shape, str(vals.dtype), str(getattr(x, "name", "")),
               str(list(getattr(x, "columns", ()))), str(list(getattr(x, "index", ()))))
        b = self.bufs.setdefault(key, x)
        if b is not x:
            if isinstance(b, np.ndarray):
                b[...] = x
            elif isinstance(b, pd.Series):
                b.iloc[:] = x.values
            else:
                for j in range(b.shape[1]):
                    b.iloc[:, j] = x.iloc[:, j].values
        return b

    def fname(self, j):
        names = self.cfg.get("fnames")
        return names[j] if names else f"X_{j}"

    def ys(self, k, fit=False):
        """The targets. Evaluating regression rules takes a vector, the other calls also take a single column."""
        form = self.cfg["ys"]
        if self.kind == "reg" and not fit:
            form = {"col": "np", "frame": "ser"}.get(form, form)
        return self.buffer(self.data[k].ys(form), "y")

    def run(self):
        if self.cfg.get("thr") is not None:
            self.put_limits({"coverage": {"min": self.cfg["thr"]}})
        for o in self.t["ops"]:
            self.stats.d["ops"] += 1
            self.stats.bump("op_kinds", o["op"])
            getattr(self, "op_" + o["op"])(o)
            self.check_cfg(f"after op {short_op(o)}")
            if self.prop == "C07" and o.get("look", True):
                for s in sorted(self.sets):
                    self.check_set(s, f"after op {short_op(o)}")
        if self.prop == "C07":
            for s in sorted(self.sets):
                self.check_set(s, "at the end")
        if self.prop == "C12":
            for s in sorted(self.slots):
                self.check_conj(s, "at the end")
        return self.finish()

    # == C07 =========================================================================================================
    def put_limits(self, limits):
        p = host.TMP + "/limits.json"
        self.k.fs.poke(p, json.dumps(limits).encode())
        with host.guest():
            self.Rule.SET_THRESHOLDS(p)

    def op_acts(self, o):
        """Every rule gets its activation from data set k."""
        for i in range(len(self.specs)):
            r = self.rule(i)
            with host.guest():
                r.calc_activation(self.xs(o["k"]))
            self.models[i].k = o["k"]

    def settled(self, s):
        """All rules of the set have activations from the data set its own activation is from."""
        return s.k is not None and all(self.models[i].k == s.k for i in s.ids)

    def check_set(self, slot, where):
        s = self.sets[slot]
        rs = s.rs
        where = f"rule set {slot} {where}"
        with host.guest():
            got = list(rs.rules)
            want = [self.rules[i] for i in s.ids]
            self.stats.d["checks"] += 1
            if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
                ids = {id(r): i for i, r in self.rules.items()}
                raise Violation("members", f"{where}: contains rules {[ids.get(id(r), '?') for r in got]}, want {s.ids}")
            if len(rs) != len(want) or [id(r) for r in rs] != [id(r) for r in want] or \
                    want and not (rs[0] is want[0] and rs[-1] is want[-1]):
                raise Violation("members", f"{where}: length {len(rs)}, or going through it or taking rules out of it "
                                           f"does not give rules {s.ids}")
            if rs.stack_activation != s.stack:
                raise Violation("flag", f"{where}: stack_activation is {rs.stack_activation}, the user set {s.stack}")
            used = {}
            for i in s.ids:
                for n in self.rules[i].condition.features_names:
                    used[n] = used.get(n, 0) + 1
            count = rs.get_features_count()
            if dict(count) != used or [c for _, c in count] != sorted(used.values(), reverse=True):
                raise Violation("features-count", f"{where}: rules {s.ids} use {used}, counted {count}")
            names = list(rs.features_names)
            if len(set(names)) != len(names) or not set(used) <= set(names):
                raise Violation("features-names", f"{where}: rules {s.ids} use {sorted(used)}, listed {names}")
            if not self.settled(s) or not s.ids:
                return
            n = self.data[s.k].spec["n"]
            union = or_all([self.act(i, s.k) for i in s.ids], n)
            a = rs.activation
            self.stats.d["checks"] += 2
            if a is None or len(a) != n or not (np.asarray(a) == union).all():
                raise Violation("union", f"{where}: activation is {show(a)}, the rules {s.ids} give {show(union)}")
            if not close(rs.ruleset_coverage, union.sum() / n):
                raise Violation("coverage", f"{where}: coverage is {rs.ruleset_coverage}, want {union.sum() / n}")
            if s.stack and s.table:
                t = rs.stacked_activations
                cols = [str(self.rules[i].condition) for i in s.ids]
                self.stats.d["checks"] += 1
                if t is None or list(t.columns) != cols or len(t.index) != n:
                    raise Violation("table-columns", f"{where}: table has {None if t is None else list(t.columns)} x "
                                                     f"{None if t is None else len(t.index)}, want {cols} x {n}")
                for j, i in enumerate(s.ids):
                    if not (t.iloc[:, j].values == self.act(i, s.k)).all():
                        raise Violation("table-values", f"{where}: column of rule {i} is {show(t.iloc[:, j])}, its "
                                                        f"points are {show(self.act(i, s.k))}")

    def common_k(self, ids):
        ks = {self.models[i].k for i in ids}
        return ks.pop() if len(ks) == 1 else None

    def make_set(self, o, fn, ids, stack, to):
        """Operations that give a new rule set: on failure nothing has changed."""
        fired, out = self.call(o, fn)
        if out[0] == "err":
            if not fired:
                self.fail(o, out[1])
            self.after_failure(o)
            fired, out = self.call(o, fn, fault=False)
            if out[0] != "ok":
                self.fail(o, out[1], "when repeated after a storage fault")
        self.sets[to] = S(out[1], ids, stack, self.common_k(ids))
        self.shape(o, self.sets[to], fired)

    def after_failure(self, o):
        for s in sorted(self.sets):
            self.check_set(s, f"after op {short_op(o)} failed")

    def op_new(self, o):
        ids, rules = self.given(o)
        if self.common_k(ids) is None and (ids or self.cfg["narrow"]):
            return
        self.make_set(o, lambda: self.RuleSet(rules, stack_activation=o["stack"]), ids, o["stack"], o["rs"])
        self.not_kept(o, rules, ids)

    def given(self, o):
        """Rules handed to a constructor or an assignment: a list of our own, or the list another rule set shows."""
        b = self.sets.get(o.get("of"))
        if b is not None and b.ids:
            return list(b.ids), b.rs.rules
        return list(o["ids"]), [self.rule(i) for i in o["ids"]]

    def not_kept(self, o, rules, ids):
        """The list handed over stays the caller's: changing it does not change the rule set."""
        if self.sets.get(o.get("of")) is None or rules is not self.sets[o["of"]].rs.rules:
            del rules[:]

    def op_delact(self, o):
        """The rule set's own vector is deleted. Rules and other rule sets keep theirs."""
        s = self.sets.get(o["rs"])
        if s is None or not self.settled(s) or not s.ids:
            return
        fired, out = self.call(o, lambda: s.rs.del_activation(), fault=False)
        if out[0] != "ok":
            self.fail(o, out[1])
        s.k = None
        for i in s.ids:
            m, r = self.models[i], self.rules[i]
            with host.guest():
                if not r.activation_available or not (np.asarray(r.activation) == self.act(i, m.k)).all():
                    raise Violation("rule-lost", f"op {short_op(o)}: rule {i} lost its activation")
        self.shape(o, s)

    def grow(self, o, s, add, fn):
        fired, out = self.call(o, fn)
        if out[0] == "err":
            if not fired:
                self.fail(o, out[1])
            # nothing or everything
            with host.guest():
                done = len(s.rs.rules) == len(s.ids) + len(add)
            if done:
                s.ids += add
                if s.k is None or len(s.ids) == len(add):
                    s.k = self.common_k(s.ids)
            self.after_failure(o)
            if done:
                return
            fired, out = self.call(o, fn, fault=False)
            if out[0] != "ok":
                self.fail(o, out[1], "when repeated after a storage fault")
        s.ids += add
        s.k = self.common_k(s.ids)
        self.shape(o, s, bool(fired))

    def op_append(self, o):
        s = self.sets.get(o["rs"])
        if s is None or o["i"] in s.ids or (s.ids and not self.settled(s)) or \
                (s.ids and self.models[o["i"]].k != s.k):
            return

        def plus():
            rs = s.rs
            rs += self.rules[o["i"]]
            if rs is not s.rs:
                raise Violation("iadd-other", f"op {short_op(o)}: += gave another rule set")

        self.grow(o, s, [o["i"]], plus if o.get("plus") else lambda: s.rs.append(self.rules[o["i"]]))

    def op_iadd(self, o):
        s, b = self.sets.get(o["rs"]), self.sets.get(o["b"])
        if s is None or b is None or s is b or set(s.ids) & set(b.ids) or not b.ids or not self.settled(b) or \
                (s.ids and (not self.settled(s) or s.k != b.k)):
            return

        def fn():
            rs = s.rs
            rs += b.rs
            return rs

        self.grow(o, s, list(b.ids), fn)

    def op_add(self, o):
        s, b = self.sets.get(o["rs"]), self.sets.get(o["b"])
        if s is None or b is None:
            return
        ids = s.ids + [i for i in b.ids if i not in s.ids]
        if not ids or self.common_k(ids) is None:
            return
        fired, out = self.call(o, lambda: s.rs + b.rs)
        if out[0] == "err":
            if not fired:
                self.fail(o, out[1])
            self.after_failure(o)
            return
        self.sets[o["to"]] = S(out[1], ids, s.stack and b.stack, self.common_k(ids))
        self.shape(o, s, bool(fired))

    def op_dup(self, o):
        """If the user wants duplicates found, a list with the same rule twice is refused, and one without is not."""
        s = self.sets.get(o["rs"])
        if s is None or not s.ids or not self.cfg.get("dup"):
            return
        rules = [self.rules[i] for i in s.ids]
        r = rules[o["j"] % len(rules)]
        if o["twin"] and r.prediction is None:
            with host.guest():
                r = self.make_rule(s.ids[o["j"] % len(rules)], self.cfg.get("fnames"))
        rules.insert(o["at"] % (len(rules) + 1), r)
        fired, out = self.call(o, lambda: self.RuleSet(rules, compute_activation=False))
        self.stats.d["checks"] += 1
        if out[0] == "ok" or not fired and not isinstance(out[1], ValueError):
            raise Violation("duplicate", f"op {short_op(o)}: a list of rules {s.ids} with one of them twice gave {out[1]!r}")
        self.shape(o, s, bool(fired))

    def op_addrule(self, o):
        s = self.sets.get(o["rs"])
        if s is None or o["i"] in s.ids or self.common_k(s.ids + [o["i"]]) is None:
            return
        self.make_set(o, lambda: s.rs + self.rules[o["i"]], s.ids + [o["i"]], s.stack, o["to"])

    def op_slice(self, o):
        s = self.sets.get(o["rs"])
        if s is None:
            return
        sl = slice(o["a"], o["e"], o["st"]) if o["st"] > 0 else slice(None, None, -1)
        if o.get("sl"):
            sl = slice(*o["sl"])
        ids = s.ids[sl]
        if self.common_k(ids) is None and (ids or self.cfg["narrow"]):
            return
        self.make_set(o, lambda: s.rs[sl], ids, False, o["to"])

    def op_sort(self, o):
        s = self.sets.get(o["rs"])
        if s is None or not self.settled(s) or (s.stack and not s.table):
            return
        before = set(s.ids)
        fired, out = self.call(o, lambda: s.rs.sort(o["by"], o["rev"]))
        if out[0] != "ok":
            self.fail(o, out[1])
        got = {id(self.rules[i]): i for i in s.ids}
        with host.guest():
            order = [got.get(id(r)) for r in s.rs.rules]
        if set(order) != before or len(order) != len(s.ids):
            raise Violation("sort-members", f"op {short_op(o)}: {s.ids} became {order}")
        if o["by"]:
            c = [self.act(i, s.k).sum() for i in order]
            if c != sorted(c, reverse=o["rev"]):
                raise Violation("sort-order", f"op {short_op(o)}: order {order} has {o['by']} {c}")
        else:
            want = self.sorted_by_features(s.ids, o["rev"])
            if order != want:
                raise Violation("sort-order", f"op {short_op(o)}: {[str(self.rules[i].condition) for i in order]}, want "
                                              f"{[str(self.rules[i].condition) for i in want]}")
        s.ids = order
        self.shape(o, s)

    def sorted_by_features(self, ids, rev):
        """Number of features, then their names (optionally reversed), then the bounds."""
        key = {}
        for i in ids:
            sp = self.specs[i]
            o = sorted(range(len(sp["f"])), key=lambda p: self.fname(sp["f"][p]) if self.cfg.get("sortby") == "name"
                       else p if self.cfg.get("byname") else sp["f"][p])
            key[i] = (len(o), str([self.fname(sp["f"][p]) for p in o]),
                      [sp["lo"][p] for p in o] + [sp["hi"][p] for p in o])
        out = sorted(ids, key=lambda i: key[i][2])
        out.sort(key=lambda i: key[i][1], reverse=rev)
        out.sort(key=lambda i: key[i][0])
        return out

    def op_setrules(self, o):
        s = self.sets.get(o["rs"])
        if s is None or not s.ids:
            return
        ids, rules = self.given(o)
        if self.common_k(ids) is None:
            return

        def fn():
            s.rs.rules = rules

        fired, out = self.call(o, fn)
        if out[0] == "err":
            if not fired:
                self.fail(o, out[1])
            self.after_failure(o)
            fired, out = self.call(o, fn, fault=False)
            if out[0] != "ok":
                self.fail(o, out[1], "when repeated after a storage fault")
        s.ids, s.k, s.table = ids, self.common_k(ids), s.stack
        self.not_kept(o, rules, ids)
        self.shape(o, s, bool(fired))

    def members_after(self, o, s):
        """Rules may have been dropped because of the thresholds; the others are in the same order."""
        got = {id(self.rules[i]): i for i in s.ids}
        with host.guest():
            order = [got.get(id(r)) for r in s.rs.rules]
        it = iter(s.ids)
        if None in order or not all(any(x == y for y in it) for x in order):
            raise Violation("members-after", f"op {short_op(o)}: {s.ids} became {order}")
        if self.cfg.get("thr") is None and order != s.ids:
            raise Violation("members-after", f"op {short_op(o)}: {s.ids} became {order} without thresholds")
        for i in s.ids:
            if i not in order:
                self.models[i].bad = True
        s.ids = order

    def op_fit(self, o):
        if self.prop == "C08":
            return self.fit08(o)
        s = self.sets.get(o["rs"])
        if s is None or not s.ids or (not o["xs"] and not self.settled(s)):
            return
        k = o["k"] if o["xs"] else s.k
        ids = list(s.ids)
        if self.kind == "cls" and not self.active_somewhere(ids, k):
            return
        _, failed = self.attempt(o, lambda: s.rs.fit(self.ys(k, True), self.xs(k) if o["xs"] else None))
        if o["xs"]:
            for i in ids:
                self.models[i].k = k
                self.models[i].fit = True
            s.k = k
        elif not all(self.models[i].fit for i in ids):
            for i in ids:
                self.models[i].fit = True
        self.members_after(o, s)
        if o["xs"]:
            s.table = s.stack
        self.shape(o, s, failed)

    def active_somewhere(self, ids, k):
        return all(self.act(i, k).any() for i in ids)

    def op_eval(self, o):
        if self.prop == "C08":
            return self.eval08(o)
        s = self.sets.get(o["rs"])
        if s is None or not s.ids or not all(self.models[i].fit for i in s.ids) or not self.settled(s):
            return
        k = o["k"] if o["xs"] else s.k
        ids = list(s.ids)
        if self.kind == "cls" and not self.active_somewhere(ids, k):
            return
        _, failed = self.attempt(o, lambda: s.rs.eval(self.ys(k), self.xs(k) if o["xs"] else None,
                                                      keep_new_activations=o["keep"] and o["xs"]))
        if o["xs"] and o["keep"]:
            for i in ids:
                if self.cfg["stacked"] or not self.models[i].bad:
                    self.models[i].k = k
            s.k = k
            s.table = s.stack
        self.members_after(o, s)
        self.shape(o, s, failed)

    def op_calc(self, o):
        s = self.sets.get(o["rs"])
        if s is None or not s.ids:
            return
        _, failed = self.attempt(o, lambda: s.rs.calc_activation(self.xs(o["k"])))
        for i in s.ids:
            self.models[i].k = o["k"]
        s.k = o["k"]
        s.table = s.stack
        self.shape(o, s, failed)

    def recompute_on(self, o, s, k):
        """The rule set's own vector for other data; the rules keep theirs."""
        def fn():
            s.rs.compute_self_activation(self.xs(k))
            if s.stack:
                s.rs.compute_stacked_activation(self.xs(k))

        _, failed = self.attempt(o, fn)
        s.k, s.table = k, s.stack
        kept = {i: self.models[i].k for i in s.ids}
        for i in s.ids:  # as if they were from there too
            self.models[i].k = k
        try:
            self.check_set(o["rs"], f"after op {short_op(o)}")
        finally:
            for i in s.ids:
                self.models[i].k = kept[i]
        with host.guest():
            for i in s.ids:
                self.stats.d["checks"] += 1
                r, q = self.rules[i], self.models[i].k
                if q is not None and not (np.asarray(r.activation) == self.act(i, q)).all():
                    raise Violation("rule-changed", f"op {short_op(o)}: rule {i} is active at {show(r.activation)}, not "
                                                    f"{show(self.act(i, q))}")
        self.shape(o, s, failed)

    def op_recompute(self, o):
        s = self.sets.get(o["rs"])
        if o.get("on") is not None and s is not None and s.ids:
            return self.recompute_on(o, s, o["on"])
        if s is None or not s.ids or self.common_k(s.ids) is None:
            return

        def fn():
            s.rs.compute_self_activation()
            if s.stack:
                s.rs.compute_stacked_activation()

        _, failed = self.attempt(o, fn)
        s.k = self.common_k(s.ids)
        s.table = s.stack
        self.shape(o, s, failed)

    def op_query(self, o):
        if self.prop == "C08":
            return self.query08(o)
        s = self.sets.get(o["rs"])
        if s is None or not s.ids or not self.settled(s):
            return
        fired, out = self.call(o, lambda: (s.rs.evaluate(self.xs(1)), len(s.rs), str(s.rs), self.rules[0] in s.rs,
                                           s.rs.get_features_count(), s.rs.ruleset_coverage))
        if out[0] == "err":
            if not fired:
                self.fail(o, out[1])
            self.after_failure(o)
            return
        want = or_all([self.act(i, 1) for i in s.ids], self.data[1].spec["n"])
        with host.guest():
            if not (out[1][0].raw == want).all():
                raise Violation("evaluate", f"op {short_op(o)}: {show(out[1][0].raw)} want {show(want)}")
        if out[1][3] != (0 in s.ids):
            # two rules are the same when they look the same; conditions are distinct here
            raise Violation("contains", f"op {short_op(o)}: rule 0 in rule set {s.ids} answered {out[1][3]}")
        with host.guest():
            for i in sorted(self.rules):
                twin = self.make_rule(i, self.cfg.get("fnames"))
                like = twin.prediction is None and self.rules[i].prediction is None
                for r, want in ((self.rules[i], i in s.ids), (twin, i in s.ids and like)):
                    self.stats.d["checks"] += 1
                    if (r in s.rs) != want:
                        raise Violation("contains", f"op {short_op(o)}: {'a rule like ' if r is twin else ''}rule {i} "
                                                    f"in rule set {s.ids} answered {not want}")
            for j, t in sorted(self.sets.items()):
                want = set(t.ids) == set(s.ids)
                self.stats.d["checks"] += 1
                if (s.rs == t.rs) != want:
                    raise Violation("equal", f"op {short_op(o)}: rule sets of {s.ids} and {t.ids} are "
                                             f"{'not ' if want else ''}equal")
                if want and hash(s.rs) != hash(t.rs):
                    raise Violation("hash", f"op {short_op(o)}: equal rule sets {s.ids} and {t.ids} hash differently")

    # == C08 =========================================================================================================
    def op_build(self, o):
        fired, out = self.call(o, lambda: self.RuleSet([self.rule(i) for i in o["ids"]], compute_activation=False,
                                                       stack_activation=o["stack"]), fault=False)
        if out[0] != "ok":
            self.fail(o, out[1])
        self.sets[o["rs"]] = S(out[1], o["ids"], o["stack"], None)

    def pred_of(self, i):
        m = self.models[i]
        return m.fit["prediction"] if m.fit else None

    def check_rule(self, i, where, points=True):
        """Everything the rule says against the model."""
        m, r = self.models[i], self.rules[i]
        with host.guest():
            if m.k is not None and points:
                a = r.activation
                want = self.act(i, m.k)
                self.stats.d["checks"] += 1
                if a is None or len(a) != len(want) or not (np.asarray(a) == want).all():
                    raise Violation("rule-points", f"{where}: rule {i} ({r.condition}) is active at {show(a)}, want "
                                                   f"{show(want)}")
                for n, v in (("coverage", want.sum() / len(want)), ("nones", int(want.sum()))):
                    if not close(getattr(r, n), v):
                        raise Violation(f"rule-{n}", f"{where}: {n} of rule {i} is {getattr(r, n)}, want {v}")
            if m.fit:
                for n in ("prediction", "std", "sign", "zscore", "train_set_size"):
                    if n in m.fit:
                        self.stats.d["checks"] += 1
                        if n == "sign" and abs(m.fit["prediction"]) < 1e-9:
                            continue  # a matter of rounding
                        if not close(getattr(r, n), m.fit[n]):
                            raise Violation(f"rule-{n}", f"{where}: {n} of rule {i} ({r.condition}) is "
                                                         f"{getattr(r, n)!r}, want {m.fit[n]!r}")
            if m.crit is not None:
                self.stats.d["checks"] += 1
                if not close(r.criterion, m.crit):
                    raise Violation("rule-criterion", f"{where}: criterion of rule {i} ({r.condition}) is "
                                                      f"{r.criterion!r}, want {m.crit!r}")

    def unchanged(self, ids, where):
        for i in ids:
            self.check_rule(i, where)

    def fit08(self, o):
        s = self.sets.get(o["rs"])
        if s is None:
            return
        k = o["k"]
        if not o.get("xs", True):
            # on the activations there are, with the targets they belong to
            k = s.k
            if k is None or any(self.models[i].k != k or (self.models[i].fit and self.models[i].fitk != k) or
                                self.models[i].stale for i in s.ids):
                return  # a fitted rule is fitted again only with data
        again = not o.get("xs", True) and all(self.models[i].fit for i in s.ids)  # nothing to do
        xs, ys = self.xs(k), self.ys(k, True)
        x0, y0 = xs.copy(), ys.copy()
        dropped, failed = self.attempt(o, lambda: s.rs.fit(ys, xs if o.get("xs", True) else None, **self.hor()))
        self.same_data(o, xs, x0, ys, y0)
        if dropped:
            raise Violation("dropped", f"op {short_op(o)} dropped {dropped} without thresholds")
        for i in s.ids:
            self.models[i].k = k
            self.models[i].fit = m_fit(self.act(i, k), self.data[k].y, self.kind, self.cfg.get("hor", 1))
            self.models[i].fitk = k
            self.models[i].stale = False
        s.k = k
        self.unchanged(s.ids, f"after op {short_op(o)}{' repeated after a fault' if failed else ''}")
        union = or_all([self.act(i, k) for i in s.ids], self.data[k].spec["n"])
        self.shape(o, s, failed)
        if again:
            return
        with host.guest():
            got = s.rs.activation
            if got is None or not (got == union).all():
                raise Violation("set-points", f"op {short_op(o)}: rule set active at {show(got)}, want {show(union)}")
            if s.rs.train_set_size != self.data[k].spec["n"]:
                raise Violation("set-size", f"op {short_op(o)}: train set size {s.rs.train_set_size}")
            if not close(s.rs.ruleset_coverage, union.sum() / len(union)):
                raise Violation("set-coverage", f"op {short_op(o)}: coverage {s.rs.ruleset_coverage}, want "
                                                f"{union.sum() / len(union)}")

    def same_data(self, o, xs, x0, ys, y0):
        if type(xs) is not type(x0) or not (np.array_equal(xs, x0, equal_nan=True) if isinstance(xs, np.ndarray)
                                            else xs.equals(x0) and list(xs.columns) == list(x0.columns)) or \
                not ((np.asarray(ys) == np.asarray(y0)) | (pd.isna(np.asarray(ys)) & pd.isna(np.asarray(y0)))).all() or \
                (not isinstance(ys, np.ndarray) and list(ys.index) != list(y0.index)):
            raise Violation("data-changed", f"op {short_op(o)} changed the data it was given")

    def any_active(self, ids, k):
        return any(self.act(i, k).any() for i in ids)

    def method(self, o, k):
        """Criterion method, if it is defined for these targets."""
        m = o.get("m")
        y = self.data[k].y
        if self.data[k].spec.get("ynan"):  # the others compare with the spread of targets that are not all known
            return "mae" if m and m[:3] == "mae" else "mse"
        if m == "aae" and np.abs(y - np.median(y)).mean() == 0:
            return None
        return m

    def weights(self, o, s, k=None):
        """Weights asked for: the argument, and their values (0 for rules to ignore)."""
        w = o.get("w")
        one = [1.0] * len(s.ids)
        if not w or (self.kind == "cls" and w != "series"):
            return None, one  # a weighted vote is defined differently with and without the table
        if w == "series":
            names = [str(self.rules[i].condition) for i in s.ids]
            r = np.random.RandomState(o["ws"])
            weights = [float(x) for x in r.choice([0.5, 1.0, 2.0, 3.0, 0.0, 0.25, -1, -2], size=len(s.ids))]
            if self.kind == "cls":  # the same where the weights of the rules that count are equal
                c = r.choice([0.5, 1.0, 2.0, 0.1])
                weights = [c if x > 0 else x for x in weights]
            # 0, missing (-1) and NaN (-2): the rule does not count; the order does not matter
            arg = {n: math.nan if x == -2 else x for n, x in zip(names, weights) if x != -1}
            if r.rand() < 0.2:
                arg["somebody else"] = 5.0
            arg = {n: arg[n] for n in r.permutation(list(arg))}
            return pd.Series(arg, dtype=float), [max(x, 0.0) for x in weights]
        if w == "coverage":
            ks = [self.models[i].k if k is None else k for i in s.ids]
            if None in ks:
                return None, one
            return w, [self.act(i, q).sum() / len(self.act(i, q)) for i, q in zip(s.ids, ks)]
        if any(self.models[i].crit is None for i in s.ids):
            return None, one
        return w, [0.0 if isnan(self.models[i].crit) else self.models[i].crit for i in s.ids]

    def eval08(self, o):
        s = self.sets.get(o["rs"])
        if s is None or not all(self.models[i].fit for i in s.ids):
            return
        if not o["xs"] and (s.k is None or not all(self.models[i].k == s.k for i in s.ids)):
            return
        k = o["k"] if o["xs"] else s.k
        if not self.any_active(s.ids, k):
            return
        keep = bool(o["keep"] and o["xs"])
        if o["xs"] and not keep and self.common_k(s.ids) is None:
            return  # rules with activations from different data sets have no common union
        if self.cfg["stacked"] and not o["xs"] and s.stack and s.k != getattr(s, "tk", s.k):
            return
        xs, ys = self.xs(k), self.ys(k)
        x0, y0 = xs.copy(), ys.copy()
        acts = [self.act(i, k) for i in s.ids]
        args = {"keep_new_activations": keep}
        m = self.method(o, k)
        if m:
            args["criterion_method"] = m
        arg, weights = self.weights(o, s, k if keep else None)
        live = [j for j in range(len(acts)) if weights[j] and acts[j].any()]
        if arg is not None and not any(usable(self.pred_of(s.ids[j])) for j in live):
            arg, weights, live = None, [1.0] * len(acts), range(len(acts))
        if arg is not None:
            args["weights"] = arg
        dropped, failed = self.attempt(o, lambda: s.rs.eval(ys, xs if o["xs"] else None, **args))
        self.same_data(o, xs, x0, ys, y0)
        if dropped:
            raise Violation("dropped", f"op {short_op(o)} dropped {dropped} without thresholds")
        y = self.data[k].y
        for i in s.ids:
            m = self.models[i]
            if keep:
                m.k = k
            m.crit = m_rule_criterion(self.act(i, k), self.pred_of(i), y, self.kind, args.get("criterion_method"))
        if keep:
            s.k = k
        self.unchanged(s.ids, f"after op {short_op(o)}{' repeated after a fault' if failed else ''}")
        pred = m_predict([acts[j] for j in live], [self.pred_of(s.ids[j]) for j in live], [weights[j] for j in live],
                         self.kind, len(y))
        want = m_set_criterion(pred, or_all(acts, len(y)), y, self.kind, args.get("criterion_method"))
        with host.guest():
            self.stats.d["checks"] += 2
            if not close(s.rs.criterion, want):
                raise Violation("set-criterion", f"op {short_op(o)}: criterion of the rule set {s.rs.criterion!r}, "
                                                 f"want {want!r}")
            if s.rs.test_set_size != len(y):
                raise Violation("set-size", f"op {short_op(o)}: test set size {s.rs.test_set_size}, want {len(y)}")
        self.shape(o, s, failed)

    def op_predict(self, o):
        s = self.sets.get(o["rs"])
        if s is None or not all(self.models[i].fit for i in s.ids):
            return
        if not o["xs"] and (s.k is None or not all(self.models[i].k == s.k for i in s.ids)):
            return
        k = o["k"] if o["xs"] else s.k
        n = self.data[k].spec["n"]
        rows = slice(None)
        if o["xs"] and o.get("rows"):  # some consecutive points only
            a = int(o["rows"][0] * n)
            rows = slice(a, min(n, a + o["rows"][1]))
            n = rows.stop - a
        acts = [self.act(i, k)[rows] for i in s.ids]
        if not any(a.any() for a in acts):
            return
        names = [str(self.rules[i].condition) for i in s.ids]
        arg, weights = self.weights(o, s)
        w = arg is not None
        live = [j for j in range(len(acts)) if weights[j] and acts[j].any()]
        want = m_predict([acts[j] for j in live], [self.pred_of(s.ids[j]) for j in live], [weights[j] for j in live],
                         self.kind, n)
        xs = self.xs(k)
        xs = xs[rows] if isinstance(xs, np.ndarray) else xs.iloc[rows]
        x0 = xs.copy()
        arg0 = arg.copy() if isinstance(arg, pd.Series) else arg
        fn = lambda: s.rs.predict(xs=xs if o["xs"] else None, weights=arg)
        fired, out = self.call(o, fn)
        failed = False
        if out[0] == "err":
            if w and all(p is None for p in want) and isinstance(out[1], ValueError):
                return  # no rule with a weight is active: refusing is fine
            if not fired:
                self.fail(o, out[1])
            failed = True
            fired, out = self.call(o, fn, fault=False)
            if w and all(p is None for p in want) and isinstance(out[1], ValueError):
                return
            if out[0] != "ok":
                self.fail(o, out[1], "when repeated after a storage fault")
        got = out[1]
        self.same_data(o, xs, x0, self.data[k].y, self.data[k].y)
        if isinstance(arg, pd.Series) and not arg.equals(arg0):
            raise Violation("weights-changed", f"op {short_op(o)} changed the weights it was given")
        vals = list(got)
        self.stats.d["checks"] += 1
        if o["xs"] and list(got.index) != list(range(n)):
            raise Violation("prediction-index", f"op {short_op(o)}: predictions are labelled {list(got.index)[:8]}, not "
                                                f"with the numbers of the {n} points")
        bad = [i for i in range(n) if i >= len(vals) or not close(vals[i], want[i])]
        if len(vals) != n or bad:
            i = bad[0] if bad else n
            raise Violation("set-prediction", f"op {short_op(o)}: prediction at point {i} is "
                                              f"{vals[i] if i < len(vals) else 'absent'!r}, want "
                                              f"{want[i] if i < n else 'nothing'!r} (rules {names}, active "
                                              f"{[int(a[i]) for a in acts] if i < n else ''}, predictions "
                                              f"{[self.pred_of(i) for i in s.ids]}, weights {weights})")
        self.unchanged(s.ids, f"after op {short_op(o)}")
        with host.guest():
            if s.k is not None and s.rs._activation is not None:
                u = or_all([self.act(i, s.k) for i in s.ids], self.data[s.k].spec["n"])
                if not (s.rs.activation == u).all():
                    raise Violation("set-points", f"op {short_op(o)} changed the activation of the rule set")
        self.shape(o, s, failed)

    def touched(self, i):
        """Rule i was changed on its own: the rule sets it is in no longer know its activation."""
        for s in self.sets.values():
            if i in s.ids:
                s.k = None

    def hor(self):
        h = self.cfg.get("hor", 1)
        return {"horizon": h} if h != 1 else {}

    def op_rfit(self, o):
        i, k = o["i"], o["k"]
        r = self.rule(i)
        xs, ys = self.xs(k), self.ys(k, True)
        x0, y0 = xs.copy(), ys.copy()
        _, failed = self.attempt(o, lambda: r.fit(ys, xs, **self.hor()))
        self.same_data(o, xs, x0, ys, y0)
        m = self.models[i]
        m.k, m.fit, m.fitk, m.stale = k, m_fit(self.act(i, k), self.data[k].y, self.kind, self.cfg.get("hor", 1)), k, False
        self.touched(i)
        self.check_rule(i, f"after op {short_op(o)}")
        self.shape(o, None, failed)

    def op_setb(self, o):
        """Other bounds for a rule. It has to be fitted again."""
        i = o["i"]
        r = self.rule(i)
        rng = random.Random(o["s"])
        old = self.specs[i]
        new = {"f": old["f"], "lo": [rng.choice([v for x in self.specs for v in x["lo"]]) for _ in old["f"]],
               "hi": [rng.choice([v for x in self.specs for v in x["hi"]]) for _ in old["f"]]}
        if any(rule_key(new) == rule_key(x) for x in self.specs):
            return
        if self.kind == "cls" and not all(m_act(new, d.X).any() for d in self.data):
            return
        with host.guest():
            pos = [[self.fname(j) for j in old["f"]].index(n) for n in r.condition.features_names]
        vals = {k: [new[k][p] for p in pos] for k in ("lo", "hi")}
        if o["text"] and all(math.isfinite(v) for k in vals for v in vals[k]):
            vals = {k: str(v) for k, v in vals.items()}

        def fn():
            c = r if o["via"] == "rule" else r.condition
            for k in ("lo", "hi") if o["first"] == "lo" else ("hi", "lo"):
                setattr(c, {"lo": "bmins", "hi": "bmaxs"}[k], vals[k])

        self.attempt(o, fn)
        self.specs[i] = new
        for k in range(len(self.data)):
            self._acts.pop((i, k), None)
        m = self.models[i]
        m.stale = bool(m.fit) or m.stale
        m.k = m.fit = m.crit = None
        self.touched(i)
        with host.guest():
            got = np.asarray(r.evaluate_activation(self.xs(o["k"])).raw)
        self.stats.d["checks"] += 1
        if not (got == self.act(i, o["k"])).all():
            raise Violation("bounds-not-set", f"op {short_op(o)}: rule {i} ({r.condition}) is active at {show(got)}, want "
                                              f"{show(self.act(i, o['k']))} with bounds {new}")
        self.shape(o, None)

    def op_reval(self, o):
        i = o["i"]
        self.rule(i)
        m = self.models[i]
        if not m.fit or m.k is None:
            return
        k = o["k"] if o["xs"] else m.k
        keep = bool(o["keep"] and o["xs"])
        xs, ys = self.xs(k), self.ys(k)
        args = {"recompute_activation": keep}
        if self.method(o, k):
            args["criterion_method"] = self.method(o, k)
        _, failed = self.attempt(o, lambda: self.rules[i].eval(ys, xs if o["xs"] else None, **args))
        if keep:
            m.k = k
            self.touched(i)
        m.crit = m_rule_criterion(self.act(i, k), self.pred_of(i), self.data[k].y, self.kind,
                                  args.get("criterion_method"))
        self.check_rule(i, f"after op {short_op(o)}")
        self.shape(o, None, failed)

    def op_rpredict(self, o):
        i = o["i"]
        self.rule(i)
        m = self.models[i]
        if not m.fit or m.k is None:
            return
        k = o["k"] if o["xs"] else m.k
        xs, a = self.xs(k), self.act(i, k)
        if o["xs"] and o.get("rows"):
            lo = int(o["rows"][0] * len(a))
            rows = slice(lo, min(len(a), lo + o["rows"][1]))
            xs, a = xs[rows] if isinstance(xs, np.ndarray) else xs.iloc[rows], a[rows]
        got, failed = self.attempt(o, lambda: self.rules[i].predict(xs if o["xs"] else None))
        p = self.pred_of(i)
        vals = np.asarray(got).reshape(-1).tolist()
        self.stats.d["checks"] += 1
        if o["xs"] and isinstance(xs, pd.DataFrame) and \
                not (isinstance(got, pd.Series) and list(got.index) == list(xs.index)):
            raise Violation("prediction-index", f"op {short_op(o)}: predictions for a frame are {str(got)[:60]!r}, not a "
                                                f"series with the index of the frame")
        if len(vals) != len(a):
            raise Violation("rule-prediction-length", f"op {short_op(o)}: {len(vals)} predictions for {len(a)} points")
        for j in range(len(a)):
            v = vals[j] if j < len(vals) else "absent"
            ok = close(v, p) if a[j] else (isnan(v) or v == "nan")
            if not ok:
                raise Violation("rule-prediction-vector", f"op {short_op(o)}: rule {i} predicts {v!r} at point {j}, "
                                                          f"active there: {bool(a[j])}, prediction {p!r}")
        self.check_rule(i, f"after op {short_op(o)}")
        self.shape(o, None, failed)

    def query08(self, o):
        """Questions that must not change anything."""
        s = self.sets.get(o["rs"])
        if s is None:
            return

        def fn():
            for i in s.ids:
                r = self.rules[i]
                repr(r), str(r), hash(r), len(r), r.condition, r.good
                if self.models[i].k is not None:
                    r.coverage, r.ones, r.entropy, r.activation_available
            len(s.rs), str(s.rs)

        self.attempt(o, fn)
        self.unchanged(s.ids, f"after op {short_op(o)}")
        k = o["k"]
        acts = [self.act(i, k) for i in s.ids]
        if not s.ids or not all(a.any() for a in acts):
            return
        y, m = self.data[k].y, self.method(o, k)
        args = {"criterion_method": m} if m else {}

        def figures():
            rs = s.rs
            t = rs.evaluate_stacked_activations(xs=self.xs(k))
            out = {"prediction": rs.calc_predictions(y.copy(), stacked_activations=t)}
            p = out["prediction"]
            if self.kind == "reg":
                out["std"] = rs.calc_stds(y.copy(), stacked_activations=t)
                out["sign"] = rs.calc_signs(p)
                out["zscore"] = rs.calc_zscores(y.copy(), predictions=p, nones=t.sum())
            out["criterion"] = rs.calc_criterions(y.copy(), predictions=p, stacked_activations=t, **args)
            out["train_set_size"] = rs.calc_train_set_sizes(y.copy())
            return out

        got, failed = self.attempt(o, figures)
        for i, a in zip(s.ids, acts):
            want = m_fit(a, y, self.kind)
            want["criterion"] = m_rule_criterion(a, want["prediction"], y, self.kind, m)
            name = str(self.rules[i].condition)
            for f in got:
                self.stats.d["checks"] += 1
                if f == "sign" and abs(want["prediction"]) < 1e-9:
                    continue
                if not close(got[f].get(name), want[f]):
                    raise Violation(f"figures-{f}", f"op {short_op(o)}: {f} of {name} computed for data set {k} is "
                                                    f"{got[f].get(name)!r}, want {want[f]!r}")
        self.unchanged(s.ids, f"after op {short_op(o)}")
        self.shape(o, s, failed)

    # == C10 =========================================================================================================
    @property
    def limited(self):
        return self.RuleT if self.cfg.get("thrown") else self.Rule

    def figures(self, ids, stacked, stack):
        """Figures the rules have when nothing limits them, from the code under test itself (checked by C08)."""
        with host.guest():
            old = self.limited.THRESHOLDS
            self.limited.SET_THRESHOLDS(None)
            try:
                rules = {i: self.make_rule(i, self.cfg.get("fnames")) for i in ids}
                rs = self.RuleSet(list(rules.values()), compute_activation=False, stack_activation=stack)
                rs.fit(self.ys(0, True), self.xs(0))
                out = {i: {"coverage": r.coverage, "prediction": r.prediction, "train_set_size": r.train_set_size}
                       for i, r in rules.items()}
                if self.kind == "reg":
                    for i, r in rules.items():
                        out[i].update(std=r.std, zscore=r.zscore)
                if any(self.act(i, 1).any() for i in ids):
                    rs.eval(self.ys(1), self.xs(1))
                    for i, r in rules.items():
                        out[i]["criterion"] = r.criterion
            finally:
                self.limited.THRESHOLDS = old
        return out

    def op_limits(self, o):
        """A threshold file and an attempt to load it."""
        ids = list(range(len(self.specs)))
        if not self.any_active(ids, 1) and self.kind == "cls":
            return
        figs = self.figures(ids, self.cfg["stacked"], False)
        lim = {}
        for l in o["lim"]:
            if "ref" in l:
                lim.setdefault(l["a"], {})[l["w"]] = l["ref"]
                continue
            vals = sorted({float(f[l["a"]]) for f in figs.values()
                           if f.get(l["a"]) is not None and not isinstance(f[l["a"]], str)
                           and math.isfinite(float(f[l["a"]]))})
            arg = l.get("arg")
            if arg:
                vals = sorted({ARGS[arg](v) for v in vals})
            if not vals:
                continue
            v = vals[int(l["q"] * len(vals))]
            if l["at"] == "below":
                v = float(np.nextafter(v, -math.inf))
            elif l["at"] == "above":
                v = float(np.nextafter(v, math.inf))
            elif l["at"] == "mid":
                v += 0.01
            e = lim.setdefault(l["a"], {})
            e[l["w"]] = v
            if arg:
                e["arg"] = arg
        text = json.dumps(lim).encode()
        p = host.TMP + ("/thr.json" if self.cfg.get("thrsame") else f"/thr_{o['id']}.json")
        self.k.fs.forget(p)
        st = o["state"]
        if st in ("good", "broken", "cut"):
            if st == "broken":
                text = b"{'coverage': " + text
            elif st == "cut":
                text = text[:max(1, int(len(text) * (o["s"] / 1000)))]
                try:
                    json.loads(text)
                    st = "good"
                    lim = json.loads(text)
                except ValueError:
                    pass
            self.k.fs.poke(p, text)
        elif st == "dir":
            self.k.fs.mkdirs(p)
        from pathlib import Path
        q = None if st == "none" else p if o["str"] else Path(p)
        fired, out = self.call(o, lambda: self.limited.SET_THRESHOLDS(q))
        if out[0] == "err":
            if not fired and st in ("good", "missing", "dir", "none"):
                self.fail(o, out[1])
            self.stats.d["checks"] += 1
            if fired and st == "good" and o["s"] % 2:
                fired, out = self.call(o, lambda: self.limited.SET_THRESHOLDS(q), fault=False)
                if out[0] != "ok":
                    self.fail(o, out[1], "when repeated after a storage fault")
            else:
                return  # the limits in force stay in force
        elif st in ("broken", "cut"):
            raise Violation("broken-accepted", f"op {short_op(o)}: a threshold file holding {text[:80]!r} was accepted")
        if st in ("missing", "dir", "none"):
            self.limits = {}
        else:
            self.limits = copy.deepcopy(lim)
            c = self.limits.setdefault("coverage", {})
            c.setdefault("min", 0.05)

    def passes(self, fig, names):
        """Model: does a rule with these figures satisfy every limit on the figures named?"""
        bad = []
        for a, l in (self.limits or {}).items():
            if a not in names:
                continue
            v = fig.get(a)
            if v is None:
                continue  # not judged; NaN is not below, not above and not equal to anything
            if l.get("arg"):
                v = ARGS[l["arg"]](v)
            for w, x in l.items():
                if w == "arg":
                    continue
                if isinstance(x, str):
                    x = fig[x]
                if w == "min" and v < x or w == "max" and v > x or w == "equal" and v != x or \
                        w == "different" and v == x:
                    bad.append(a)
        return bad

    def fig_of(self, i, k, crit=False):
        f = self.figs[i]
        return {a: v for a, v in f.items() if a != "criterion" or crit}

    def op_tfit(self, o):
        ids = o["ids"]
        self.cur = None
        if self.kind == "cls" and not self.any_active(ids, 1):
            return
        self.figs = self.figures(ids, self.cfg["stacked"], o["stack"])
        with host.guest():
            rules = {i: self.make_rule(i, self.cfg.get("fnames")) for i in ids}
            for r in rules.values() if not o.get("xs", True) else ():
                r.calc_activation(self.xs(0))
            rs = self.RuleSet(list(rules.values()), compute_activation=not o.get("xs", True),
                              stack_activation=o["stack"])
        dropped, failed = self.attempt(o, lambda: rs.fit(self.ys(0, True), self.xs(0) if o.get("xs", True) else None,
                                                         force_if_not_good=o["force"]))
        names = {"coverage", "prediction", "std", "zscore", "train_set_size"}
        bad = {i: self.passes(self.fig_of(i, 0), names) for i in ids}
        keep = [i for i in ids if not bad[i]]
        self.compare_kept(o, rs, rules, ids, keep, bad, dropped, 0, failed)
        self.cur = (rs, rules, keep, o["stack"])
        self.shape(o, None, failed)

    def compare_kept(self, o, rs, rules, ids, keep, bad, dropped, k, failed):
        name = {id(r): i for i, r in rules.items()}
        got = [name.get(id(r)) for r in rs.rules]
        out = [name.get(id(r)) for r in dropped]
        self.stats.d["checks"] += 3
        why = {i: {a: self.figs[i].get(a) for a in (self.limits or {})} for i in ids}
        if got != keep:
            raise Violation("kept", f"op {short_op(o)}: rules {got} were kept, want {keep}; limits {self.limits}, "
                                    f"figures {why}")
        # a call that failed may have dropped them already: what its repetition hands over is then less
        if out != [i for i in ids if i not in keep] and not (failed and set(out) <= set(ids) - set(keep)):
            raise Violation("handed-over", f"op {short_op(o)}: rules {out} were handed over as bad, want "
                                           f"{[i for i in ids if i not in keep]}; limits {self.limits}, figures {why}")
        with host.guest():
            for i in ids:
                r = rules[i]
                if r.good != (i in keep) or (i not in keep and r.bad_because not in bad[i]):
                    raise Violation("good-flag", f"op {short_op(o)}: rule {i} says good={r.good} because "
                                                 f"{r.bad_because}, it misses {bad[i]}; limits {self.limits}")
            if keep:
                n = self.data[k].spec["n"]
                u = or_all([self.act(i, k) for i in keep], n)
                if rs.activation is None or len(rs.activation) != n or not (rs.activation == u).all():
                    raise Violation("union-after-drop", f"op {short_op(o)}: rule set is active at "
                                                        f"{show(rs.activation)}, want {show(u)}")

    def op_teval(self, o):
        if self.cur is None:
            return
        rs, rules, keep, stack = self.cur
        if not keep or not self.any_active(keep, 1):
            return
        dropped, failed = self.attempt(o, lambda: rs.eval(self.ys(1), self.xs(1), keep_new_activations=o["keep"],
                                                          force_if_not_good=o["force"]))
        names = {"coverage", "prediction", "std", "zscore", "train_set_size", "criterion"}
        bad = {}
        for i in keep:
            f = self.fig_of(i, 1, crit=True)
            if o["keep"]:
                f["coverage"] = int(self.act(i, 1).sum()) / self.data[1].spec["n"]
            bad[i] = self.passes(f, names)
        left = [i for i in keep if not bad[i]]
        self.compare_kept(o, rs, rules, keep, left, bad, dropped, 1 if o["keep"] else 0, failed)
        self.cur = None
        self.shape(o, None, failed)

    # == C12 =========================================================================================================
    def op_mk(self, o):
        i = o["i"]
        r = self.rule(i)
        self.attempt(o, lambda: r.calc_activation(self.xs(0)))
        self.slots[o["slot"]] = (r, self.specs[i], self.act(i, 0))

    def m_and(self, a, b):
        f, lo, hi = list(a["f"]), list(a["lo"]), list(a["hi"])
        for j, l, h in zip(b["f"], b["lo"], b["hi"]):
            if j in f:
                p = f.index(j)
                lo[p], hi[p] = max(lo[p], l), min(hi[p], h)
            else:
                f.append(j)
                lo.append(l)
                hi.append(h)
        return {"f": f, "lo": lo, "hi": hi}

    def check_conj(self, slot, where):
        r, spec, act = self.slots[slot]
        where = f"rule {slot} {where}"
        with host.guest():
            self.stats.d["checks"] += 3
            a = r.activation
            if a is None or len(a) != len(act) or not (np.asarray(a) == act).all():
                raise Violation("conj-points", f"{where}: active at {show(a)}, want {show(act)}")
            e = r.condition.evaluate(self.xs(0))
            if not (np.asarray(e) == act).all():
                raise Violation("conj-condition", f"{where}: condition {r.condition} holds at {show(e)}, want "
                                                  f"{show(act)}")
            e = r.condition.evaluate(self.xs(1))
            w = m_act(spec, self.data[1].X)
            if not (np.asarray(e) == w).all():
                raise Violation("conj-condition", f"{where}: condition {r.condition} holds on new data at {show(e)}, "
                                                  f"want {show(w)}")
            c = r.condition
            got = sorted(zip(c.features_indexes, c.features_names, map(float, c.bmins), map(float, c.bmaxs)))
            want = sorted(zip(spec["f"], [self.fname(j) for j in spec["f"]], map(float, spec["lo"]), map(float, spec["hi"])))
            if got != want:
                raise Violation("conj-bounds", f"{where}: condition is {got}, want {want}")
            if not close(r.coverage, act.sum() / len(act)):
                raise Violation("conj-coverage", f"{where}: coverage {r.coverage}, want {act.sum() / len(act)}")

    def op_and(self, o):
        if o["a"] not in self.slots or o["b"] not in self.slots:
            return
        (ra, sa, va), (rb, sb, vb) = self.slots[o["a"]], self.slots[o["b"]]
        got, failed = self.attempt(o, lambda: ra & rb)
        if type(got) is not self.RuleT:
            raise Violation("conj-type", f"op {short_op(o)} returned {type(got)}")
        self.slots[o["slot"]] = (got, self.m_and(sa, sb), va & vb)
        if o.get("look", True):
            self.check_conj(o["slot"], f"made by op {short_op(o)}")
            self.check_conj(o["a"], f"(first operand) after op {short_op(o)}")
            self.check_conj(o["b"], f"(second operand) after op {short_op(o)}")
        self.shape(o, None, failed)

    def op_inside(self, o):
        if o["a"] not in self.slots or o["b"] not in self.slots:
            return
        (ra, sa, va), (rb, sb, vb) = self.slots[o["a"]], self.slots[o["b"]]
        got, failed = self.attempt(o, lambda: rb in ra)
        want = bool(((va & vb) == vb).all())
        self.stats.d["checks"] += 1
        if bool(got) != want:
            raise Violation("conj-contains", f"op {short_op(o)}: rule active at {show(vb)} in rule active at "
                                             f"{show(va)} answered {got}")
        self.shape(o, None, failed)

    def op_drop(self, o):
        """The vector of one rule is deleted. All others keep theirs."""
        if o["a"] not in self.slots:
            return
        r = self.slots.pop(o["a"])[0]
        fired, out = self.call(o, lambda: r.del_activation(), fault=False)
        if out[0] != "ok":
            self.fail(o, out[1])
        for s in sorted(self.slots):
            if self.slots[s][0] is not r:
                self.check_conj(s, f"after op {short_op(o)}")
        self.shape(o)

    def op_fitand(self, o):
        if o["a"] not in self.slots:
            return
        r, spec, act = self.slots[o["a"]]
        if self.kind == "cls" and not act.any():
            return
        # fitting with the activation it already has
        if getattr(r, "_fitted", False):
            return
        _, failed = self.attempt(o, lambda: r.fit(self.ys(0, True)))
        f = m_fit(act, self.data[0].y, self.kind)
        with host.guest():
            for n in ("prediction", "std", "zscore", "coverage"):
                if n in f and not close(getattr(r, n), f[n]):
                    raise Violation(f"conj-{n}", f"op {short_op(o)}: {n} is {getattr(r, n)!r}, want {f[n]!r}")
        self.shape(o, None, failed)


def run(trace, stats):
    return Run(trace, stats).run()
