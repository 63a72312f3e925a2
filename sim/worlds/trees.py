"""World T: rules extracted from decision trees, then fitted, evaluated and asked on a simulated disk.

C13  the extracted rules are the branches of the tree, wherever their vectors are stored and whatever fails in between
"""
import copy
import random

import numpy as np
import pandas as pd
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor

from .. import host
from ..engine import Violation
from .rulemodel import (INT_LABELS, STR_LABELS, RuleRun, close, gen_cfg, gen_data, gen_fault, m_act, m_fit, m_predict,
                        or_all, short_op, show, simplify as simplify_rules)

NONTRIVIAL = ("an execution counts as distinct when the hash over its configuration, data sets, operations and the "
              "ordered file system events differs; every run extracts rules from at least one real fitted tree")
SHAPE = "set of (operation, tree kind, storage mode, leaves only, table tracked, stacked fit, failed or not) reached"
REAL = ["ruleskit.utils.rule_utils, ruleskit.rule, ruleskit.ruleset, ruleskit.condition, ruleskit.activation, "
        "ruleskit.utils.rfunctions (from /repo)", "scikit-learn trees", "numpy", "pandas", "bitarray", "io buffering"]
STUB = ["kernel file system (in memory)", "clock", "random source", "psutil.virtual_memory", "ruleskit._version"]
ASSUMPTIONS = ["the data have no missing values and are exact in single precision, which is what trees use",
               "the minima and maxima given are those of the training data or wider",
               "a failed fit or activation computation is repeated before its results are used",
               "one thread per process"]


def describe(trace):
    return {"cfg": trace["cfg"], "data": trace["data"], "ops": [short_op(o) for o in trace["ops"][:12]]}


def gen(rng, prop, tier):
    cfg = gen_cfg(rng)
    cfg["kind"] = rng.choice(["reg", "reg", "cls"])
    if cfg["kind"] == "cls":
        cfg["labels"] = rng.choice(INT_LABELS + STR_LABELS)
    cfg["stacked"] = rng.random() < 0.4
    cfg["xs"] = rng.choice(["np", "np", "df", "dfr", "dfi"])
    cfg["ys"] = rng.choice(["np", "np", "ser", "seri"])
    cfg["fnames"] = rng.choice([None, None, ["d", "c", "b", "a"], ["b", "x y", "a", "B"]])
    cfg["sortby"] = rng.choice(["index", "index", "name"])
    cfg["mem"] = rng.choice([None] * 9 + ["pairs", "refuse", "alloc"])
    d = rng.randint(1, 4)
    data = [gen_data(rng, cfg["kind"], d=d) for _ in range(2)]
    if "tiny" in (data[0]["y"], data[1]["y"]):
        data[0]["y"] = data[1]["y"] = "tiny"
    s, b = rng.choice([(1, 0), (1, 0), (0.25, 0), (1, -5), (64, 1024)])
    for x in data:
        x["n"] = min(x["n"], 130)  # trees of full depth have a rule for nearly every point
        x["nan"] = x["inf"] = 0
        x["scale"], x["shift"] = s, b
    ops = []
    n = rng.randint(2, 8) if tier == "quick" else rng.randint(3, 16)
    for i in range(n):
        slot = rng.randrange(3)
        kind = "extract" if not ops else rng.choices(["extract", "fit", "calc", "predict"], [5, 6, 3, 8])[0]
        o = {"op": kind, "slot": slot}
        if kind == "extract":
            o.update(leaf=rng.random() < 0.5, stack=rng.random() < 0.4, act=rng.random() < 0.7,
                     depth=rng.choice([1, 2, 3, 3, 4, 6, None]), min=rng.choice([1, 1, 1, 2, 4]),
                     split=rng.choice(["best", "best", "random"]), s=rng.randrange(1000),
                     leaves=rng.choice([None, None, None, 3, 5, 9]),
                     cls=rng.random() < 0.6, wide=rng.choice([0, 0, 0, 3]), lst=rng.random() < 0.3)
        elif kind == "predict":
            o.update(k=rng.choice([0, 0, 1]), xs=rng.random() < 0.8)
        else:
            o["k"] = 0 if kind == "fit" else rng.choice([0, 0, 1])
        if kind != "extract":
            o["fault"] = gen_fault(rng, 0.4)
        o["id"] = i
        ops.append(o)
    return {"cfg": cfg, "data": data, "ops": ops, "sched": []}


class T:
    """An extracted rule set and what it has to be."""

    def __init__(self, rs, tree, specs, preds, leaf, stack):
        self.rs, self.tree, self.specs, self.preds, self.leaf, self.stack = rs, tree, specs, preds, leaf, stack
        self.rules = list(rs.rules)
        self.fit = None      # model figures once it is fitted
        self.k = None        # data set of its activations


def branches(t, xmins, xmaxs, leaf):
    """(bounds by feature, node) of every branch, depth first, left before right; or of every leaf."""
    out = []

    def walk(node, bounds):
        if t.children_left[node] < 0:
            if leaf and bounds:
                out.append((bounds, node))
            return
        f, thr = int(t.feature[node]), float(t.threshold[node])
        lo, hi = bounds.get(f, (float(xmins[f]), float(xmaxs[f])))
        for child, b in ((t.children_left[node], (lo, min(hi, thr))), (t.children_right[node], (max(lo, thr), hi))):
            nb = dict(bounds)
            nb[f] = b
            if not leaf:
                out.append((nb, child))
            walk(child, nb)

    walk(0, {})
    return out


class Run(RuleRun):
    def __init__(self, trace, stats):
        super().__init__(trace, stats)
        self.slots = {}
        self.extract = self.im.modules["ruleskit.utils.rule_utils"].extract_rules_from_tree

    def names(self):
        d = self.data[0].X.shape[1]
        names = self.cfg.get("fnames")
        return list(names[:d]) if names else [f"X_{i}" for i in range(d)]

    def xs(self, k):
        return self.data[k].xs(self.cfg["xs"], self.names())

    def shape(self, o, t, failed=False):
        self.stats.shapes.add(f"{o['op']}/{self.kind}/{'disk' if self.cfg['local'] else 'mem'}/{t.leaf}/{t.stack}/"
                              f"{self.cfg['stacked']}/{failed}")

    def run(self):
        for o in self.t["ops"]:
            self.stats.d["ops"] += 1
            self.stats.bump("op_kinds", o["op"])
            getattr(self, "op_" + o["op"])(o)
            self.check_cfg(f"after op {short_op(o)}")
        return self.finish()

    def op_extract(self, o):
        X, y = self.data[0].X, self.data[0].y
        how = dict(random_state=o["s"], max_depth=o["depth"], min_samples_leaf=o["min"], splitter=o["split"],
                   max_leaf_nodes=o["leaves"])
        if self.kind == "reg":
            tree = DecisionTreeRegressor(**how)
            tree.fit(X, y)
            classes = None
        else:
            tree = DecisionTreeClassifier(**how)
            tree.fit(X, y.astype(str) if isinstance(y[0], str) else y)
            classes = [str(c) if isinstance(y[0], str) else int(c) for c in tree.classes_] if o["cls"] else None
        t = tree.tree_
        before = (t.feature.copy(), t.threshold.copy(), t.value.copy(), t.children_left.copy())
        xmins, xmaxs = X.min(axis=0) - o["wide"], X.max(axis=0) + o["wide"]
        if o["lst"]:
            xmins, xmaxs = xmins.tolist(), xmaxs.tolist()
        args = {"xmins": xmins, "xmaxs": xmaxs, "features_names": self.names() if self.cfg.get("fnames") else None,
                "classes_names": classes, "get_leaf": o["leaf"], "compute_activation": o["act"],
                "stack_activation": o["stack"]}
        kept = copy.deepcopy(args)
        rs, _ = self.attempt(o, lambda: self.extract(tree, **args))
        after = (t.feature, t.threshold, t.value, t.children_left)
        if not all(np.array_equal(a, b) for a, b in zip(before, after)) or \
                any(np.asarray(args[k] != kept[k]).any() for k in args):
            raise Violation("arguments-changed", f"op {short_op(o)} changed the tree or its arguments")
        want = branches(t, xmins, xmaxs, o["leaf"])
        names = self.names()
        with host.guest():
            got = []
            for r in rs:
                c = r.condition
                if len(c.features_indexes) != len(set(c.features_indexes)) or \
                        [names[i] for i in c.features_indexes] != list(c.features_names):
                    raise Violation("variables", f"op {short_op(o)}: rule {c} talks about {list(c.features_indexes)} "
                                                 f"named {list(c.features_names)}")
                got.append({int(f): (float(a), float(b)) for f, a, b in zip(c.features_indexes, c.bmins, c.bmaxs)})
            self.stats.d["checks"] += 1 + len(got)
            if got != [b for b, _ in want]:
                j = next((j for j in range(min(len(got), len(want))) if got[j] != want[j][0]), min(len(got), len(want)))
                raise Violation("branches", f"op {short_op(o)}: {len(got)} rules for {len(want)} branches; rule {j} is "
                                            f"{got[j] if j < len(got) else None}, want "
                                            f"{want[j][0] if j < len(want) else None}")
            preds = []
            for r, (_, node) in zip(rs, want):
                v = t.value[node][0]
                if self.kind == "reg":
                    p = float(v[0])
                else:
                    i = int(np.argmax(v))
                    p = classes[i] if classes else i
                preds.append(p)
                self.stats.d["checks"] += 1
                if not close(r.prediction, p):
                    raise Violation("prediction", f"op {short_op(o)}: rule {r.condition} predicts {r.prediction!r}, the "
                                                  f"tree {p!r} there")
        specs = [{"f": list(b), "lo": [x[0] for x in b.values()], "hi": [x[1] for x in b.values()]} for b, _ in want]
        s = self.slots[o["slot"]] = T(rs, tree, specs, preds, o["leaf"], o["stack"])
        s.named = classes is not None
        # the model itself against the tree: who reaches which node
        path = tree.decision_path(X.astype(np.float32)).toarray()
        for sp, (_, node) in zip(specs, want):
            if not (m_act(sp, X) == path[:, node]).all():
                raise AssertionError(f"model and tree disagree at node {node}: {sp}")
        self.shape(o, s)

    def acts(self, s, k):
        return [m_act(sp, self.data[k].X) for sp in s.specs]

    def members(self, o, s):
        with host.guest():
            got = list(s.rs.rules)
        self.stats.d["checks"] += 1
        if len(got) != len(s.rules) or any(a is not b for a, b in zip(got, s.rules)):
            raise Violation("members", f"op {short_op(o)}: the rule set has {len(got)} rules, not the {len(s.rules)} "
                                       f"extracted ones")

    def points(self, o, s):
        acts = self.acts(s, s.k)
        with host.guest():
            for r, a in zip(s.rules, acts):
                self.stats.d["checks"] += 1
                g = r.activation
                if g is None or len(g) != len(a) or not (np.asarray(g) == a).all():
                    raise Violation("points", f"op {short_op(o)}: rule {r.condition} is active at {show(g)}, want {show(a)}")
            u = or_all(acts, len(self.data[s.k].X))
            g = s.rs.activation
            if g is None or not (np.asarray(g) == u).all():
                raise Violation("union", f"op {short_op(o)}: the rule set is active at {show(g)}, want {show(u)}")

    def op_calc(self, o):
        s = self.slots.get(o["slot"])
        if s is None or not s.rules:
            return
        _, failed = self.attempt(o, lambda: s.rs.calc_activation(self.xs(o["k"])))
        s.k = o["k"]
        self.members(o, s)
        self.points(o, s)
        self.shape(o, s, failed)

    def op_fit(self, o):
        s = self.slots.get(o["slot"])
        if s is None or not s.rules:
            return
        bad, failed = self.attempt(o, lambda: s.rs.fit(self.data[0].ys(self.cfg["ys"]), self.xs(0)))
        if bad:
            raise Violation("dropped", f"op {short_op(o)} dropped {len(bad)} rules without thresholds")
        s.k = 0
        self.members(o, s)
        self.points(o, s)
        s.fit = [m_fit(a, self.data[0].y, self.kind) for a in self.acts(s, 0)]
        with host.guest():
            for r, f in zip(s.rules, s.fit):
                for n in ("prediction", "coverage"):
                    self.stats.d["checks"] += 1
                    if not close(getattr(r, n), f[n]):
                        raise Violation(f"fitted-{n}", f"op {short_op(o)}: {n} of {r.condition} is {getattr(r, n)!r}, "
                                                       f"want {f[n]!r}")
        self.shape(o, s, failed)

    def op_predict(self, o):
        s = self.slots.get(o["slot"])
        if s is None or not s.rules or (not o["xs"] and s.k is None):
            return
        k = o["k"] if o["xs"] else s.k
        n = len(self.data[k].X)
        acts = self.acts(s, k)
        if not any(a.any() for a in acts):
            return
        preds = [f["prediction"] for f in s.fit] if s.fit else s.preds
        live = [j for j in range(len(acts)) if acts[j].any()]
        want = m_predict([acts[j] for j in live], [preds[j] for j in live], [1.0] * len(live), self.kind, n)
        got, failed = self.attempt(o, lambda: s.rs.predict(xs=self.xs(k) if o["xs"] else None))
        vals = list(got)
        self.stats.d["checks"] += n
        for i in range(max(n, len(vals))):
            if i >= n or i >= len(vals) or not close(vals[i], want[i]):
                raise Violation("set-prediction", f"op {short_op(o)}: prediction at point {i} of {n} is "
                                                  f"{vals[i] if i < len(vals) else 'absent'!r}, want "
                                                  f"{want[i] if i < n else 'nothing'!r}")
        if s.leaf and k == 0 and (self.kind == "reg" or (s.named and not s.fit)):
            tree = s.tree.predict(self.data[0].X)
            for i in range(n):
                w = tree[i]
                if not close(vals[i], str(w) if isinstance(w, str) else w):
                    raise Violation("not-the-tree", f"op {short_op(o)}: the leaves predict {vals[i]!r} at point {i}, the "
                                                    f"tree {w!r}")
        self.members(o, s)
        self.shape(o, s, failed)


def run(trace, stats):
    return Run(trace, stats).run()


def simplify(trace):
    yield from simplify_rules(trace)
    for i, o in enumerate(trace["ops"]):
        if o["op"] == "extract":
            for k, v in (("depth", 1), ("depth", 2), ("depth", 3), ("stack", False), ("wide", 0), ("lst", False),
                         ("split", "best"), ("leaves", None)):
                if o[k] != v and not (k == "depth" and o[k] is not None and o[k] < v):
                    c = copy.deepcopy(trace)
                    c["ops"][i][k] = v
                    yield c
