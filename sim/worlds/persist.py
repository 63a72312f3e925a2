"""World F: rule sets saved to and loaded from files on the simulated disk, by one process after another or by several
processes at the same time.

C09  what is loaded is what was saved; a failed or interrupted save leaves the old file or the new one, complete
"""
import copy
import json
import math
import os
from pathlib import Path

import numpy as np

from .. import host
from ..engine import Violation
from ..fs import SimCrash
from ..kernel import NoProgress
from .rulemodel import (INT_LABELS, STR_LABELS, RuleRun, Data, dec_rule, enc_rule, gen_cfg, gen_data, gen_fault, gen_rules, spice,
                        close, isnan, m_act, short_op)
from .rulemodel import simplify as simplify_rules

NONTRIVIAL = ("an execution counts as distinct when the hash over its configuration, data sets, rules, operations, the "
              "ordered file system events and the context switches differs; every run saves at least one fitted rule "
              "set and loads at least one file")
SHAPE = "set of (operation, rule kind, one or several processes, target exists or not, failed, killed or not) reached"
REAL = ["ruleskit.ruleset, ruleskit.rule, ruleskit.condition, ruleskit.activation, ruleskit.utils.rfunctions (from "
        "/repo)", "pandas to_csv / read_csv", "numpy", "bitarray", "io buffering and text encoding"]
STUB = ["kernel file system (in memory)", "process scheduling (seeded, switches at every file system call)", "clock",
        "random source", "ruleskit._version"]
ASSUMPTIONS = ["data handed to write() survives the death of the process, replacing a file by rename is atomic; power "
               "loss is not modelled",
               "class labels are text without carriage returns, not 'nan', or integers",
               "rule sets have at least one rule and were fitted through the rule set",
               "paths are local files"]

NAMES = [None, None, ["a", "b", "c", "d"], ["x y", "it's", 'q"q', "é"], ["a,b", "nan", "None", "1"],
         ["inf", "[0]", "line\nbreak", "Unnamed: 0"], ["ruleset coverage", "prediction", "", "z" * 60]]
LABELS = INT_LABELS + STR_LABELS + [["1", "0"], ["None", "NA", "null"], ["", "a"], ["low, risk", 'say "hi"'],
                                    ["a\nb", "c"], ["inf", "-inf"], ["[1]", "{}"], ["'q'", "q"], ["3.0", "3"],
                                    ["True", "False"], [" a", "a "], ["to inf", "#"], ["{[]: 1}", "1+2j"]]
PIECES = ["nan", "inf", "to inf", "None", "NA", "banana", "1", "0.5", "e5", "-", "+", "_", ".", ",", ";", ":", "'", '"', "\\",
          "\n", "\t", " ", "[", "]", "(", ")", "{", "}", "#", "=", "%", "a", "B", "é", "日", "True", "null", "j", "0x1f"]
DIR = "/simfs/save"
PATHS = [DIR + "/rules.csv", DIR + "/my rules", DIR + "/sub/rules.csv", DIR + "/a.b.txt"]
DECOYS = {DIR + "/keep.csv": b"a,b\n1,2\n", DIR + "/sub/other": b"\x00\x01", DIR + "/.rules.csv": b"hidden"}


def describe(trace):
    return {"cfg": trace["cfg"], "data": trace["data"], "rules": trace["rules"][:3],
            "ops": [short_op(o) for o in trace["ops"][:10]], "preemptions": trace["sched"][:6]}


def gen_texts(rng, n):
    """n different texts put together from pieces that mean something to one parser or another"""
    out = []
    while len(out) < n:
        t = "".join(rng.choice(PIECES) for _ in range(rng.choice([1, 1, 2, 2, 3])))
        if t != "nan" and t not in out:
            out.append(t)
    return out


# -- generation -----------------------------------------------------------------------------------------------------
def gen(rng, prop, tier):
    cfg = gen_cfg(rng)
    cfg["narrow"] = 0
    cfg["kind"] = rng.choice(["reg", "reg", "cls"])
    if cfg["kind"] == "cls":
        cfg["labels"] = rng.choice(LABELS) if rng.random() < 0.7 else gen_texts(rng, rng.randint(2, 4))
    cfg["stacked"] = rng.random() < 0.4
    cfg["xs"] = rng.choice(["np", "np", "df"])
    cfg["ys"] = "np"
    cfg["names"] = rng.choice(NAMES) if rng.random() < 0.75 else gen_texts(rng, 4)
    cfg["short"] = rng.choice([0, 0, 0, 1, 7, 64, 700])
    cfg["nproc"] = rng.choice([1, 1, 1, 2, 2, 3])
    d = 12 if not cfg["names"] and rng.random() < 0.15 else rng.randint(1, 4)
    data = [gen_data(rng, cfg["kind"], d=d, n=rng.choice([5, 6, 8, 10, 13, 17, rng.randint(5, 50)] * 4 + [rng.randint(200, 700)])) for _ in range(2)]
    rules = spice(rng, data, gen_rules(rng, rng.randint(1, 6) if rng.random() < 0.85 else rng.randint(9, 14), d))
    if cfg["kind"] == "cls":
        ds = [Data(s, cfg["labels"]) for s in data]
        rules = [r for r in rules if all(m_act(r, x.X).any() for x in ds)]
        if not rules:
            rules = [{"f": [0], "lo": [-1e9], "hi": [1e9]}]
            for s in data:
                s["nan"] = s["inf"] = 0
    nr = len(rules)
    np_ = cfg["nproc"]

    def mk(p, slot):
        return {"op": "mk", "p": p, "slot": slot, "ids": rng.sample(range(nr), rng.randint(1, nr)),
                "stack": rng.random() < 0.4, "k": rng.randrange(2), "ev": rng.random() < 0.7,
                "dl": rng.random() < 0.15}

    ops = []
    if np_ == 1:
        ops.append(mk(0, 0))
        n = rng.randint(3, 9) if tier == "quick" else rng.randint(3, 20)
        for i in range(n):
            k = "save" if i == 0 else rng.choices(["save", "load", "mk", "die"], [40, 40, 14, 6])[0]
            if k == "mk":
                ops.append(mk(0, rng.randrange(3)))
                continue
            o = {"op": k, "p": 0, "slot": rng.randrange(3) if i else 0, "path": rng.choice([0, 0, 1, 2, 3])}
            if i and rng.random() < 0.7:
                o["slot"] = 0
            o["str"] = rng.random() < 0.5
            if k == "load":
                o["fresh"], o["over"], o["stack"] = rng.random() < 0.6, rng.random() < 0.3, rng.random() < 0.2
                o["fault"] = gen_fault(rng, 0.35)
            elif k == "save":
                o["fault"] = gen_fault(rng, 0.5, crash=True)
                if o["fault"] and o["fault"]["kind"] != "crash":
                    o["fault"]["at"] = rng.choice([0, 0, 1, 2, 3, 5, 8])
            ops.append(o)
    else:
        for p in range(np_):
            for s in range(rng.choice([1, 2])):
                ops.append(mk(p, s))
        np2 = rng.choice([1, 1, 2])
        for _ in range(rng.randint(3, 4 * np_)):
            p = rng.randrange(np_)
            k = rng.choice(["save", "save", "load", "load", "mk"])
            if k == "mk":
                ops.append(mk(p, rng.randrange(2)))
                continue
            o = {"op": k, "p": p, "slot": rng.randrange(2), "path": rng.randrange(np2), "str": rng.random() < 0.5}
            if k == "save":
                o["fault"] = gen_fault(rng, 0.25, crash=True)
            else:
                o.update(fresh=False, over=rng.random() < 0.3, stack=False, fault=gen_fault(rng, 0.15))
            ops.append(o)
    for i, o in enumerate(ops):
        o["id"] = i
    sched = []
    if np_ > 1:
        sl = [o for o in ops if o["op"] != "mk"]
        for _ in range(rng.choice([1, 2, 4, 8, 12]) if sl else 0):
            o = rng.choice(sl)
            sched.append({"a": o["p"], "op": o["id"], "n": rng.randint(0, 14), "to": rng.randrange(np_)})
    return {"cfg": cfg, "data": data, "rules": [enc_rule(r) for r in rules], "ops": ops, "sched": sched}


def simplify(trace):
    yield from simplify_rules(trace)
    if trace["cfg"].get("names"):
        c = copy.deepcopy(trace)
        c["cfg"]["names"] = None
        yield c
    for i, o in enumerate(trace["ops"]):
        if o["op"] == "mk":
            if len(o["ids"]) > 1:
                for j in range(len(o["ids"])):
                    c = copy.deepcopy(trace)
                    del c["ops"][i]["ids"][j]
                    yield c
            for k in ("stack", "ev", "dl"):
                if o[k]:
                    c = copy.deepcopy(trace)
                    c["ops"][i][k] = False
                    yield c
    for i, s in enumerate(trace["sched"]):
        if s["n"] > 0:
            c = copy.deepcopy(trace)
            c["sched"][i]["n"] -= 1
            yield c


# -- what a rule set says -----------------------------------------------------------------------------------------------
RULE_FIGS = {"reg": ["prediction", "coverage", "zscore", "criterion", "std", "sign"],
             "cls": ["prediction", "coverage", "criterion"]}


def val(x):
    if isnan(x):
        return None
    if isinstance(x, np.generic):
        return x.item()
    return x


def snap(rs, kind):
    out = []
    for r in rs.rules:
        c = r.condition
        out.append({"type": type(r).__name__, "features_names": list(c.features_names),
                    "features_indexes": [int(i) for i in c.features_indexes], "bmins": [val(x) for x in c.bmins],
                    "bmaxs": [val(x) for x in c.bmaxs], "_sizes": [val(r.train_set_size), val(r.test_set_size)], **{n: val(getattr(r, n)) for n in RULE_FIGS[kind]}})
    return {"rules": out, "coverage": val(rs.ruleset_coverage), "criterion": val(rs.criterion),
            "train_set_size": val(rs.train_set_size), "test_set_size": val(rs.test_set_size)}


def same(a, b, loaded=False):
    """None when equal, else where they differ. The rules of a loaded rule set have its sizes."""
    if len(a["rules"]) != len(b["rules"]):
        return f"{len(a['rules'])} rules instead of {len(b['rules'])}"
    for i, (x, y) in enumerate(zip(a["rules"], b["rules"])):
        if loaded and x["_sizes"] != [b["train_set_size"], b["test_set_size"]]:
            return f"set sizes of rule {i} are {x['_sizes']} instead of the rule set's"
        for n in y:
            if n != "_sizes" and not eq(x[n], y[n]):
                return f"{n} of rule {i} is {x[n]!r} instead of {y[n]!r}"
    for n in ("coverage", "criterion", "train_set_size", "test_set_size"):
        if not eq(a[n], b[n]):
            return f"{n} of the rule set is {a[n]!r} instead of {b[n]!r}"
    return None


def near(a, b):
    """Averages of many rules taken in another order differ by rounding."""
    return isinstance(a, float) and isinstance(b, float) and close(a, b, 1e-12)


def eq(x, y):
    if isinstance(x, str) != isinstance(y, str):
        return False
    return x == y


class Slot:
    def __init__(self, rs, snap, pred):
        self.rs, self.snap, self.pred = rs, snap, pred
        self.bytes = None


class Proc:
    def __init__(self, p, im):
        self.p, self.im = p, im
        self.slots = {}
        self.crash_op = None


class Run(RuleRun):
    def __init__(self, trace, stats):
        super().__init__(trace, stats, sched=trace["sched"])
        self.k.h.update(json.dumps(trace["sched"]).encode())
        self.k.fs.mkdirs(DIR + "/sub")
        for p, b in DECOYS.items():
            self.k.fs.poke(p, b)
        # path -> versions: list of dicts {snap, pred, begin, end (None: unknown or not finished), bytes}
        self.hist = {p: [] for p in PATHS}
        self.tick = 0
        self.procs = []
        n = self.cfg["nproc"]
        for p in range(n):
            self.procs.append(self.new_proc(p))

    def new_proc(self, p):
        self.fresh_image(self.cfg["rng"] + p)
        return Proc(p, self.im)

    def now(self):
        self.tick += 1
        return self.tick

    def mods(self, im):
        return im.modules["ruleskit.ruleset"].RuleSet

    def xs_of(self, k):
        return self.data[k].xs(self.cfg["xs"], self.cfg["names"][:self.data[k].X.shape[1]] if self.cfg["names"] else None)

    # -- operations ---------------------------------------------------------------
    def op_mk(self, pr, o):
        """A fitted rule set (no faults here)."""
        im = pr.im
        C = im.modules["ruleskit.condition"].HyperrectangleCondition
        T = getattr(im.modules["ruleskit.rule"], "RegressionRule" if self.kind == "reg" else "ClassificationRule")
        names = self.cfg["names"]
        self.k.begin_op(f"mk{o['id']}", None)
        with host.guest():
            rules = []
            for i in o["ids"]:
                s = self.specs[i]
                rules.append(T(C(list(s["f"]), bmins=list(s["lo"]), bmaxs=list(s["hi"]),
                                 features_names=[names[j] for j in s["f"]] if names else None)))
            rs = self.mods(im)(rules, compute_activation=False, stack_activation=o["stack"])
            k = o["k"]
            rs.fit(self.data[k].y, self.xs_of(k))
            k2 = 1 - k
            if o["ev"] and any(m_act(self.specs[i], self.data[k2].X).any() for i in o["ids"]):
                rs.eval(self.data[k2].y, self.xs_of(k2))
            s = snap(rs, self.kind)
            pred = self.predict(rs, o["ids"])
            if o["dl"]:
                rs.del_activations()
        pr.slots[o["slot"]] = Slot(rs, s, pred)

    def predict(self, rs, ids):
        if self.t["index"] % 2 or not any(m_act(self.specs[i], self.data[1].X).any() for i in ids):
            return None
        return ids, [val(v) for v in rs.predict(xs=self.xs_of(1))]

    def others(self, path):
        t = self.k.fs.tree()
        return {p: b for p, b in t.items() if b is not None and (p in PATHS or p in DECOYS)}

    def path(self, o):
        p = PATHS[o["path"]]
        return p if o["str"] else Path(p)

    def raw(self, p):
        try:
            return self.k.fs.peek(p)
        except OSError:
            return None

    def op_save(self, pr, o):
        s = pr.slots.get(o["slot"])
        if s is None:
            return
        p = PATHS[o["path"]]
        solo = self.cfg["nproc"] == 1
        before = self.others(p) if solo else None
        existed = self.raw(p) is not None
        v = {"snap": s.snap, "pred": s.pred, "begin": self.now(), "end": None, "by": o["id"], "bytes": s.bytes,
             "state": "running"}
        self.hist[p].append(v)
        fired, out = self.call(o, lambda: s.rs.save(self.path(o)))
        v["fired"] = fired
        self.stats.d["checks"] += 1
        where = f"op {short_op(o)}"
        self.stats.shapes.add(f"save/{self.kind}/{self.cfg['nproc']}/{existed}/{bool(fired)}/{out[0]}")
        if out[0] == "ok":
            v["end"], v["state"] = self.now(), "done"
            if solo:
                b = self.raw(p)
                if b is None:
                    raise Violation("not-saved", f"{where} returned but there is no file")
                if s.bytes is not None and b != s.bytes:
                    raise Violation("saved-differently", f"{where}: the same rule set was written as {b[:300]!r}... and "
                                                         f"before as {s.bytes[:300]!r}...")
                s.bytes = b
                v["bytes"] = b
                self.check_file(p, v, f"after {where}")
        elif out[0] == "err":
            if not fired:
                self.fail(o, out[1])
            v["end"], v["state"] = self.now(), "failed"
            if solo and self.raw(p) != before.get(p):
                # a save may fail after the new file is in place, but then it is complete
                self.maybe_new(p, v, f"after {where} failed with {type(out[1]).__name__}")
        else:
            v["state"] = "killed"
            self.stats.d["crashes"] += 1
            if solo:
                if self.raw(p) != before.get(p):
                    self.maybe_new(p, v, f"after the process was killed in {where}")
                self.restart(pr)
        if solo:
            after = self.others(p)
            for q in before:
                if q != p and after.get(q) != before[q]:
                    raise Violation("other-file", f"{where} changed or removed {q}")
            if out[0] != "ok" and before.get(p) is not None and self.raw(p) is None:
                raise Violation("lost", f"{where}: the file saved before is gone")
            with host.guest():
                if pr.slots.get(o["slot"]) is s:
                    d = same(snap(s.rs, self.kind), s.snap)
                    if d:
                        raise Violation("save-changed-rules", f"{where}: {d}")

    def maybe_new(self, p, v, where):
        self.check_file(p, v, where)
        v["end"], v["state"] = self.now(), "done"

    def check_file(self, p, v, where):
        """A new process loads the file without faults and finds version v."""
        im = host.Image(77, 0)
        self.k.begin_op("check", None)
        with host.guest():
            rs = self.mods(im)()
            try:
                rs.load(p)
            except Exception as e:
                raise Violation("unreadable", f"{where} the file can not be loaded: {type(e).__name__}: {e}")
            d = same(snap(rs, self.kind), v["snap"], True)
        if d:
            raise Violation("loaded-differently", f"{where} the file loads with {d}")

    def restart(self, pr):
        self.k.actors[0].dead = False
        self.procs[pr.p] = self.new_proc(pr.p)

    def op_die(self, pr, o):
        """The process ends, another one goes on."""
        self.procs[pr.p] = self.new_proc(pr.p)

    def op_load(self, pr, o):
        p = PATHS[o["path"]]
        solo = self.cfg["nproc"] == 1
        im = host.Image(self.cfg["rng"] + 5000 + o["id"], 0) if o["fresh"] else pr.im
        old = pr.slots.get(o["slot"]) if o["over"] and not o["fresh"] else None
        with host.guest():
            rs = old.rs if old else self.mods(im)(stack_activation=o["stack"])
        begin = self.now()
        was = self.raw(p)
        fired, out = self.call(o, lambda: rs.load(self.path(o)))
        end = self.now()
        where = f"op {short_op(o)}"
        self.stats.d["checks"] += 1
        vs = self.versions(p, begin)
        self.stats.shapes.add(f"load/{self.kind}/{self.cfg['nproc']}/{was is not None}/{bool(fired)}/{out[0]}/{old is not None}")
        if out[0] == "err":
            if not fired and not any(v is None for v in vs):
                raise Violation(f"load-fails:{type(out[1]).__name__}",
                                f"{where} raised {type(out[1]).__name__}: {out[1]} although nothing failed and a rule "
                                f"set was saved there")
            if not isinstance(out[1], OSError) and not fired:
                raise Violation("load-error", f"{where} raised {type(out[1]).__name__}: {out[1]} for a missing file")
            if old is not None:
                with host.guest():
                    d = same(snap(old.rs, self.kind), old.snap)
                if d:
                    raise Violation("load-changed-rules", f"{where} failed and {d}")
            return
        with host.guest():
            got = snap(rs, self.kind)
        ok = None
        diffs = []
        for v in vs:
            if v is None:
                continue
            d = same(got, v["snap"], True)
            if d is None:
                ok = v
                break
            diffs.append(d)
        if ok is None:
            raise Violation("loaded-differently", f"{where} gave {'; or '.join(diffs[:3]) or 'rules from nowhere'}")
        if ok["pred"] is not None:
            with host.guest():
                pred = [val(x) for x in rs.predict(xs=self.xs_of(1))]
            self.stats.d["checks"] += 1
            if len(pred) != len(ok["pred"][1]) or not all(eq(a, b) or near(a, b) for a, b in zip(pred, ok["pred"][1])):
                raise Violation("predicts-differently", f"{where}: the loaded rule set predicts {pred[:20]}, the saved "
                                                        f"one {ok['pred'][1][:20]}")
        s = Slot(rs, got, ok["pred"])
        if solo:
            s.bytes = was
        if not o["fresh"]:
            pr.slots[o["slot"]] = s
        elif solo and o["id"] % 2:
            # the other process goes on from here
            pr.im = im
            self.im = im
            pr.slots = {o["slot"]: s}

    def versions(self, p, begin):
        """What a load that began then may find. A save by another process may take effect at any moment between its
        beginning and its end, a killed or failed one also never."""
        h = self.hist[p]
        done = [v for v in h if v["state"] == "done" and v["end"] < begin]
        out = []
        # a version is superseded if some finished save began after it was over and ended before the load began
        for v in h:
            if v["end"] is not None and any(w is not v and w["begin"] > v["end"] for w in done):
                continue
            if v["state"] == "failed" and not v["fired"]:
                continue
            out.append(v)
        if not done:
            out.append(None)
        return out

    # -- running --------------------------------------------------------------------
    def run(self):
        if self.cfg["nproc"] == 1:
            for o in self.t["ops"]:
                self.stats.d["ops"] += 1
                self.stats.bump("op_kinds", o["op"])
                getattr(self, "op_" + o["op"])(self.procs[0], o)
        else:
            per = [[] for _ in self.procs]
            for o in self.t["ops"]:
                if o["p"] < len(per):
                    per[o["p"]].append(o)
            over, errs = self.k.run_actors([self.body(pr, ops) for pr, ops in zip(self.procs, per)])
            if over is not None:
                raise Violation("no-progress", str(over))
            for e in errs:
                if isinstance(e, Violation):
                    raise e
            for e in errs:
                if e is not None:
                    raise e
            self.final()
        for p, b in DECOYS.items():
            if self.raw(p) != b:
                raise Violation("other-file", f"{p} was changed or removed")
        return self.finish()

    def body(self, pr, ops):
        def f():
            for o in ops:
                self.stats.d["ops"] += 1
                self.stats.bump("op_kinds", o["op"])
                getattr(self, "op_" + o["op"])(pr, o)
                if self.k.me.dead:
                    return
        return f

    def final(self):
        """When all processes are gone: every path holds one of the versions that may be there."""
        t = self.now()
        for p in PATHS:
            if self.raw(p) is None:
                if any(v is None for v in self.versions(p, t)):
                    continue
                raise Violation("lost", f"nothing is at {p} although a rule set was saved there")
            im = host.Image(78, 0)
            self.k.begin_op("final", None)
            with host.guest():
                rs = self.mods(im)()
                try:
                    rs.load(p)
                except Exception as e:
                    raise Violation("unreadable", f"at the end {p} can not be loaded: {type(e).__name__}: {e}")
                got = snap(rs, self.kind)
            ds = [same(got, v["snap"], True) for v in self.versions(p, t) if v is not None]
            self.stats.d["checks"] += 1
            if not any(d is None for d in ds):
                raise Violation("loaded-differently", f"at the end {p} loads with {'; or '.join(map(str, ds[:3]))}")


def run(trace, stats):
    return Run(trace, stats).run()
