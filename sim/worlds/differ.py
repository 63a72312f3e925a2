"""World D: the same program executed several times in environments that differ only in what must not matter.

C11  the outputs of a program are the same whatever the hash randomisation of the interpreter, the clock, the random
     state, the directory order, files of earlier processes, the number of processors and the reported memory are

Every trace is a program. It is executed here in environment A, here again in environment C (other clock with jumps,
other random state, other directory order, leftover vector files, other reported memory and processor number), and in
a sibling interpreter that has another hash seed (environment B). The complete recorded outputs are compared.
"""
import copy
import json
import math
import os
import re
import subprocess
import sys

import numpy as np
import pandas as pd

from .. import engine, host
from ..engine import Violation
from .common import gen_vec, make_vec
from .rulemodel import (INT_LABELS, STR_LABELS, RuleRun, Data, enc_rule, gen_cfg, gen_data, gen_rules, spice, m_act, short_op)
from .rulemodel import simplify as simplify_rules

NONTRIVIAL = ("an execution counts as distinct when the hash over its configuration, data, rules, operations and the "
              "ordered file system events of environment A differs; every run executes the program in three "
              "environments and compares everything observed after each operation")
SHAPE = "set of (operation, rule kind, storage mode, outcome) combinations reached"
REAL = ["all of ruleskit (from /repo) in three executions, one of them in another interpreter with another hash seed",
        "numpy", "pandas", "bitarray", "scikit-learn trees", "io buffering"]
STUB = ["kernel file system (in memory)", "clock", "random source", "psutil.virtual_memory", "ruleskit._version"]
ASSUMPTIONS = ["hash values, timings, sizes in memory and names of vector files are not outputs",
               "floating point figures are compared to 1e-9",
               "the reported memory always suffices for two vectors",
               "two hash seeds per worker, sixteen in all"]

NAMES = [None, None, ["a", "b", "c", "d"], ["d", "c", "b", "a"], ["x y", "it's", "é", "Z"],
         ["age", "income", "Age", "zip code"]]


def describe(trace):
    return {"cfg": trace["cfg"], "data": trace["data"], "rules": trace["rules"][:4],
            "ops": [short_op(o) for o in trace["ops"][:12]]}


# -- generation -----------------------------------------------------------------------------------------------------
def gen(rng, prop, tier):
    cfg = gen_cfg(rng)
    cfg["narrow"] = 0
    cfg["fs"] = False
    cfg["kind"] = rng.choice(["reg", "reg", "cls"])
    if cfg["kind"] == "cls":
        cfg["labels"] = rng.choice(INT_LABELS + STR_LABELS)
    cfg["stacked"] = rng.random() < 0.4
    cfg["xs"] = rng.choice(["np", "np", "df"])
    cfg["ys"] = rng.choice(["np", "np", "ser"])
    cfg["names"] = rng.choice(NAMES)
    cfg["afi"] = bool(cfg["names"]) and rng.random() < 0.1
    d = rng.randint(1, 4) if rng.random() < 0.3 else 4
    if not cfg["names"] and rng.random() < 0.15:
        d = 12
    data = [gen_data(rng, cfg["kind"], d=d, n=rng.choice([5, 8, 13, 24, rng.randint(5, 50)] * 5 + [rng.randint(200, 700)])) for _ in range(2)]
    rules = spice(rng, data, gen_rules(rng, rng.randint(2, 9), d))
    if cfg["kind"] == "cls":
        ds = [Data(s, cfg["labels"]) for s in data]
        rules = [r for r in rules if all(m_act(r, x.X).any() for x in ds)]
        if not rules:
            rules = [{"f": [0], "lo": [-1e9], "hi": [1e9]}]
            for s in data:
                s["nan"] = s["inf"] = 0
    nr = len(rules)
    ids = list(range(nr))
    ops = [{"op": "new", "rs": 0, "ids": rng.sample(ids, nr), "stack": rng.random() < 0.4, "ca": False},
           {"op": "fit", "rs": 0, "k": 0}]
    n = rng.randint(4, 12) if tier == "quick" else rng.randint(4, 24)
    for i in range(n):
        kind = rng.choices(
            ["new", "append", "iadd", "add", "addrule", "slice", "sort", "setrules", "fit", "eval", "calc", "predict",
             "feats", "df", "save", "load", "conj", "rule", "tree", "vecs", "limits", "ask", "del"],
            [6, 6, 6, 9, 3, 5, 12, 4, 6, 6, 3, 9, 5, 4, 6, 6, 4, 5, 5, 8, 3, 4, 1])[0]
        o = {"op": kind, "rs": rng.choice([0, 0, 0, 1, 2])}
        if kind in ("new", "setrules"):
            o["ids"] = rng.sample(ids, rng.randint(1, nr))
            o["stack"], o["ca"] = rng.random() < 0.4, rng.random() < 0.6
        elif kind in ("append", "addrule", "rule"):
            o["i"], o["to"] = rng.choice(ids), rng.randrange(3)
            o["k"] = rng.randrange(2)
        elif kind in ("iadd", "add"):
            o["b"], o["to"] = rng.randrange(3), rng.randrange(3)
        elif kind == "conj":
            o["i"], o["j"], o["app"] = rng.choice(ids), rng.choice(ids), rng.random() < 0.5
        elif kind == "slice":
            o["a"], o["e"], o["st"] = rng.randint(0, 2), rng.randint(2, 9), rng.choice([1, 1, 2, -1])
            o["to"] = rng.randrange(3)
        elif kind == "sort":
            o["by"] = rng.choice([None, None, None, "coverage", "criterion", "prediction", "nones", "zscore"])
            o["rev"] = rng.random() < 0.3
        elif kind in ("fit", "eval", "calc", "predict"):
            o["k"], o["xs"], o["keep"] = rng.randrange(2), rng.random() < 0.7, rng.random() < 0.4
            o["w"] = rng.choice([None, None, "coverage", "criterion"])
        elif kind in ("save", "load"):
            o["path"] = 0 if rng.random() < 0.8 else 1
        elif kind == "tree":
            o.update(k=rng.randrange(2), depth=rng.randint(1, 4), leaf=rng.random() < 0.5, to=rng.randrange(3),
                     ca=rng.random() < 0.5, stack=rng.random() < 0.3)
        elif kind == "vecs":
            m = rng.choice([5, 8, 64, 100, 257])
            o["v"] = [gen_vec(rng, m) for _ in range(rng.randint(2, 6))]
            o["f"], o["arr"] = rng.choice(["and", "or", "xor"]), rng.random() < 0.3
        elif kind == "limits":
            o["lim"] = rng.choice([{"coverage": {"min": 0.2}}, {"coverage": {"min": 0.0, "max": 0.6}}, {},
                                   {"criterion": {"max": 1.0}, "coverage": {"min": 0}}])
        ops.append(o)
    for i, o in enumerate(ops):
        o["id"] = i
    envs = {"A": gen_env(rng), "B": gen_env(rng), "C": gen_env(rng)}
    return {"cfg": cfg, "data": data, "rules": [enc_rule(r) for r in rules], "ops": ops, "sched": [], "envs": envs}


def gen_env(rng):
    return {"rng": rng.randrange(10 ** 6), "clock": rng.choice([0.0, 1.0, 1.6e9, 4.1e9, 1.6e9 + 0.5]),
            "jump": rng.choice([0, 0, -3600, 86400]), "dir": rng.randrange(5),
            "mem": rng.choice([None, None, {"avail": 1e9, "drop": 4.5e8}, {"avail": 1e9, "drop": 3e8},
                               {"avail": 2e6, "drop": 0}, {"avail": 6e5, "drop": 2.9e5}]),
            "ncpus": rng.choice([1, 2, 8]), "junk": rng.choice([0, 0, 3])}


def simplify(trace):
    for e in ("A", "B", "C"):
        base = {"rng": 1, "clock": 1.6e9, "jump": 0, "dir": 0, "mem": None, "ncpus": 1, "junk": 0}
        for k, v in base.items():
            if trace["envs"][e][k] != v:
                c = copy.deepcopy(trace)
                c["envs"][e][k] = v
                yield c
    yield from simplify_rules(trace)
    for i, o in enumerate(trace["ops"]):
        if len(o.get("ids", ())) > 1:
            for j in range(len(o["ids"])):
                c = copy.deepcopy(trace)
                del c["ops"][i]["ids"][j]
                yield c
    if trace["cfg"].get("names"):
        c = copy.deepcopy(trace)
        c["cfg"]["names"] = None
        c["cfg"]["afi"] = False
        yield c


# -- observation ----------------------------------------------------------------------------------------------------
def obs(x):
    if x is None or isinstance(x, (bool, int, str)):
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, bytes):
        return x.decode("utf-8", "replace")
    if isinstance(x, np.ndarray):
        return [obs(v) for v in x.tolist()]
    if isinstance(x, pd.DataFrame):
        return {"columns": obs(list(x.columns)), "index": obs(list(x.index)), "values": obs(x.values)}
    if isinstance(x, pd.Series):
        return {"index": obs(list(x.index)), "values": obs(x.values)}
    if isinstance(x, (set, frozenset)):
        return {"set": sorted((json.dumps(obs(v)) for v in x))}
    if isinstance(x, dict):
        return [[obs(k), obs(v)] for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [obs(v) for v in x]
    if hasattr(x, "raw"):
        return obs(x.raw)
    return str(x)


NUM = re.compile(r"[-+]?(?:\d+\.\d*|\.\d+|\d+)(?:[eE][-+]?\d+)?")


def differ(a, b, path=""):
    """None if two observations are the same (floating point figures up to 1e-9), else where they are not."""
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return None if a is b or a == b and type(a) is type(b) else f"{path}: {a!r} and {b!r}"
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        ok = a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
        return None if ok else f"{path}: {a!r} and {b!r}"
    if type(a) is not type(b):
        return f"{path}: {a!r} and {b!r}"
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{path}: {str(a)[:300]} and {str(b)[:300]}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    if isinstance(a, dict):
        if list(a) != list(b):
            return f"{path}: {list(a)} and {list(b)}"
        for k in a:
            d = differ(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        return None
    if a == b:
        return None
    xs, ys = NUM.findall(a), NUM.findall(b)
    if NUM.sub("#", a) == NUM.sub("#", b) and len(xs) == len(ys) and \
            all(p == q or ("." in p + q and differ(float(p), float(q)) is None) for p, q in zip(xs, ys)):
        return None
    return f"{path}: {a[:300]!r} and {b[:300]!r}"


# -- the program ----------------------------------------------------------------------------------------------------
class Cycle:
    """Reported memory: odd questions answer avail, even ones avail - drop."""

    def __init__(self, spec):
        self.spec, self.n = spec, 0

    def read(self):
        import types
        s = self.spec
        v = s["avail"] - (s["drop"] if self.n % 2 else 0)
        self.n += 1
        return types.SimpleNamespace(total=32e9, available=v, percent=50.0, used=1e9, free=v)


class Prog(RuleRun):
    def __init__(self, trace, stats, env):
        t = dict(trace)
        t["cfg"] = dict(trace["cfg"], rng=env["rng"], ncpus=env["ncpus"])
        super().__init__(t, stats, dir_seed=env["dir"])
        self.env = env
        self.k.clock = env["clock"]
        if env["mem"]:
            self.im.stand_ins["psutil"].virtual_memory = Cycle(env["mem"]).read
        if env["junk"]:
            for i in range(env["junk"]):
                self.k.fs.poke(f"{host.TMP}/ACTIVATION_VECTOR_{i * 17}.txt", b"left by an earlier process")
        self.names = self.cfg["names"]
        if self.cfg["afi"]:
            self.RuleSet.all_features_indexes = {n: i for i, n in enumerate(self.names)}
        self.sets, self.rules, self.out = {}, {}, []
        self.k.fs.mkdirs("/simfs/save")

    def xs(self, k):
        return self.data[k].xs(self.cfg["xs"], self.names[:self.data[k].X.shape[1]] if self.names else None)

    def ys(self, k):
        return self.data[k].ys(self.cfg["ys"])

    def rule(self, i):
        if i not in self.rules:
            self.rules[i] = self.make_rule(i, self.names)
        return self.rules[i]

    def run(self):
        for o in self.t["ops"]:
            self.k.clock += self.env["jump"]
            f = getattr(self, "op_" + o["op"])
            fired, out = self.call(o, lambda: f(o))
            self.stats.d["ops"] += 1
            self.stats.bump("op_kinds", o["op"])
            r = {"op": o["op"]}
            if out[0] == "ok":
                r["out"] = out[1]
            else:
                r["error"] = type(out[1]).__name__
            self.stats.shapes.add(f"{o['op']}/{self.kind}/{self.cfg['local']}/{r.get('error')}")
            for s in sorted({o["rs"], o.get("to", o["rs"])}):
                r[f"set{s}"] = self.look(s)
            self.out.append(r)
        self.k.begin_op("end", None)
        with host.guest():
            self.out.append({"op": "end", **{f"set{s}": self.full(s) for s in sorted(self.sets)}})
        return self.out

    def look(self, s):
        rs = self.sets.get(s)
        if rs is None:
            return None
        with host.guest():
            return {"rules": [str(r.condition) for r in rs], "names": obs(rs.features_names),
                    "indexes": obs(rs.features_indexes)}

    def full(self, s):
        rs = self.sets[s]

        def get(f):
            try:
                return obs(f())
            except Exception as e:
                return f"error {type(e).__name__}"

        figs = ["prediction", "coverage", "criterion", "std", "zscore", "sign", "train_set_size", "test_set_size",
                "good", "bad_because", "nones"]
        return {"str": get(lambda: str(rs)), "activation": get(lambda: rs.activation),
                "coverage": get(lambda: rs.ruleset_coverage), "criterion": get(lambda: rs.criterion),
                "sizes": get(lambda: [rs.train_set_size, rs.test_set_size]),
                "table": get(lambda: rs.stacked_activations), "count": get(rs.get_features_count),
                "rules": [[str(r.condition), *[get(lambda: getattr(r, n, None)) for n in figs],
                           get(lambda: r.activation)] for r in rs]}

    # -- operations ---------------------------------------------------------------
    def need(self, s):
        if s not in self.sets:
            self.sets[s] = self.RuleSet([self.rule(0)], compute_activation=False)
        return self.sets[s]

    def op_new(self, o):
        self.sets[o["rs"]] = self.RuleSet([self.rule(i) for i in o["ids"]], compute_activation=o["ca"],
                                          stack_activation=o["stack"])

    def op_append(self, o):
        self.need(o["rs"]).append(self.rule(o["i"]))

    def op_iadd(self, o):
        if o["b"] != o["rs"]:
            a = self.need(o["rs"])
            a += self.need(o["b"])

    def op_add(self, o):
        self.sets[o["to"]] = self.need(o["rs"]) + self.need(o["b"])

    def op_addrule(self, o):
        self.sets[o["to"]] = self.need(o["rs"]) + self.rule(o["i"])

    def op_slice(self, o):
        rs = self.need(o["rs"])
        a, e = (o["e"], None) if o["st"] < 0 else (o["a"], o["e"])
        r = rs[a:e:o["st"]]
        if len(r):
            self.sets[o["to"]] = r

    def op_sort(self, o):
        self.need(o["rs"]).sort(o["by"], o["rev"])

    def op_setrules(self, o):
        self.need(o["rs"]).rules = [self.rule(i) for i in o["ids"]]

    def op_fit(self, o):
        return [str(r.condition) for r in self.need(o["rs"]).fit(self.ys(o["k"]), self.xs(o["k"]))]

    def op_eval(self, o):
        out = self.need(o["rs"]).eval(self.ys(o["k"]), self.xs(o["k"]), keep_new_activations=o["keep"], weights=o["w"])
        return [str(r.condition) for r in out]

    def op_calc(self, o):
        self.need(o["rs"]).calc_activation(self.xs(o["k"]))

    def op_predict(self, o):
        rs = self.need(o["rs"])
        return obs(rs.predict(self.xs(o["k"]) if o["xs"] else None, weights=o["w"]))

    def op_feats(self, o):
        rs = self.need(o["rs"])
        return obs([rs.features_names, rs.features_indexes, rs.get_features_count()])

    def op_df(self, o):
        return obs(self.need(o["rs"]).to_df())

    def op_save(self, o):
        p = f"/simfs/save/r{o['path']}.csv"
        self.need(o["rs"]).save(p)
        return obs(self.k.fs.peek(p))

    def op_load(self, o):
        rs = self.RuleSet()
        rs.load(f"/simfs/save/r{o['path']}.csv")
        self.sets[o["rs"]] = rs
        return self.full(o["rs"])

    def op_conj(self, o):
        r = self.rule(o["i"]) & self.rule(o["j"])
        if r is not None and o["app"] and r.activation_available:
            self.need(o["rs"]).append(r)
        return [str(r.condition), obs(r.activation)] if r is not None else None

    def op_rule(self, o):
        r = self.rule(o["i"])
        r.fit(self.ys(o["k"]), self.xs(o["k"]))
        return obs([r.prediction, r.coverage, r.predict(self.xs(1 - o["k"])), str(r), r.good, r.bad_because])

    def op_tree(self, o):
        from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor
        X, y = np.nan_to_num(self.data[o["k"]].X, posinf=9.0), self.data[o["k"]].y
        T = DecisionTreeRegressor if self.kind == "reg" else DecisionTreeClassifier
        t = T(max_depth=o["depth"], random_state=0).fit(X, y.tolist())
        d = X.shape[1]
        f = self.im.modules["ruleskit.utils.rule_utils"].extract_rules_from_tree
        rs = f(t, X.min(axis=0), X.max(axis=0), features_names=(self.names or [f"X_{i}" for i in range(d)])[:d],
               classes_names=[str(c) for c in t.classes_] if self.kind == "cls" else None, get_leaf=o["leaf"],
               compute_activation=o["ca"], stack_activation=o["stack"])
        out = [[str(r.condition), obs(r._prediction)] for r in rs]
        if len(rs):
            rs.calc_activation(X)
            self.sets[o["to"]] = rs
        return out

    def op_vecs(self, o):
        A = self.A
        v = [A(make_vec(s), to_file=self.cfg["local"]) for s in o["v"]]
        r = getattr(A, "multi_logical_" + o["f"])(v, asarray=o["arr"])
        return [obs(r), obs((v[0] | v[1]).raw), obs((v[0] & v[1]).raw), obs((v[0] - v[1]).raw), v[1] in v[0]]

    def op_limits(self, o):
        p = host.TMP + f"/limits{o['id']}.json"
        self.k.fs.poke(p, json.dumps(o["lim"]).encode())
        self.Rule.SET_THRESHOLDS(p)

    def op_ask(self, o):
        rs = self.need(o["rs"])
        other = self.need((o["rs"] + 1) % 3)
        return [rs == other, [r in rs for r in list(self.rules.values())[:4]], len(rs),
                [a == b for a in list(self.rules.values())[:3] for b in list(self.rules.values())[:3]]]

    def op_del(self, o):
        self.need(o["rs"]).del_activations()


def execute(trace, env, stats):
    p = Prog(trace, stats, trace["envs"][env])
    return p.run(), p


# -- sibling interpreter --------------------------------------------------------------------------------------------
class Sibling:
    proc = None

    @classmethod
    def ask(cls, trace):
        if cls.proc is None:
            own = os.environ.get("PYTHONHASHSEED", "0")
            hs = 5000 + 7 * int(own if own.isdigit() else 0) + 1
            cls.proc = subprocess.Popen([sys.executable, "-m", "sim.engine", "exec", "differ"], cwd=engine.HERE,
                                        env=engine.child_env(hs), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                        stderr=subprocess.DEVNULL, text=True)
        try:
            cls.proc.stdin.write(json.dumps(trace) + "\n")
            cls.proc.stdin.flush()
            while True:
                line = cls.proc.stdout.readline()
                if not line:
                    raise RuntimeError("the sibling interpreter ended")
                if line.startswith("@@"):
                    r = json.loads(line[2:])
                    break
        except BaseException:
            cls.proc.kill()
            cls.proc = None
            raise
        if "harness" in r:
            raise RuntimeError("sibling: " + r["harness"])
        return r["out"]


def serve(trace):
    """In the sibling."""
    out, _ = execute(trace, "B", engine.Stats())
    return out


def run(trace, stats):
    a, p = execute(trace, "A", stats)
    p.stats.kernel(p.k)
    digest = p.k.digest()
    a = json.loads(json.dumps(a))
    others = {"C": json.loads(json.dumps(execute(trace, "C", engine.Stats())[0])), "B": Sibling.ask(trace)}
    what = {"B": "another hash seed, clock, random state and memory", "C": "another clock, random state and memory"}
    for e in ("C", "B"):
        for i, (x, y) in enumerate(zip(a, others[e])):
            stats.d["checks"] += 1
            d = differ(x, y)
            if d:
                raise Violation(f"differs:{x['op']}", f"with {what[e]}, step {i} ({x['op']}) gives different results: "
                                                      f"{d}; environments {trace['envs']['A']} and "
                                                      f"{trace['envs'][e]}")
    for n in ("kind", "local", "stacked", "dtype", "xs", "ys"):
        stats.bump("cfg", f"{n}={trace['cfg'][n]}")
    for k in ("mem", "jump", "dir", "junk"):
        if any(trace["envs"][e][k] for e in "ABC"):
            stats.bump("faults_fired", {"mem": "low_memory", "jump": "clock_jump", "dir": "directory_order",
                                        "junk": "leftover_files"}[k])
    stats.bump("faults_fired", "hash_seed")
    return digest
