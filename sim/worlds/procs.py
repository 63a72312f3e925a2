"""World P: several processes (one fresh image of ruleskit each) share one storage directory on one simulated machine.

C02  nobody clobbers anybody: every stored vector stays what it was, across interleavings, equal random states, name
     collisions, write failures and process kills
C04  deleting and cleaning remove exactly what they have to
"""
import copy
import fnmatch
import json
from pathlib import Path

import numpy as np

from .. import host
from ..engine import Violation
from ..fs import SimCrash
from ..kernel import NoProgress
from .common import VIEWS, audit, compare_view, drop_faults, gen_vec, m_int, make_vec, same_raw, show, shrink_vecs, view

NONTRIVIAL = ("an execution counts as distinct when the hash over configuration, operations, and the ordered sequence "
              "of (process, file system event, file, size) and context switches differs")
SHAPE = "set of (operation, stored format, number of processes, same random state or not, range of names) reached"
REAL = ["ruleskit (activation, rule, ruleset, condition), one image per process", "numpy save/load", "pathlib",
        "io buffering"]
STUB = ["kernel file system (in memory, shared by the processes)", "process scheduling (seeded, switches at every file "
        "system call)", "random source per process", "clock"]
ASSUMPTIONS = ["data handed to write() survives the death of the process; power loss is not modelled",
               "exclusive creation and unlink are atomic", "in C02 an owner does not delete a vector that another process "
               "has opened lazily or is opening"]

NSLOT = 4
DIRS = [host.TMP, "/simfs/tmp/other", "/simfs/store"]
DECOYS = ["ACTIVATION_REPORT.txt", "my_ACTIVATION_VECTOR_1.txt", "ACTIVATION_VECTOR_1.csv", "activation_vector_5.txt",
          "VECTOR_3.txt", "rules.csv", "ACTIVATION_VECTOR.txt", "ACTIVATION_VECTOR_12.txt.bak"]


def describe(trace):
    return {"cfg": trace["cfg"], "ops": [_short(o) for o in trace["ops"][:10]], "preemptions": trace["sched"][:6]}


def _short(o):
    return {k: v for k, v in o.items() if v is not None}


# -- generation -----------------------------------------------------------------------------------------------------
def gen(rng, prop, tier):
    nproc = rng.choice([2, 2, 2, 3, 4])
    cfg = {"nproc": nproc, "dtype": rng.choice(["str", "arr"]), "wc": rng.random() < 0.3, "raw": False,
           "fs": rng.random() < 0.3, "rng": rng.randrange(10 ** 6),
           "same": prop == "C02" and rng.random() < 0.7,
           "narrow": rng.choice([0, 0, 1, 1, 2, 3, 5]) if prop == "C02" else 0,
           "short": rng.choice([0, 0, 0, 7, 200]), "dirseed": rng.randrange(1000)}
    if prop == "C02":
        cfg["narrow"] = cfg["narrow"] if cfg["narrow"] != 1 or rng.random() < 0.5 else 2
    per = rng.randint(2, 7) if tier == "quick" else rng.randint(2, 14)
    n = rng.choice([1, 2, 3, 8, 17, 40, 129, 300, rng.randint(1, 200)])
    if rng.random() < 0.02:
        n = 20000
        cfg["short"] = 0
    ops = []
    live = [set() for _ in range(nproc)]
    box = []
    for i in range(per * nproc):
        p = rng.randrange(nproc)
        slot = rng.randrange(NSLOT)
        o = {"p": p}
        if not live[p] or rng.random() < 0.35:
            o.update(op="new", slot=slot, vec=gen_vec(rng, n=n), form=rng.choice(["raw_u1", "raw_u1", "raw_i8", "int"]),
                     opt=rng.random() < 0.7, file=rng.random() < 0.85)
            live[p].add(slot)
        else:
            if prop == "C02":
                w = [("get", 20), ("copy", 10), ("logic", 12), ("send", 10), ("recv", 12), ("del", 8), ("prof", 10),
                     ("clear", 2), ("reseed", 4), ("fit", 4)]
            else:
                w = [("get", 12), ("copy", 8), ("logic", 6), ("del", 16), ("clean", 12), ("dir", 8), ("rule", 10),
                     ("rdel", 12), ("rsdel", 6), ("again", 8), ("recv", 3), ("send", 3), ("sub", 3),
                     ("rsnew", 5), ("rsown", 6), ("clear", 4), ("prof", 4)]
            k = rng.choices([x for x, _ in w], [y for _, y in w])[0]
            a, b = rng.choice(sorted(live[p])), rng.choice(sorted(live[p]))
            o.update(op=k, slot=a)
            if k == "get":
                o["view"] = rng.choice(VIEWS)
            elif k == "prof":
                o["view"] = rng.choice(["sizeof_path", "sizeof_file", "time_write", "time_read"])
            elif k in ("copy", "clear"):
                o["to"] = slot
            elif k == "logic":
                o.update(f=rng.choice(["and", "or", "xor", "sub", "contains"]), b=b, to=slot)
            elif k == "recv":
                o.update(to=slot, i=rng.randrange(8), lasy=rng.random() < 0.5, file=rng.random() < 0.8)
                live[p].add(slot)
            elif k == "reseed":
                o["s"] = cfg["rng"]
            elif k == "dir":
                o["d"] = rng.randrange(len(DIRS))
            elif k == "rule":
                o.update(to=slot)
            elif k == "rsnew":
                o.update(to=slot, stack=rng.random() < 0.3)
                live[p].add(slot)
            elif k == "fit":
                o.update(vec=gen_vec(rng, n=n))
        o["id"] = i
        o["look"] = rng.random() < 0.5  # looking at a vector can load it, which may hide what is wrong with it
        o["fault"] = None
        r = rng.random()
        if prop == "C02":
            if r < 0.06:
                o["fault"] = {"kind": "crash", "at": rng.randint(0, 10)}
            elif r < 0.12:
                o["fault"] = {"kind": rng.choice(["enospc", "torn", "eio_w"]), "at": rng.choice([0, 0, 1, 2]),
                              "frac": 0.5}
        else:
            if r < 0.05:
                o["fault"] = {"kind": "crash", "at": rng.randint(0, 8)}
            elif r < 0.15:
                o["fault"] = {"kind": rng.choice(["eacces", "enospc"]), "at": rng.choice([0, 0, 1, 2, 3])}
        ops.append(o)
    sched = []
    for _ in range(rng.choice([0, 1, 2, 4, 8, 16])):
        o = rng.choice(ops)
        sched.append({"a": o["p"], "op": o["id"], "n": rng.randint(0, 9), "to": rng.randrange(nproc)})
    return {"cfg": cfg, "ops": ops, "sched": sched}


def simplify(trace):
    yield from drop_faults(trace)
    for k, val in (("short", 0), ("narrow", 0), ("fs", False), ("wc", False), ("dtype", "str"), ("dirseed", 0),
                   ("same", False)):
        if trace["cfg"][k] != val:
            c = copy.deepcopy(trace)
            c["cfg"][k] = val
            yield c
    used = {o["p"] for o in trace["ops"]}
    if used and max(used) + 1 < trace["cfg"]["nproc"]:
        c = copy.deepcopy(trace)
        c["cfg"]["nproc"] = max(used) + 1
        yield c
    for i, s in enumerate(trace["sched"]):
        if s["n"] > 0:
            c = copy.deepcopy(trace)
            c["sched"][i]["n"] = s["n"] - 1
            yield c
    yield from shrink_vecs(trace)


# -- execution ------------------------------------------------------------------------------------------------------
class Item:
    """A vector a process holds, with what the model says about it."""

    def __init__(self, a, v, home=None):
        self.a, self.v = a, v
        self.deleted = False        # its owner deleted it
        self.maybe_gone = False     # somebody may have cleaned its file
        self.sent = False           # its path was handed to other processes
        self.shared = 0             # lazily opened by others, or being opened right now
        self.foreign = home         # path of another process' file it was opened from
        self.summaries = {}
        self.rule = None
        self.rs = None              # the rule set whose own vector it is


class Proc:
    def __init__(self, w, p):
        self.w, self.p = w, p
        c = w.cfg
        self.im = host.Image(c["rng"] if c["same"] else c["rng"] + 1 + p, c["narrow"])
        self.A = self.im.Activation
        A = self.A
        A.DTYPE = str if c["dtype"] == "str" else np.ndarray
        A.WILL_COMPARE, A.STORE_RAW, A.FORCE_STAT = c["wc"], c["raw"], c["fs"]
        A.DEFAULT_TEMPDIR = Path(DIRS[0])
        self.dir = DIRS[0]
        self.slots = {}
        self.crash_op = None


class Run:
    def __init__(self, trace, stats):
        self.t, self.stats, self.prop = trace, stats, trace["prop"]
        self.cfg = cfg = trace["cfg"]
        self.k = host.boot(short=cfg["short"], sched=trace["sched"], dir_seed=cfg["dirseed"])
        self.k.h.update(json.dumps([cfg, trace["ops"]], sort_keys=True).encode())
        for d in DIRS:
            self.k.fs.mkdirs(d)
        self.k.fs.mkdirs(host.TMP + "/ACTIVATION_VECTOR_dir")
        for d in DIRS:
            for n in DECOYS:
                self.k.fs.poke(f"{d}/{n}", b"precious " + n.encode())
        self.k.fs.poke(host.TMP + "/ACTIVATION_VECTOR_dir/ACTIVATION_VECTOR_7.txt", b"precious nested")
        self.k.fs.journal = []
        self.decoys = {p: b for p, b in self.k.fs.tree().items() if b is not None}
        self.procs = [Proc(self, p) for p in range(cfg["nproc"])]
        self.box = []           # (path, model vector, item): paths handed from process to process
        self.ever = []
        self.allowed = {}       # op id -> set of inode numbers the operation may remove, or ("clean", directory)
        self.items = []

    # -- helpers --------------------------------------------------------------------
    def call(self, o, fn):
        k = self.k
        k.begin_op(o["id"], o.get("fault"))
        try:
            out = ("ok", fn())
        except SimCrash:
            raise
        except NoProgress:
            raise
        except Exception as e:
            out = ("err", e)
        fired = k.end_op()
        return fired, out

    def bad(self, o, e):
        raise Violation(f"error:{o['op']}:{o.get('f') or ''}:{type(e).__name__}",
                        f"process {o['p']} op {_short(o)} raised {type(e).__name__}: {e} although nothing failed")

    def on_disk(self, a):
        return getattr(a, "data_format", None) == "file"

    def gone_ok(self, it):
        return it.deleted or it.maybe_gone

    def judge(self, o, fired, out, *items):
        """Value of a successful operation, or None if it failed for a good reason."""
        if out[0] == "ok":
            return True
        if fired or any(self.gone_ok(i) for i in items) or self.raced(out[1]):
            return False
        if self.prop == "C04" and any(self.file_gone(i) for i in items):
            return False
        self.bad(o, out[1])

    def file_gone(self, it):
        """In C04 somebody's clean (or the owner's delete) may remove a file at any moment; check_journal() decides at
        the end whether the removals themselves were legitimate."""
        return self.prop == "C04" and self.on_disk(it.a) and \
            any(j[0] == "gone" and j[3] == str(it.a.data) for j in self.k.fs.journal)

    def raced(self, e):
        return self.prop == "C04" and isinstance(e, FileNotFoundError) and \
            any(j[0] == "gone" and j[3] == str(e.filename) and j[1] != self.k.cur for j in self.k.fs.journal)

    def audit(self, it, where, views=VIEWS):
        if self.file_gone(it):
            it.maybe_gone = True
        if not self.gone_ok(it):
            try:
                return audit(it.a, it.v, self.stats, where, self.prop, views=views, order=str(self.k.me.op))
            except Violation as e:
                if not (e.sig.startswith("audit-error") and e.sig.endswith("FileNotFoundError") and self.file_gone(it)):
                    raise
                it.maybe_gone = True
        # it may refuse, it may not lie
        for n in ("raw", "nones", "len", "as_compressed_str"):
            try:
                got = view(it.a, n)
            except Exception:
                continue
            bad = compare_view(n, got, it.v)
            self.stats.d["checks"] += 1
            if bad:
                raise Violation(f"wrong-after-delete:{n}", f"{where}: {bad}")

    def keep(self, pr, slot, a, v, foreign=None):
        it = Item(a, v, foreign)
        self.items.append((pr, it))
        pr.slots[slot] = it
        return it

    # -- operations -----------------------------------------------------------------
    def op_new(self, pr, o):
        v = make_vec(o["vec"])
        self.ever.append(v)
        kw = {"optimize": o["opt"], "to_file": o["file"]}
        if o["form"] == "int":
            arg, kw["length"] = m_int(v), len(v)
        else:
            arg = v.astype({"u1": np.ubyte, "i8": np.int64}[o["form"][4:]])
        fired, out = self.call(o, lambda: pr.A(arg, **kw))
        if self.judge(o, fired, out):
            it = self.keep(pr, o["slot"], out[1], v)
            self.fresh(it, o)

    def fresh(self, it, o):
        """A vector that came into being in operation o: unless somebody cleans the directory, it is there."""
        if o.get("look", True):
            self.audit(it, f"vector made by process {o['p']} in {_short(o)}")

    def op_get(self, pr, o):
        it = pr.slots.get(o["slot"])
        if it is None:
            return
        fired, out = self.call(o, lambda: view(it.a, o["view"]))
        if not self.judge(o, fired, out, it):
            return
        bad = compare_view(o["view"], out[1], it.v)
        self.stats.d["checks"] += 1
        if bad and not (self.gone_ok(it) and out[1] is None):
            raise Violation(f"wrong:{o['view']}", f"process {o['p']} op {_short(o)}: {bad}")

    def op_prof(self, pr, o):
        it = pr.slots.get(o["slot"])
        if it is None:
            return
        fired, out = self.call(o, lambda: getattr(it.a, o["view"]))
        self.judge(o, fired, out, it)
        self.audit(it, f"process {o['p']} after {_short(o)}")

    def op_copy(self, pr, o):
        it = pr.slots.get(o["slot"])
        if it is None:
            return
        fired, out = self.call(o, lambda: copy.copy(it.a))
        if self.judge(o, fired, out, it) and o["to"] != o["slot"]:
            n = self.keep(pr, o["to"], out[1], it.v)
            if self.gone_ok(it):
                n.maybe_gone = True
            self.fresh(n, o)
        if o.get("look", True):
            self.audit(it, f"original after {_short(o)}")

    def op_clear(self, pr, o):
        it = pr.slots.get(o["slot"])
        if it is None or self.prop == "C02" and (it.sent or it.foreign) or self.gone_ok(it) or it.rule or it.rs:
            return
        self.ever.append(np.zeros(len(it.v), dtype=np.ubyte))
        fired, out = self.call(o, it.a.clear)
        if self.judge(o, fired, out, it):
            it.v = np.zeros(len(it.v), dtype=np.ubyte)
            self.audit(it, f"after {_short(o)}")

    def op_logic(self, pr, o):
        x, y = pr.slots.get(o["slot"]), pr.slots.get(o["b"])
        if x is None or y is None or len(x.v) != len(y.v):
            return
        a, b, va, vb, f = x.a, y.a, x.v, y.v, o["f"]
        fn = {"and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b, "sub": lambda: a - b,
              "contains": lambda: b in a}[f]
        want = {"and": va & vb, "or": va | vb, "xor": va ^ vb, "sub": va & (1 - vb)}.get(f)
        self.ever += [va & vb, va ^ vb] + ([want] if want is not None else [])
        fired, out = self.call(o, fn)
        if not self.judge(o, fired, out, x, y):
            return
        if f == "contains":
            w = bool(((va & vb) == vb).all())
            if bool(out[1]) != w:
                raise Violation("wrong:contains", f"op {_short(o)} answered {out[1]}, want {w}")
        elif o["to"] not in (o["slot"], o["b"]):
            n = self.keep(pr, o["to"], out[1], want)
            if self.gone_ok(x) or self.gone_ok(y):
                n.maybe_gone = True
            self.fresh(n, o)
        if not o.get("look", True):
            return
        self.audit(x, f"left operand after {_short(o)}")
        self.audit(y, f"right operand after {_short(o)}")

    def op_send(self, pr, o):
        it = pr.slots.get(o["slot"])
        if it is None or not self.on_disk(it.a) or it.deleted:
            return
        it.sent = True
        self.box.append((str(it.a.data), it.v, it))

    def op_recv(self, pr, o):
        if not self.box:
            return
        path, v, src = self.box[o["i"] % len(self.box)]
        src.shared += 1
        fired, out = self.call(o, lambda: pr.A(Path(path), lasy=o["lasy"], to_file=o["file"]))
        if not o["lasy"]:
            src.shared -= 1
        if self.judge(o, fired, out, src):
            # opened at once, it is a vector of its own; opened lazily, it depends on the file it was given
            it = self.keep(pr, o["to"], out[1], v, foreign=path if o["lasy"] else None)
            it.maybe_gone = o["lasy"] and (self.prop == "C04" or self.gone_ok(src))
            if not o["lasy"]:
                self.fresh(it, o)

    def op_reseed(self, pr, o):
        pr.im.seed(o["s"])

    def op_fit(self, pr, o):
        """A rule that stores its activation, twice, as fit does."""
        v = make_vec(o["vec"])
        self.ever.append(v)
        pk = pr.im.pkg
        xs = v.astype(float).reshape(-1, 1)
        cond = pk.HyperrectangleCondition([0], bmins=[0.5], bmaxs=[1.5])
        r = pk.RegressionRule(cond)
        fired, out = self.call(o, lambda: r.fit(xs=xs, y=np.arange(len(v), dtype=float)))
        if not self.judge(o, fired, out):
            return
        it = Item(r._activation, v)
        it.rule = r
        self.items.append((pr, it))
        pr.slots[o["slot"]] = it
        self.audit(it, f"activation of the rule fitted in {_short(o)}")

    # C04 ----------------------------------------------------------------------------
    def may_remove(self, o, a):
        if self.on_disk(a):
            ino = self.k.fs.inodes().get(str(a.data))
            self.allowed.setdefault(o["id"], set()).add(ino)
            return ino
        return None

    def remember(self, it):
        for n in ("nones", "coverage", "len", "entropy"):
            try:
                it.summaries[n] = view(it.a, n)
            except Exception:
                if not self.gone_ok(it) and not self.file_gone(it):
                    raise

    def check_summaries(self, it, where):
        for n, want in it.summaries.items():
            try:
                got = view(it.a, n)
            except Exception as e:
                raise Violation(f"summary-lost:{n}", f"{where}: {n} raised {type(e).__name__}: {e} after the deletion")
            self.stats.d["checks"] += 1
            if got != want or compare_view(n, got, it.v):
                raise Violation(f"summary-changed:{n}", f"{where}: {n} is {got}, was {want}")

    def deletion(self, pr, o, fn, its):
        inos = []
        for it in its:
            self.remember(it)
            inos.append((it, self.may_remove(o, it.a), str(it.a.data) if self.on_disk(it.a) else None))
            for path, v, src in self.box:
                if self.on_disk(it.a) and path == str(it.a.data):
                    src.maybe_gone = True
            for _, other in self.items:
                # two vectors have one file only if one of them was lazily opened from the other's path
                if other is not it and (other.foreign or it.foreign) and self.on_disk(other.a) and \
                        self.on_disk(it.a) and str(other.a.data) == str(it.a.data):
                    other.maybe_gone = True
            it.maybe_gone = True
        fired, out = self.call(o, fn)
        if out[0] == "err":
            if not fired:
                self.bad(o, out[1])
            return False
        now = self.k.fs.inodes()
        for it, ino, path in inos:
            it.deleted = True
            if ino is not None and now.get(path) == ino:
                raise Violation("not-deleted", f"process {o['p']} op {_short(o)} left {path} behind")
            self.check_summaries(it, f"op {_short(o)}")
            if self.prop == "C04":
                self.audit(it, f"after {_short(o)}")
            if it.rule is not None and self.prop == "C04":
                r = it.rule
                if r.activation_available:
                    raise Violation("available-after-delete", f"op {_short(o)}: the rule says its activation is there")
                if "coverage" in it.summaries and r.coverage != it.summaries["coverage"]:
                    raise Violation("summary-changed:rule.coverage", f"op {_short(o)}: {r.coverage}")
            if it.rs is not None:
                if it.rs.activation_available:
                    raise Violation("available-after-delete", f"op {_short(o)}: the rule set says its activation is "
                                                              f"there")
        return True

    def op_del(self, pr, o):
        it = pr.slots.get(o["slot"])
        if it is None or (self.prop == "C02" and (it.shared or it.foreign)):
            return
        if self.prop == "C02":
            self.box = [b for b in self.box if b[2] is not it]
        done = self.deletion(pr, o, it.a.delete, [it])
        if self.prop == "C02" and done:
            # its name may be reused at once, so nobody may look at it (or delete it) again
            pr.slots = {s: x for s, x in pr.slots.items() if x is not it}
            it.deleted = True

    def op_again(self, pr, o):
        """Deleting what is already gone."""
        it = pr.slots.get(o["slot"])
        if it is None or not it.deleted:
            return
        self.may_remove(o, it.a)
        fired, out = self.call(o, (it.rule or it.rs).del_activation if it.rule or it.rs else it.a.delete)
        self.judge(o, fired, out)
        self.check_summaries(it, f"op {_short(o)}")

    def op_sub(self, pr, o):
        """b in a deletes the intermediate vector it makes, nothing else."""
        it = pr.slots.get(o["slot"])
        if it is None:
            return
        fired, out = self.call(o, lambda: it.a in it.a)
        if self.judge(o, fired, out, it):
            self.audit(it, f"after {_short(o)}")

    def op_clean(self, pr, o):
        before = {p: i for p, i in self.k.fs.inodes().items()
                  if p.rsplit("/", 1)[0] == pr.dir and fnmatch.fnmatchcase(p.rsplit("/", 1)[1], "ACTIVATION_VECTOR_*.txt")}
        self.allowed[o["id"]] = ("clean", pr.dir)
        for _, it in self.items:
            it.maybe_gone = True
        try:
            fired, out = self.call(o, pr.A.clean_files)
        finally:  # also when the process is killed in the middle
            for _, it in self.items:
                it.maybe_gone = True
        if out[0] == "err":
            if not fired:
                self.bad(o, out[1])
            return
        if fired:
            return  # pathlib ignores a directory it may not list
        now = self.k.fs.inodes()
        left = [p for p, i in before.items() if now.get(p) == i]
        self.stats.d["checks"] += 1
        if left:
            raise Violation("not-cleaned", f"process {o['p']} op {_short(o)}: {left[:3]} are still there")

    def op_dir(self, pr, o):
        pr.dir = DIRS[o["d"]]
        pr.A.DEFAULT_TEMPDIR = Path(pr.dir)

    def op_rule(self, pr, o):
        it = pr.slots.get(o["slot"])
        if it is None or it.rule is not None or it.deleted:
            return
        pk = pr.im.pkg
        cond = pk.HyperrectangleCondition([0], bmins=[o["id"]], bmaxs=[o["id"] + 1])
        fired, out = self.call(o, lambda: pk.RegressionRule(cond, it.a))
        if self.judge(o, fired, out, it):
            it.rule = out[1]
            fired, out = self.call(dict(o, fault=None), lambda: it.rule.activation_available)
            if out[0] != "ok" or (not out[1] and not self.gone_ok(it) and not self.file_gone(it)):
                raise Violation("not-available", f"op {_short(o)}: the rule's activation is not available: {out}")

    def op_rdel(self, pr, o):
        it = pr.slots.get(o["slot"])
        if it is None or it.rule is None or it.deleted:
            return
        self.deletion(pr, o, it.rule.del_activation, [it])

    def op_rsdel(self, pr, o):
        its = [it for _, it in sorted(pr.slots.items()) if it.rule is not None and not it.deleted]
        seen, uniq = set(), []
        for it in its:
            if id(it.a) not in seen:
                seen.add(id(it.a))
                uniq.append(it)
        its = uniq
        if not its or len({len(i.v) for i in its}) != 1:
            return
        pk = pr.im.pkg
        rs = pk.RuleSet([it.rule for it in its], compute_activation=False)
        self.deletion(pr, o, rs.del_activations, its)

    def op_rsnew(self, pr, o):
        """A rule set has a vector of its own."""
        its, seen = [], set()
        for _, it in sorted(pr.slots.items()):
            if it.rule is not None and not it.deleted and id(it.a) not in seen:
                seen.add(id(it.a))
                its.append(it)
        if not its or len({len(i.v) for i in its}) != 1:
            return
        v = its[0].v
        for it in its[1:]:
            v = v | it.v
            self.ever.append(v)
        fired, out = self.call(o, lambda: pr.im.pkg.RuleSet([it.rule for it in its], stack_activation=o["stack"]))
        if not self.judge(o, fired, out, *its):
            return
        rs = out[1]
        if rs._activation is None or rs._activation.length == 0:
            if any(self.gone_ok(i) or self.file_gone(i) for i in its):
                return
            raise Violation("no-activation", f"op {_short(o)}: the rule set has no activation")
        n = self.keep(pr, o["to"], rs._activation, v)
        n.rs = rs
        n.maybe_gone = any(self.gone_ok(i) for i in its)
        self.fresh(n, o)

    def op_rsown(self, pr, o):
        """The rule set's own vector goes, the vectors of its rules stay (see check_journal)."""
        its = [it for _, it in sorted(pr.slots.items()) if it.rs is not None and not it.deleted]
        if its:
            it = its[o["slot"] % len(its)]
            rules = [x for x in pr.slots.values() if x.rule is not None and any(r is x.rule for r in it.rs)]
            self.deletion(pr, o, it.rs.del_activation, [it])
            for x in rules:
                self.audit(x, f"rule of the rule set after {_short(o)}")

    # -- bodies ---------------------------------------------------------------------
    def body(self, pr, ops):
        def f():
            for o in ops:
                self.stats.d["ops"] += 1
                self.stats.bump("op_kinds", o["op"])
                pr.crash_op = o
                getattr(self, "op_" + o["op"])(pr, o)
                it = pr.slots.get(o.get("slot"))
                self.stats.shapes.add(f"{o['op']}/{getattr(it.a, 'data_format', None) if it else None}/"
                                      f"{self.cfg['nproc']}/{self.cfg['same']}/{self.cfg['narrow']}")
                self.k.begin_op(f"audit{o['id']}", None)
                for s, i in sorted(pr.slots.items() if o.get("look", True) else ()):
                    if s != o.get("slot") and s % 2 == o["id"] % 2:
                        self.audit(i, f"process {pr.p} slot {s} after {_short(o)}", views=["raw", "nones"])
            pr.crash_op = None
        return f

    def run(self):
        per = [[] for _ in self.procs]
        for o in self.t["ops"]:
            if o["p"] < len(per):
                per[o["p"]].append(o)
        over, errs = self.k.run_actors([self.body(pr, ops) for pr, ops in zip(self.procs, per)])
        if over is not None:
            raise Violation("no-progress", str(over))
        for e in errs:
            if isinstance(e, Violation):
                raise e
        for e in errs:
            if e is not None:
                raise e
        self.k.begin_op("final", None)
        self.final()
        self.stats.kernel(self.k)
        return self.k.digest()

    def final(self):
        # still inside the surviving processes' memory: every live vector reads right
        dead = {pr.p for pr in self.procs if pr.crash_op is not None}
        self.stats.d["crashes"] += len(dead)
        paths = []
        with host.guest():
            for pr, it in self.items:
                if pr.p in dead:
                    pass
                elif any(x is it for x in pr.slots.values()):
                    self.audit(it, f"process {pr.p} at the end")
                if self.on_disk(it.a) and not self.gone_ok(it):
                    paths.append((str(it.a.data), it, pr))
            # a new process opens what the others left
            im = host.Image(991, 0)
            for p, it, pr in paths:
                o = pr.crash_op
                if o is not None and o["op"] == "del" and pr.slots.get(o["slot"]) is it:
                    continue
                try:
                    got = im.Activation(Path(p), to_file=False)
                except Exception as e:
                    raise Violation(f"lost:{type(e).__name__}", f"a vector of process {pr.p}"
                                    f"{' (killed)' if pr.p in dead else ''} stored in {p} can not be opened: "
                                    f"{type(e).__name__}: {e}")
                audit(got, it.v, self.stats, f"vector of process {pr.p} reopened from {p}", self.prop)
            for p, b in sorted(self.k.fs.tree().items()):
                n = p.rsplit("/", 1)[1]
                if b is None or not fnmatch.fnmatchcase(n, "ACTIVATION_VECTOR_*.txt") or p in self.decoys:
                    continue
                try:
                    got = im.Activation(Path(p), to_file=False).raw
                except Exception:
                    continue
                self.stats.d["checks"] += 1
                if not any(same_raw(got, v) for v in self.ever):
                    raise Violation("torn-accepted", f"{p} was read as {show(got)}, which no vector ever was")
        self.check_decoys("at the end")
        if self.prop == "C04":
            self.check_journal()
            with host.guest():
                for d in DIRS:
                    im.Activation.DEFAULT_TEMPDIR = Path(d)
                    try:
                        im.Activation.clean_files()
                    except Exception as e:
                        raise Violation(f"clean-failed:{type(e).__name__}", f"clean_files in a fresh process: {e}")
            for p in self.k.fs.inodes():
                d, n = p.rsplit("/", 1)
                if d in DIRS and fnmatch.fnmatchcase(n, "ACTIVATION_VECTOR_*.txt"):
                    raise Violation("not-cleaned", f"{p} survived clean_files of a fresh process")
            self.check_decoys("after the final clean_files")
            with host.guest():
                im.Activation.DEFAULT_TEMPDIR = Path("/simfs/nowhere")
                im.Activation.clean_files()

    def check_decoys(self, when):
        t = self.k.fs.tree()
        for p, b in self.decoys.items():
            self.stats.d["checks"] += 1
            if t.get(p) != b:
                raise Violation("bystander-damaged", f"{when}: {p}, which is not a vector file, is "
                                                     f"{'gone' if p not in t else 'changed'}")

    def check_journal(self):
        made = {}
        for what, a, op, path, ino in self.k.fs.journal:
            if what == "create":
                made[ino] = (a, op)
            elif what in ("gone", "truncate"):
                self.stats.d["checks"] += 1
                if made.get(ino) == (a, op):
                    continue
                al = self.allowed.get(op)
                if isinstance(al, set) and ino in al and what == "gone":
                    continue
                d, n = path.rsplit("/", 1)
                if isinstance(al, tuple) and d == al[1] and what == "gone" and \
                        fnmatch.fnmatchcase(n, "ACTIVATION_VECTOR_*.txt"):
                    continue
                o = next((x for x in self.t["ops"] if x["id"] == op), None)
                raise Violation(f"removed-too-much:{what}", f"process {a} op {_short(o) if o else op} made the file "
                                                            f"{path} {what}, which it had no business touching")


def run(trace, stats):
    return Run(trace, stats).run()
