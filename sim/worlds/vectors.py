"""World V: one process, vectors in every representation, long histories of operations on one simulated machine.

C01  the environment is benign: clock jumps, short reads and writes, colliding name draws, settings that change
C03  storage faults and crashes are injected into single operations
C05  logical operations under scripted memory pressure
"""
import copy
import json
from pathlib import Path

import numpy as np
from bitarray import bitarray

from .. import host
from ..engine import Violation
from ..fs import SimCrash
from ..kernel import NoProgress
from .common import (Alloc, VIEWS, PROFILE, audit, compare_view, drop_faults, gen_vec, m_compressed, m_int, make_vec, same_raw,
                     show, shrink_vecs, view)

NONTRIVIAL = ("an execution counts as distinct when the hash over its configuration, operations and the ordered file "
              "system events differs; every run performs at least 4 operations on real Activation objects")
SHAPE = "set of (operation kind, stored format of the vector, optimise, storage settings) combinations reached"
REAL = ["ruleskit.activation (whole module, from /repo)", "numpy save/load", "bitarray", "pathlib", "io buffering"]
STUB = ["kernel file system (in memory)", "clock", "random source", "psutil.virtual_memory", "ruleskit._version"]
ASSUMPTIONS = ["data handed to write() survives a process crash; power loss (loss of written, unsynced data) and bit "
               "rot are not modelled", "vectors are non-empty and hold only 0 and 1", "one thread per process"]

FORMS = ["raw_u1", "raw_u1", "raw_i8", "raw_bool", "raw_f8", "bitarray", "int", "cstr", "carr", "path", "lasy",
         "bitstr", "pathstr"]
NSLOT = 5


def describe(trace):
    return {"cfg": trace["cfg"], "ops": [_short(o) for o in trace["ops"][:12]]}


def _short(o):
    return {k: v for k, v in o.items() if k not in ("id",) and v is not None}


# -- generation -----------------------------------------------------------------------------------------------------
def gen(rng, prop, tier):
    cfg = {
        "dtype": rng.choice(["str", "str", "arr"]),
        "wc": rng.random() < 0.4,
        "raw": rng.random() < 0.12,
        "fs": rng.random() < 0.35,
        "ncpus": rng.choice([1, 1, 2, 8]),
        "short": rng.choice([0, 0, 0, 1, 3, 64, 130, 1000]) if prop != "C05" else 0,
        "rng": rng.randrange(10 ** 6),
        "narrow": rng.choice([0, 0, 0, 1, 2, 3]),
    }
    nops = rng.randint(4, 14) if tier == "quick" else rng.randint(4, 30)
    big = 0.02
    base_n = gen_vec(rng, big=big)["n"]
    if cfg["short"] and base_n > 2000:
        cfg["short"] = 4000
    ops = []
    live = set()

    def fault(kinds=("enospc", "torn", "eio_w", "eio_r", "eacces", "emfile", "crash"), p=0.45):
        if prop != "C03" or rng.random() > p:
            return None
        k = rng.choice(kinds)
        f = {"kind": k, "at": rng.choice([0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 8])}
        if k == "crash":
            f["at"] = rng.randint(0, 12)
        if k == "torn":
            f["frac"] = rng.choice([0.0, 0.1, 0.5, 0.9, 0.99])
        if k in ("enospc", "eacces", "emfile", "eio_w") and rng.random() < 0.3:
            f["sticky"] = True
        return f

    def same_len(n):
        return gen_vec(rng, n=n)

    for i in range(nops):
        slot = rng.randrange(NSLOT)
        if not live or rng.random() < (0.30 if prop != "C05" else 0.25):
            n = base_n if rng.random() < 0.85 else gen_vec(rng, big=big if not cfg["short"] else 0)["n"]
            o = {"op": "new", "slot": slot, "vec": same_len(n), "form": rng.choice(FORMS),
                 "opt": rng.random() < 0.7, "file": rng.random() < (0.7 if prop == "C03" else 0.5)}
            live.add(slot)
        else:
            w = {"C01": [("get", 40), ("prof", 14), ("copy", 8), ("clear", 5), ("cfg", 7), ("jump", 3), ("reseed", 3),
                         ("logic", 4), ("multi", 2), ("audit", 10)],
                 "C03": [("get", 30), ("prof", 12), ("copy", 12), ("clear", 3), ("cfg", 4), ("reseed", 3),
                         ("logic", 16), ("multi", 8), ("audit", 4)],
                 "C05": [("get", 8), ("prof", 2), ("copy", 3), ("cfg", 6), ("reseed", 2), ("logic", 50), ("multi", 30),
                         ("clear", 2)]}[prop]
            kind = rng.choices([x for x, _ in w], [y for _, y in w])[0]
            a = rng.choice(sorted(live))
            b = rng.choice(sorted(live))
            if kind == "get":
                o = {"op": "get", "slot": a, "view": rng.choice(VIEWS)}
            elif kind == "prof":
                o = {"op": "prof", "slot": a, "view": rng.choice(PROFILE)}
            elif kind == "copy":
                o = {"op": "copy", "slot": a, "to": slot}
                live.add(slot)
            elif kind == "clear":
                o = {"op": "clear", "slot": a}
            elif kind == "cfg":
                o = {"op": "cfg", "key": rng.choice(["dtype", "wc", "raw", "fs"]), "val": rng.random() < 0.5}
            elif kind == "jump":
                o = {"op": "jump", "dt": rng.choice([-3600, -1e-3, 0, 1e6, 86400.0, -1e9])}
            elif kind == "reseed":
                o = {"op": "reseed", "s": rng.choice([cfg["rng"], cfg["rng"], 42])}
            elif kind == "logic":
                o = {"op": "logic", "f": rng.choice(["and", "or", "xor", "add", "sub", "contains", "corr"]), "slot": a,
                     "b": b, "to": slot}
                if o["f"] not in ("contains", "corr"):
                    live.add(slot)
            elif kind == "multi":
                sl = [rng.choice(sorted(live)) for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 5, 7]))]
                if prop == "C05" and rng.random() < 0.02:  # more than fits a byte
                    sl = [sl[0]] * rng.choice([255, 256, 257, 300]) + sl[1:]
                o = {"op": "multi", "f": rng.choice(["and", "or", "xor"]), "slots": sl, "to": slot,
                     "arr": rng.random() < 0.3}
                if not o["arr"]:
                    live.add(slot)
            else:
                o = {"op": "audit", "slot": a}
            if prop == "C05" and kind == "multi":
                r = rng.random()
                if r < 0.25:
                    o["mem"] = {"avail": 1e9, "drop": rng.choice([3e8, 4.5e8])}     # pairs, no error
                elif r < 0.4:
                    o["mem"] = {"avail": 1e9, "drop": rng.choice([6e8, 9.9e8, 1e9])}  # may refuse
                elif r < 0.65:
                    o["alloc"] = True  # allocating one block for all of them fails
        o["id"] = i
        o["look"] = rng.random() < 0.6  # looking at a vector can load it, which may hide what is wrong with it
        if o["op"] in ("new", "get", "prof", "copy", "logic", "multi"):
            o["fault"] = fault()
        ops.append(o)
    return {"cfg": cfg, "ops": ops, "sched": []}


def simplify(trace):
    yield from drop_faults(trace)
    for k, val in (("short", 0), ("narrow", 0), ("fs", False), ("raw", False), ("wc", False), ("dtype", "str"),
                   ("ncpus", 1)):
        if trace["cfg"][k] != val:
            c = copy.deepcopy(trace)
            c["cfg"][k] = val
            yield c
    for i, o in enumerate(trace["ops"]):
        for k in ("mem", "alloc"):
            if o.get(k):
                c = copy.deepcopy(trace)
                del c["ops"][i][k]
                yield c
        if o["op"] == "multi" and len(o["slots"]) > 1:
            c = copy.deepcopy(trace)
            c["ops"][i]["slots"] = o["slots"][:-1]
            yield c
        if o["op"] == "new" and o["form"] != "raw_u1":
            c = copy.deepcopy(trace)
            c["ops"][i]["form"] = "raw_u1"
            yield c
    yield from shrink_vecs(trace)


# -- execution ------------------------------------------------------------------------------------------------------


class Run:
    def __init__(self, trace, stats):
        self.t, self.stats = trace, stats
        self.prop = trace["prop"]
        cfg = trace["cfg"]
        self.cfg = dict(cfg)
        self.k = host.boot(short=cfg["short"])
        self.k.h.update(json.dumps([cfg, trace["ops"]], sort_keys=True).encode())
        self.fresh_image(cfg["rng"])
        self.slots = {}     # slot -> (Activation, model vector)
        self.nfile = 0
        self.ever = []      # every model vector that existed (or was about to)

    def fresh_image(self, seed):
        self.im = host.Image(seed, self.cfg["narrow"])
        self.A = self.im.Activation
        self.apply_cfg()

    def apply_cfg(self):
        A, c = self.A, self.cfg
        A.DTYPE = str if c["dtype"] == "str" else np.ndarray
        A.WILL_COMPARE, A.STORE_RAW, A.FORCE_STAT, A.NCPUS = c["wc"], c["raw"], c["fs"], c["ncpus"]

    def check_cfg(self, where):
        A, c = self.A, self.cfg
        got = (A.DTYPE is str, A.WILL_COMPARE, A.STORE_RAW, A.FORCE_STAT)
        want = (c["dtype"] == "str", c["wc"], c["raw"], c["fs"])
        if got != want:
            raise Violation("settings-changed", f"{where}: class settings (compressed as str, will_compare, store_raw, "
                                                f"force_stat) are {got}, the user set {want}")

    # every operation returns (fired, outcome) where outcome is ("ok", value) or ("err", exception) or ("crash",)
    def call(self, o, fn):
        self.k.begin_op(o["id"], o.get("fault"))
        try:
            with host.guest():
                out = ("ok", fn())
        except SimCrash:
            out = ("crash", None)
        except NoProgress as e:
            raise Violation("no-progress", f"op {_short(o)}: {e}")
        except Exception as e:
            out = ("err", e)
        fired = self.k.end_op()
        if self.k.me.dead:
            out = ("crash", None)
        return fired, out

    def unexpected(self, o, e, what=""):
        raise Violation(f"error:{o['op']}:{o.get('f') or o.get('view') or o.get('form') or ''}:{type(e).__name__}",
                        f"op {_short(o)} {what} raised {type(e).__name__}: {e} although nothing failed")

    def settle(self, o, fired, out):
        """Common treatment. Returns (True, value) if the operation produced a value."""
        tag, val = out
        if tag == "crash":
            self.stats.d["crashes"] += 1
            self.restart(o)
            return False, None
        if tag == "err":
            if not fired:
                self.unexpected(o, val)
            self.after_fault(o)
            return False, None
        return True, val

    def after_fault(self, o):
        """A fault was reported to the caller. Everything that existed before has to be there, unchanged."""
        self.check_cfg(f"after the failed op {_short(o)}")
        for s, (a, v) in sorted(self.slots.items()):
            if s != o.get("lost") and (s == o.get("slot") or o.get("look", True)):
                audit(a, v, self.stats, f"slot {s} after op {_short(o)} failed", self.prop,
                      views=["raw", "len", "nones", "as_bitarray", "as_compressed_str", "entropy"], order=o["id"] + s)

    def restart(self, o):
        """The process was killed. RAM is gone; what a returned constructor had put on disk is still readable."""
        paths = {}
        for s, (a, v) in self.slots.items():
            if a.data_format == "file":
                paths[s] = (a.data, v)
        self.slots = {}
        self.k.actors[0].dead = False
        self.k.actors[0].fault = None
        self.fresh_image(self.cfg["rng"] + 1)
        for s, (p, v) in sorted(paths.items()):
            with host.guest():
                try:
                    a = self.A(Path(str(p)), lasy=bool(s % 2), to_file=True)
                except Exception as e:
                    raise Violation(f"lost-after-crash:{type(e).__name__}",
                                    f"slot {s} was stored in {p} before the process died in op {_short(o)}; opening "
                                    f"it afterwards raised {type(e).__name__}: {e}")
            audit(a, v, self.stats, f"slot {s} reopened after a crash in op {_short(o)}", self.prop, order=o["id"] + s)
            self.slots[s] = (a, v)
        # whatever else lies in the directory: complete, or refused
        for p in sorted(self.k.fs.tree()):
            if "ACTIVATION_VECTOR_" in p and p.endswith(".txt"):
                with host.guest():
                    try:
                        got = self.A(Path(p), to_file=False).raw
                    except Exception:
                        continue
                self.stats.d["checks"] += 1
                if not any(same_raw(got, v) for v in self.ever):
                    raise Violation("torn-accepted", f"after a crash in op {_short(o)} the file {p} was read as "
                                                     f"{show(got)}, which no vector ever was")

    def put(self, slot, a, v):
        self.slots[slot] = (a, v)

    def shape(self, o, a):
        self.stats.shapes.add(f"{o['op']}/{o.get('f') or o.get('form') or o.get('view') or ''}/"
                              f"{getattr(a, 'data_format', None)}/{getattr(a, 'optimize', None)}")

    # -- operations -----------------------------------------------------------------
    def op_new(self, o):
        v = make_vec(o["vec"])
        self.ever.append(v)
        A, form = self.A, o["form"]
        kw = {"optimize": o["opt"], "to_file": o["file"]}
        n = len(v)
        if form == "carr" and n == 1:
            form = "raw_u1"  # a compressed array of a one point vector cannot be told from a raw vector
        if form.startswith("raw_"):
            arg = v.astype({"u1": np.ubyte, "i8": np.int64, "bool": bool, "f8": float}[form[4:]])
        elif form == "bitarray":
            arg = bitarray(v.tolist())
        elif form == "int":
            arg = m_int(v)
            kw["length"] = n
        elif form == "cstr":
            arg = ",".join(map(str, m_compressed(v)))
        elif form == "carr":
            arg = np.array(m_compressed(v), dtype=["int32", "int64"][o["id"] % 2])
        elif form == "bitstr":
            arg = "".join(map(str, v.tolist()))
        else:
            self.nfile += 1
            p = f"{host.TMP}/input_{self.nfile}.npy"
            import io
            b = io.BytesIO()
            np.save(b, v)
            self.k.fs.poke(p, b.getvalue())
            arg = p if form == "pathstr" else Path(p)
            kw["lasy"] = form == "lasy"
        fired, out = self.call(o, lambda: A(arg, **kw))
        ok, a = self.settle(o, fired, out)
        if not ok:
            return
        self.put(o["slot"], a, v)
        self.shape(o, a)
        if fired:
            audit(a, v, self.stats, f"vector built by {_short(o)} although a fault hit it", self.prop, order=o["id"])

    def op_get(self, o):
        if o["slot"] not in self.slots:
            return
        a, v = self.slots[o["slot"]]
        fired, out = self.call(o, lambda: view(a, o["view"]))
        ok, got = self.settle(o, fired, out)
        self.shape(o, a)
        if not ok:
            return
        bad = compare_view(o["view"], got, v)
        self.stats.d["checks"] += 1
        if bad:
            raise Violation(f"wrong:{o['view']}", f"op {_short(o)}: {bad}")

    def op_prof(self, o):
        if o["slot"] not in self.slots:
            return
        a, v = self.slots[o["slot"]]
        before = set(self.k.fs.tree())
        fired, out = self.call(o, lambda: getattr(a, o["view"]))
        ok, got = self.settle(o, fired, out)
        self.shape(o, a)
        if not ok:
            return
        if not isinstance(got, (int, float, np.integer, np.floating)):
            raise Violation("profile-not-a-number", f"{o['view']} returned {got!r}")
        audit(a, v, self.stats, f"after asking for {o['view']}", self.prop,
              views=["raw", "nones", "len", "as_compressed_str"], order=o["id"])

    def op_copy(self, o):
        if o["slot"] not in self.slots:
            return
        a, v = self.slots[o["slot"]]
        fired, out = self.call(o, lambda: copy.copy(a))
        ok, b = self.settle(o, fired, out)
        self.shape(o, a)
        if ok:
            if o.get("look", True):
                audit(b, v, self.stats, f"copy made by {_short(o)}", self.prop, order=o["id"])
                audit(a, v, self.stats, f"original after {_short(o)}", self.prop, order=o["id"])
            if o["to"] != o["slot"]:
                self.put(o["to"], b, v)

    def op_clear(self, o):
        if o["slot"] not in self.slots:
            return
        a, v = self.slots[o["slot"]]
        self.ever.append(np.zeros(len(v), dtype=np.ubyte))
        fired, out = self.call(o, a.clear)
        ok, _ = self.settle(o, fired, out)
        if ok:
            z = np.zeros(len(v), dtype=np.ubyte)
            self.put(o["slot"], a, z)
            self.shape(o, a)

    def op_cfg(self, o):
        val = o["val"]
        self.cfg[o["key"]] = ("str" if val else "arr") if o["key"] == "dtype" else val
        self.apply_cfg()

    def op_jump(self, o):
        self.k.clock += o["dt"]

    def op_reseed(self, o):
        self.im.seed(o["s"])

    def op_audit(self, o):
        if o["slot"] in self.slots:
            a, v = self.slots[o["slot"]]
            with host.guest():
                audit(a, v, self.stats, f"slot {o['slot']}", self.prop, order=o["id"])

    def op_logic(self, o):
        if o["slot"] not in self.slots or o["b"] not in self.slots:
            return
        (a, va), (b, vb) = self.slots[o["slot"]], self.slots[o["b"]]
        f = o["f"]
        fn = {"and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b, "add": lambda: a + b,
              "sub": lambda: a - b, "contains": lambda: b in a, "corr": lambda: a.get_correlation(b)}[f]
        if len(va) != len(vb):
            fired, out = self.call(o, fn)
            if out[0] == "crash":
                self.settle(o, fired, out)
            elif out[0] == "ok":
                raise Violation("length-mismatch-accepted", f"op {_short(o)} on lengths {len(va)} and {len(vb)}")
            return
        want = {"and": va & vb, "or": va | vb, "xor": va ^ vb, "add": va | vb, "sub": va & (1 - vb)}.get(f)
        if want is not None:
            self.ever += [want, va ^ vb]
        self.ever.append(va & vb)
        fired, out = self.call(o, fn)
        ok, got = self.settle(o, fired, out)
        self.stats.shapes.add(f"{f}/{a.data_format}/{b.data_format}")
        if not ok:
            return
        self.stats.d["checks"] += 1
        if f == "contains":
            w = bool(((va & vb) == vb).all())
            if bool(got) != w:
                raise Violation("wrong:contains", f"{show(vb)} in {show(va)} answered {got}, want {w}")
        elif f == "corr":
            w = float((va == vb).sum()) / len(va)
            if abs(got - w) > 1e-12:
                raise Violation("wrong:correlation", f"{got} want {w}")
        else:
            with host.guest():
                audit(got, want, self.stats, f"result of op {_short(o)} on {show(va)} and {show(vb)}", self.prop,
                      order=o["id"])
                audit(a, va, self.stats, f"left operand after op {_short(o)}", self.prop, views=["raw", "nones"])
                audit(b, vb, self.stats, f"right operand after op {_short(o)}", self.prop, views=["raw", "nones"])
            if o["to"] not in (o["slot"], o["b"]) and got is not a and got is not b:
                self.put(o["to"], got, want)

    def op_multi(self, o):
        if any(s not in self.slots for s in o["slots"]) or not o["slots"]:
            return
        acs = [self.slots[s][0] for s in o["slots"]]
        vs = [self.slots[s][1] for s in o["slots"]]
        f = o["f"]
        if len({len(v) for v in vs}) != 1:
            fired, out = self.call(o, lambda: getattr(self.A, f"multi_logical_{f}")(acs, o["arr"]))
            if out[0] == "crash":
                self.settle(o, fired, out)
            elif out[0] == "ok":
                raise Violation("length-mismatch-accepted", f"op {_short(o)} on lengths {[len(v) for v in vs]}")
            return
        st = np.vstack(vs)
        if f == "and":
            want = st.all(axis=0).astype(np.ubyte)
        elif f == "or":
            want = st.any(axis=0).astype(np.ubyte)
        elif len(vs) == 1:
            want = vs[0]
        else:
            want = (st.any(axis=0) & ~st.all(axis=0)).astype(np.ubyte)
        self.ever.append(want)
        fn = getattr(self.A, f"multi_logical_{f}")
        mem = o.get("mem")
        self.im.mem.set(**mem) if mem else self.im.mem.set()
        alloc = None
        if o.get("alloc"):
            alloc = Alloc()
            host.World.np_hook = alloc
        try:
            fired, out = self.call(o, lambda: fn(acs, o["arr"]))
        finally:
            host.World.np_hook = None
            self.im.mem.set()
        if mem:
            self.stats.bump("faults_fired", "low_memory")
        if alloc and alloc.fired:
            self.stats.bump("faults_fired", "alloc_failure", alloc.fired)
        if out[0] == "err" and isinstance(out[1], MemoryError) and mem and mem["avail"] < 2 * mem["drop"]:
            self.after_fault(o)
            return
        ok, got = self.settle(o, fired, out)
        if not ok:
            return
        self.stats.d["checks"] += 1
        self.stats.shapes.add(f"multi_{f}/{len(vs)}/{'/'.join(sorted({a.data_format for a in acs}))}/"
                              f"{bool(mem)}/{bool(alloc)}")
        if o["arr"]:
            if not same_raw(got, want):
                raise Violation("wrong:multi", f"op {_short(o)} of {[show(v) for v in vs]} returned {got!r}, want "
                                               f"{show(want)}")
            return
        with host.guest():
            audit(got, want, self.stats, f"result of op {_short(o)}", self.prop, order=o["id"])
            for a, v in zip(acs, vs):
                audit(a, v, self.stats, f"operand after op {_short(o)}", self.prop, views=["raw", "nones"])
        if o["to"] not in o["slots"]:
            self.put(o["to"], got, want)

    def run(self):
        for o in self.t["ops"]:
            self.stats.d["ops"] += 1
            self.stats.bump("op_kinds", o["op"])
            getattr(self, "op_" + o["op"])(o)
            self.check_cfg(f"after op {_short(o)}")
        for s, (a, v) in sorted(self.slots.items()):
            with host.guest():
                audit(a, v, self.stats, f"slot {s} at the end", self.prop, order=self.cfg["rng"] + s)
        self.stats.bump("cfg", f"dtype={self.t['cfg']['dtype']}")
        for n in ("wc", "raw", "fs"):
            if self.t["cfg"][n]:
                self.stats.bump("cfg", n)
        self.stats.kernel(self.k)
        return self.k.digest()


def run(trace, stats):
    return Run(trace, stats).run()
