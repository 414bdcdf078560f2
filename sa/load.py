"""Loads the MIR dump and precomputes per-body control-flow facts."""
import json
from collections import defaultdict


class Body:
    __slots__ = ("id", "j", "blocks", "locals", "argc", "coroutine", "file", "line", "live_in", "live_after", "rpo", "join", "loops", "borrowed", "name", "ext", "_x")

    def __init__(self, j, prog, ext=False):
        self.j = j
        self.id = j["id"]
        self.blocks = j["blocks"]
        self.locals = j["locals"]
        self.argc = j["argc"]
        self.coroutine = j["coroutine"]
        self.file = j["file"]
        self.line = j["line"]
        self.ext = ext
        self.live_in = None



def _succ(t):
    k = t["k"]
    if k == "goto":
        return [t["t"]]
    if k == "switch":
        return [c[1] for c in t["c"]] + [t["d"]]
    if k in ("call", "drop", "assert", "yield"):
        return [t["t"]] if t["t"] is not None else []
    return []


def _uses_place(p, out, as_def=False):
    l = p[0]
    if as_def and not p[1]:
        pass
    else:
        out.add(l)
    for e in p[1]:
        if e != "*" and e[0] == "i":
            out.add(e[1])


def _uses_op(o, out):
    if o["k"] in ("copy", "move"):
        _uses_place(o["p"], out)


def rvalue_ops(r):
    k = r[0]
    if k in ("use",):
        return [r[1]]
    if k == "repeat":
        return [r[1]]
    if k == "cast":
        return [r[2]]
    if k == "bin":
        return [r[2], r[3]]
    if k == "un":
        return [r[2]]
    if k == "agg":
        return r[2]
    return []


def rvalue_place(r):
    if r[0] == "ref":
        return r[2]
    if r[0] == "discr":
        return r[1]
    return None


def analyse(b, interesting_drop):
    """liveness, reverse post-order, join points"""
    blocks = b.blocks
    n = len(blocks)
    succ = [[] for _ in range(n)]
    for i, bl in enumerate(blocks):
        if bl["cl"]:
            continue
        succ[i] = [s for s in _succ(bl["t"]) if not blocks[s]["cl"]]
    # reachable, rpo
    order, seen = [], set()
    stack = [(0, iter(succ[0]))]
    seen.add(0)
    back = set()
    onpath = {0}
    while stack:
        v, it = stack[-1]
        for w in it:
            if w in onpath:
                back.add(w)
            if w not in seen:
                seen.add(w)
                onpath.add(w)
                stack.append((w, iter(succ[w])))
                break
        else:
            stack.pop()
            onpath.discard(v)
            order.append(v)
    order.reverse()
    b.rpo = {v: i for i, v in enumerate(order)}
    preds = defaultdict(int)
    for v in order:
        for w in set(succ[v]):
            preds[w] += 1
    b.join = {v for v in order if preds[v] > 1 or v in back}
    b.loops = bool(back)
    # borrowed locals
    borrowed = set()
    for v in order:
        for s in blocks[v]["s"]:
            if s[0] == "=" and s[2][0] == "ref":
                p = s[2][2]
                if "*" not in p[1]:
                    borrowed.add(p[0])
    b.borrowed = borrowed
    # storage liveness for borrowed locals: live from StorageLive/first def until StorageDead (forward may)
    use, dfn = {}, {}
    stor_gen, stor_kill = {}, {}
    for v in order:
        u, d = set(), set()
        sg, sk = set(), set()
        bl = blocks[v]
        for s in bl["s"]:
            if s[0] == "=":
                uu = set()
                for o in rvalue_ops(s[2]):
                    _uses_op(o, uu)
                rp = rvalue_place(s[2])
                if rp:
                    _uses_place(rp, uu)
                if s[1][1]:
                    _uses_place(s[1], uu)
                u |= uu - d
                if not s[1][1]:
                    d.add(s[1][0])
                    sg.add(s[1][0])
                    sk.discard(s[1][0])
            elif s[0] == "sd":
                u |= {s[1][0]} - d
            elif s[0] == "dead":
                sk.add(s[1])
                sg.discard(s[1])
                d.add(s[1])
        t = bl["t"]
        uu = set()
        k = t["k"]
        if k == "switch":
            _uses_op(t["o"], uu)
        elif k == "call":
            _uses_op(t["f"], uu)
            for a in t["a"]:
                _uses_op(a, uu)
            if t["p"][1]:
                _uses_place(t["p"], uu)
        elif k == "drop":
            if interesting_drop(b, t["p"]):
                _uses_place(t["p"], uu)
        elif k == "assert":
            _uses_op(t["c"], uu)
        elif k == "yield":
            _uses_op(t["v"], uu)
        elif k == "return":
            uu.add(0)
        u |= uu - d
        use[v], dfn[v] = u, d
        stor_gen[v], stor_kill[v] = sg, sk
    live_in = {v: set() for v in order}
    live_out = {v: set() for v in order}
    changed = True
    while changed:
        changed = False
        for v in reversed(order):
            lo = set()
            for w in succ[v]:
                lo |= live_in[w]
            t = blocks[v]["t"]
            lo2 = set(lo)
            if t["k"] == "call" and not t["p"][1]:
                lo2.discard(t["p"][0])
            if t["k"] == "yield" and not t["ra"][1]:
                lo2.discard(t["ra"][0])
            li = use[v] | (lo2 - dfn[v])
            if lo != live_out[v] or li != live_in[v]:
                live_out[v], live_in[v] = lo, li
                changed = True
    # borrowed: forward
    bin_, bout = {v: set() for v in order}, {v: set() for v in order}
    args = set(range(1, b.argc + 1))
    bin_[0] = args & borrowed
    preds_l = defaultdict(list)
    for v in order:
        for w in succ[v]:
            preds_l[w].append(v)
    changed = True
    while changed:
        changed = False
        for v in order:
            i = set(bin_[0]) if v == 0 else set()
            for p in preds_l[v]:
                i |= bout[p]
            o = (i - stor_kill[v]) | (stor_gen[v] & borrowed)
            t = blocks[v]["t"]
            if t["k"] == "call" and not t["p"][1] and t["p"][0] in borrowed:
                o.add(t["p"][0])
            if i != bin_[v] or o != bout[v]:
                bin_[v], bout[v] = i, o
                changed = True
    b.live_in = {v: live_in[v] | (bin_[v] & borrowed) for v in order}
    # live while a call terminator of v is pending (dest excluded)
    b.live_after = {}
    for v in order:
        t = blocks[v]["t"]
        lo = set(live_out[v]) | (bout[v] & borrowed)
        if t["k"] == "call" and not t["p"][1] and t["p"][0] not in bin_[v]:
            lo.discard(t["p"][0])
        if t["k"] == "call" and t["p"][1]:
            lo.add(t["p"][0])
        b.live_after[v] = lo


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        if d["skipped"]:
            from .engine import AnalysisError
            raise AnalysisError("no MIR for " + ", ".join(d["skipped"][:5]))
        self.crate = d["crate"]
        self.types = d["types"]
        self.adts = d["adts"]
        self.bodies = {}
        self.ext = {}
        for j in d["bodies"]:
            self.bodies[j["id"]] = Body(j, self)
        for j in d["ext"]:
            self.ext[j["id"]] = Body(j, self, True)
        self.trait_impls = defaultdict(list)   # (trait, method) -> [body]
        for b in self.bodies.values():
            j = b.j
            if "impl_trait" in j and "name" in j and "parent" not in j:
                self.trait_impls[(j["impl_trait"], j["name"])].append(b)
        self.drop_adts = set()
        for (tr, m), bs in self.trait_impls.items():
            if tr.endswith("::Drop"):
                for b in bs:
                    t = self.types[b.j["impl_self"]]
                    if t["k"] == "adt":
                        self.drop_adts.add(t["d"])

    def ty(self, i):
        return self.types[i]

    def interesting_drop(self, b, p):
        s = self.types[p[2]]
        if "Guard" in s["s"]:
            return True
        return s["k"] == "adt" and s["d"] in self.drop_adts

    def prep(self, b):
        if b.live_in is None:
            analyse(b, self.interesting_drop)
        return b

    def field_index(self, adt, name, variant=0):
        a = self.adts.get(adt)
        if not a:
            return None
        fs = a["v"][variant]["f"]
        return fs.index(name) if name in fs else None

    def find_adt(self, suffix):
        r = [k for k in self.adts if k == suffix or k.endswith("::" + suffix)]
        return r[0] if len(r) == 1 else None

    def root_of(self, bid):
        """the named function a closure or coroutine body belongs to"""
        b = self.bodies.get(bid)
        while b is not None and "parent" in b.j:
            bid = b.j["parent"]
            b = self.bodies.get(bid)
        return bid
