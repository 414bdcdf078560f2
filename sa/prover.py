"""Entailment of linear inequalities between value terms (the numeric part of the abstract domain).

The inequalities are a convex polyhedron over the numeric atoms of the abstract state; entailment is
emptiness of its intersection with the negated goal (simplex over rationals), with case splits on
min/max/saturating subtraction/remainder where a counterexample contradicts their meaning."""
from fractions import Fraction
from .terms import *

SPLIT = ("min", "max", "satsub", "rem")


def atoms_of(lin):
    return lin_parts(lin)[1].keys()


def axioms(atom):
    """inequalities (<= 0) that hold for an atom by its meaning"""
    out = []
    if atom.op == "f":
        n = atom.args[0]
        if n == "min":
            out += [sub(atom, atom.args[1]), sub(atom, atom.args[2])]
        elif n == "max":
            out += [sub(atom.args[1], atom), sub(atom.args[2], atom)]
        elif n == "satsub":
            out += [sub(atom, atom.args[1]), sub(sub(atom.args[1], atom.args[2]), atom)]
        elif n == "rem":
            out += [sub(atom, atom.args[1]), add(sub(atom, atom.args[2]), C(1))]
    return out


def cases(atom):
    """[(replacement or None, [inequalities])] covering every value of the atom"""
    n, a = atom.args[0], atom.args[1:]
    if n == "min":
        return [(a[0], [sub(a[0], a[1])]), (a[1], [add(sub(a[1], a[0]), C(1))])]
    if n == "max":
        return [(a[0], [sub(a[1], a[0])]), (a[1], [add(sub(a[0], a[1]), C(1))])]
    if n == "satsub":
        return [(sub(a[0], a[1]), [sub(a[1], a[0])]), (ZERO, [add(sub(a[0], a[1]), C(1))])]
    if n == "rem":
        x, m = a
        return [(x, [add(sub(x, m), C(1))]),
                (sub(x, m), [sub(m, x), add(sub(x, scale(m, 2)), C(1))]),
                (None, [sub(scale(m, 2), x)])]


class Budget(Exception):
    pass


_clo = {}


def closure(lin):
    """the atoms of a linear term and of the meaning of its atoms"""
    r = _clo.get(lin)
    if r is None:
        if len(_clo) > 100000:
            _clo.clear()
        at = {}
        todo = list(atoms_of(lin))
        while todo:
            a = todo.pop()
            if a in at:
                continue
            at[a] = 1
            for x in axioms(a):
                todo += list(atoms_of(x))
        r = _clo[lin] = frozenset(at)
    return r


def closure_of(a):
    """the atoms an atom is made of"""
    r = set()
    for x in a.args[1:]:
        if isinstance(x, T):
            r |= closure(x)
    return r


_memo = {}
_models = {}


def byid(a):
    return a.id


def trivial(l):
    """l <= 0 because no atom can be negative"""
    c, d = lin_parts(l)
    if c > 0:
        return False
    for a, k in d.items():
        if k > 0 or a.signed:
            return False
    return True


def entails(ineqs, goal, splits=3):
    """do the inequalities (each <= 0) imply goal <= 0?"""
    c, d = lin_parts(goal)
    if not d:
        if c <= 0:
            return True
    elif trivial(goal):
        return True
    for f in ineqs:
        if f is goal:
            return True
    key = (frozenset(ineqs), goal)
    r = _memo.get(key)
    if r is None:
        if len(_memo) > 300000:
            _memo.clear()
        r = _memo[key] = _entails(ineqs, goal)
    return r


def relevant(ineqs, goal):
    """facts connected to the goal through shared atoms"""
    want = set(closure(goal))
    out, rest = [], [(f, closure(f)) for f in ineqs]
    while True:
        nxt = []
        changed = False
        for f, fa in rest:
            if fa.isdisjoint(want):
                nxt.append((f, fa))
            else:
                out.append(f)
                want |= fa
                changed = True
        rest = nxt
        if not changed or not rest:
            return out


def _entails(ineqs, goal):
    if atoms_of(goal):
        ineqs = relevant(ineqs, goal)
    for f in ineqs:
        if trivial(sub(goal, f)):
            return True
    mk_ = frozenset(ineqs)
    ms = _models.get(mk_)
    if ms is None:
        if len(_models) > 50000:
            _models.clear()
        ms = _models[mk_] = []
    c, d = lin_parts(goal)
    for m in ms:
        try:
            v = c
            for a, k in d.items():
                v += k * m[a]
        except KeyError:
            continue
        if v >= 1:
            return False
    try:
        m = refute(list(ineqs), goal, 6, [40])
    except Budget:
        # too many cases: only the facts about the same quantities
        near = closure(goal)
        near = near | {a for f in ineqs for a in closure(f) if a.op == "f" and a.args[0] in SPLIT and closure_of(a) <= near}
        core = [f for f in ineqs if closure(f) <= near]
        if len(core) == len(ineqs):
            return False
        try:
            return refute(core, goal, 6, [40]) is None
        except Budget:
            return False
    if m is None:
        return True
    if len(ms) < 6:
        ms.append(m)
    return False


def refute(facts, goal, depth, budget):
    """an assignment with facts <= 0 and goal >= 1 (None: there is none)"""
    budget[0] -= 1
    if budget[0] < 0:
        raise Budget()
    cons = list(facts) + [add(scale(goal, -1), C(1))]
    at = set()
    for f in cons:
        at |= closure(f)
    at = sorted(at, key=byid)
    for a in at:
        cons += axioms(a)
    m = feasible(cons)
    if m is None:
        return None
    for a in at:
        m.setdefault(a, 0)
    if depth == 0:
        return m
    # an atom whose value contradicts its meaning?
    bad, bk, near = None, None, closure(goal)
    for a in at:
        if a.op == "f" and a.args[0] in SPLIT and not meaning(a, m):
            k = (a not in near, len(subterms(a)), a.id)
            if bad is None or k < bk:
                bad, bk = a, k
    if bad is None:
        return m
    for rep, extra in cases(bad):
        if rep is not None:
            mp = {bad: rep}
            f2 = [subst(f, mp) for f in facts] + [subst(x, mp) for x in extra]
            g2 = subst(goal, mp)
        else:
            f2 = list(facts) + list(extra)
            g2 = goal
        r = refute(f2, g2, depth - 1, budget)
        if r is not None:
            return r
    return None


_samples = {}


def samples(ineqs):
    """a few assignments that satisfy the inequalities (used to discard candidates quickly)"""
    key = frozenset(ineqs)
    r = _samples.get(key)
    if r is not None:
        return r
    if len(_samples) > 50000:
        _samples.clear()
    r = []
    ineqs = sorted(key, key=byid)
    at = set()
    for f in ineqs:
        at |= closure(f)
    at = sorted(at, key=lambda a: a.id)
    for seed in (3, 7, 11):
        extra = [sub(C(1 + (i * seed + seed) % 13), a) for i, a in enumerate(at) if (i * seed) % 3 != 1]
        try:
            while True:
                m = refute(ineqs + extra, C(1), 4, [12])
                if m is not None or not extra:
                    break
                extra = extra[::2] if len(extra) > 1 else []
        except Budget:
            continue
        if m is not None:
            r.append(m)
    _samples[key] = r
    return r


def possible(ineqs, goal):
    """could goal <= 0 be entailed? (False: no)"""
    c0, d = lin_parts(goal)
    for i, m in enumerate(samples(ineqs)):
        v = c0
        for a, k in d.items():
            x = m.get(a)
            if x is None:
                x = 2 + (a.id * (5 + i)) % 17
                if a.op == "f" and a.args[0] in SPLIT:
                    v = 0
                    break
            v += k * x
        if v > 0:
            return False
    return True


def val(lin, m):
    c, d = lin_parts(lin)
    for a, k in d.items():
        c += k * m.get(a, 0)
    return c


def meaning(a, m):
    n = a.args[0]
    v = m.get(a, 0)
    x, y = val(a.args[1], m), val(a.args[2], m)
    if n == "min":
        return v == min(x, y)
    if n == "max":
        return v == max(x, y)
    if n == "satsub":
        return v == max(0, x - y)
    if n == "rem":
        return y <= 0 or x >= 2 * y or v == x % y
    return True


def feasible(cons):
    """a rational solution of the constraints (each <= 0; unsigned atoms >= 0), or None"""
    order = {}
    rows = {}
    n = 0
    names = []

    def var(a):
        i = order.get(a)
        if i is None:
            i = order[a] = len(names)
            names.append(a)
            names.append(a)      # the second one is the negative part of a signed atom
        return i

    base = []
    for f in cons:
        c, d = lin_parts(f)
        if not d:
            if c > 0:
                return None
            continue
        r = {}
        for a, k in d.items():
            i = var(a)
            r[i] = -k
            if a.signed:
                r[i + 1] = k
        base.append((-c, r))
    off = len(names)
    rows = {off + i: [b, r] for i, (b, r) in enumerate(base)}
    it = 0
    while True:
        low = None
        for v, row in rows.items():
            if row[0] < 0 and (low is None or v < low):
                low = v
        if low is None:
            break
        it += 1
        if it > 400:
            raise Budget()
        b, r = rows[low]
        ent = None
        for v, k in r.items():
            if k > 0 and (ent is None or v < ent):
                ent = v
        if ent is None:
            return None
        k = r[ent]
        # ent = (low - b - rest) / k
        nr = {}
        if k == 1:
            nb = -b
            for v, x in r.items():
                if v != ent:
                    nr[v] = -x
            nr[low] = 1
        else:
            q = Fraction(1, 1) / k
            nb = -b * q
            for v, x in r.items():
                if v != ent:
                    nr[v] = -x * q
            nr[low] = q
        del rows[low]
        for v, row in rows.items():
            x = row[1].pop(ent, 0)
            if x:
                row[0] += x * nb
                rr = row[1]
                for u, y in nr.items():
                    z = rr.get(u, 0) + x * y
                    if z:
                        rr[u] = z
                    else:
                        rr.pop(u, None)
        rows[ent] = [nb, nr]
    m = {}
    for a, i in order.items():
        x = rows[i][0] if i in rows else 0
        if a.signed and i + 1 in rows:
            x -= rows[i + 1][0]
        m[a] = x
    return m


def mkmin(a, b):
    if a is b:
        return a
    if a.op == "c" and b.op == "c":
        return C(min(a.args[0], b.args[0]))
    if a.id > b.id:
        a, b = b, a
    return App("min", a, b)


def mkmax(a, b):
    if a is b:
        return a
    if a.op == "c" and b.op == "c":
        return C(max(a.args[0], b.args[0]))
    if a.id > b.id:
        a, b = b, a
    return App("max", a, b)


def mksatsub(a, b):
    if a is b:
        return ZERO
    if b is ZERO:
        return a
    if a.op == "c" and b.op == "c":
        return C(max(0, a.args[0] - b.args[0]))
    return App("satsub", a, b)


def mkrem(x, m):
    if x.op == "c" and m.op == "c" and m.args[0]:
        return C(x.args[0] % m.args[0])
    if x.op == "f" and x.args[0] == "rem" and x.args[2] is m:
        return x
    return App("rem", x, m)
