"""What is computed: every arithmetic value a function hands on, as a polynomial over what it was computed from.

Sums, differences, products and constants are expanded; other operators (division, masks, saturating and wrapping
forms, minimum, …) stay as named terms over expanded operands.  Two versions of a function are compared only where
both compute something from the same ingredients with the same operators: there, the formulas must agree."""
import re
from collections import defaultdict
from ax import canon, callee_key
from norm import is_std, lastseg, OPM, NARROW, IGNORE_CALL
from compare import cl, ls

NEST = set("saturating_sub saturating_add saturating_mul wrapping_add wrapping_sub wrapping_mul min max abs_diff div_ceil next_multiple_of pow rem_euclid div_euclid leading_zeros trailing_zeros ilog2 isqrt rotate_left rotate_right".split())
SYM = {"min", "max", "saturating_add", "wrapping_add", "wrapping_mul", "saturating_mul", "abs_diff", "BitAnd", "BitOr", "BitXor"}
CMP = {"Lt": 0, "Le": 0, "Gt": 0, "Ge": 0, "Eq": 1, "Ne": 1}
NUM = set(NARROW)


class Ar:
    def __init__(self, nf):
        self.nf = nf
        self.memo = {}
        self.base = {}  # term -> what it is made of

    # a value: (dict monomial -> coefficient, was anything computed)
    def op(self, o, depth=0):
        nf = self.nf
        if o[0] == "k":
            k = o[1]
            if "v" in k and k["t"] in NUM and not ("n" in k and k["n"]):
                try:
                    v = int(k["v"])
                    return ({(): v} if v else {}), False
                except ValueError:
                    pass
            return self.leaf(frozenset(nf._const(k))), False
        return self.place(o[1], depth)

    def leaf(self, s, which=""):
        # things that change or are picked by an index are told apart here, though not by name
        s = cl(frozenset(s))
        t = ls(s) + (which + "\0" if which else "")
        self.base[t] = s
        return {(t,): 1}

    def place(self, p, depth):
        nf = self.nf
        q = nf.resolve_place(p) if p[1] else p
        pr = nf._norm_proj(q[1])
        l = q[0]
        tup = pr == (("tuple", "0"),)
        if depth < 40 and (not pr or tup) and l > nf.argc:
            k = (l, tup)
            if k in self.memo:
                r = self.memo[k]
                if r is not None:
                    return r
                return self.leaf(nf.leaves_place(q)), False
            self.memo[k] = None
            ds = [d for d in nf.D.get(l, [])]
            if len(ds) == 1 and not ds[0][3] and ds[0][1] in ("rv", "call"):
                r = self.rv(ds[0][2], tup, depth) if ds[0][1] == "rv" else None if tup else self.call(ds[0][2], depth)
                if r is not None:
                    self.memo[k] = r
                    return r
            r = self.memo[k] = self.leaf(nf.leaves_place(q), "" if len(ds) == 1 else f"\0{l}"), False
            return r
        return self.leaf(nf.leaves_place(q), f"\0{l}{pr}" if any(x[0] in ("[]", "closure") for x in pr) else ""), False

    def rv(self, r, tup, depth):
        k = r[0]
        if k == "bin":
            op = r[1].replace("WithOverflow", "").replace("Unchecked", "")
            if tup != ("WithOverflow" in r[1]):
                return None
            if op in CMP or op in ("Cmp", "Offset"):
                return None
            return self.bin(op, self.op(r[2], depth + 1)[0], self.op(r[3], depth + 1)[0]), True
        if tup:
            return None
        if k == "use":
            return self.op(r[1], depth + 1)
        if k == "cast":
            if r[3] in NUM and r[2][0] in ("c", "m") and self.nf._ty_of(r[2][1]) in NUM and (self.nf._ty_of(r[2][1])[0] == "f") == (r[3][0] == "f"):
                return self.op(r[2], depth + 1)
            return None
        if k == "un" and r[1] == "Neg":
            return self.bin("Sub", {}, self.op(r[2], depth + 1)[0]), True
        if k == "un" and r[1] == "Not" and r[2][0] in ("c", "m") and self.nf._ty_of(r[2][1]) in NUM:
            return self.nest("Not", [self.op(r[2], depth + 1)[0]]), True
        return None

    def call(self, t, depth):
        fd = t[1].get("fn")
        if not fd:
            return None
        c, pth = canon(callee_key(fd)), canon(fd["p"])
        if not (is_std(c) or is_std(pth)) or self.nf.locals[t[3][0]] not in NUM:
            return None
        seg = lastseg(c)
        if fd.get("r") and not is_std(c):
            return None
        if seg in OPM and "ops" in pth and len(t[2]) in (1, 2):
            a = [self.deref(x, depth + 1) for x in t[2]]
            if None in a:
                return None
            op = OPM[seg]
            if op == "Neg":
                return self.bin("Sub", {}, a[0]), True
            if op == "Not":
                return self.nest("Not", a), True
            return self.bin(op, a[0], a[1]), True
        if seg in NEST:
            return self.nest(seg, [self.op(x, depth + 1)[0] for x in t[2]]), True
        if seg in ("into", "from", "clone", "try_into", "try_from") and len(t[2]) == 1:
            if t[2][0][0] in ("c", "m") and self.nf._ty_of(t[2][0][1]) in NUM:
                return self.op(t[2][0], depth + 1)
        return None

    def deref(self, o, depth):
        if o[0] in ("c", "m") and self.nf._ty_of(o[1]).startswith("&"):
            return self.place([o[1][0], o[1][1] + ["*"]], depth)[0]
        return self.op(o, depth)[0]

    def bin(self, op, a, b):
        if op in ("Add", "Sub"):
            r = dict(a)
            for m, c in b.items():
                r[m] = r.get(m, 0) + (c if op == "Add" else -c)
                if r[m] == 0:
                    del r[m]
            if len(r) <= 24:
                return r
        if op == "Mul" and len(a) * len(b) <= 24:
            r = defaultdict(int)
            for m, c in a.items():
                for n, d in b.items():
                    r[tuple(sorted(m + n))] += c * d
            return {m: c for m, c in r.items() if c}
        if op == "Shl" and set(b) <= {()} and b.get((), 0) < 40:
            return {m: c << b.get((), 0) for m, c in a.items()}
        if op == "Shr" and set(b) <= {()} and b.get((), 0) < 40:
            op, b = "Div", {(): 1 << b.get((), 0)}
        return self.nest(op, [a, b])

    def nest(self, op, args):
        xs = [show(a) for a in args]
        if op in SYM:
            xs.sort()
        t = f"{op}({', '.join(xs)})"
        if len(t) > 2000:
            t = f"{op}(#{hash(t)})"
        self.base[t] = frozenset({op}).union(*[self.made(a) for a in args])
        return {(t,): 1}

    def made(self, a):
        s = frozenset()
        for m in a:
            for t in m:
                s |= self.base[t]
        return s


WHICH = re.compile(r"(\{[^{}]*\})\0([^\0]*)\0")
MARK = re.compile(r"\0[^\0]*\0")


def show(a, plain=False):
    if not a:
        return "0"
    out = []
    if plain:
        a = {tuple(sorted(MARK.sub("", t) for t in m)): c for m, c in a.items()}
    for m in sorted(a):
        c = a[m]
        if not m:
            out.append(str(c))
        else:
            out.append(("" if c == 1 else "-" if c == -1 else f"{c}*") + "*".join(m))
    return " + ".join(out)


def formulas(F):
    """signature -> {formula} of everything computed here that is not merely part of something else computed here"""
    if hasattr(F, "_formulas"):
        return F._formulas
    nf = F.nf
    A = Ar(nf)
    out, plain = defaultdict(dict), defaultdict(dict)
    A.base["self"] = frozenset({"self"})

    def put(a, line, tag="", me=None, comp=True):
        if me is not None:
            # what is added to, taken from, … a running value
            a = {tuple(sorted("self" if t.endswith(f"\0{me}\0") else t for t in m)): c for m, c in a.items()}
        sig = A.made(a)
        if sig and sum(len(x) for x in sig) < 4000 and "B" not in sig:
            t = show(a)
            seen = {}
            for x, n in WHICH.findall(t):
                if seen.setdefault(x, n) != n:
                    return
            (out if comp else plain)[(tag, sig)].setdefault(show(a, True), line)

    def root(o, line):
        if o[0] not in ("c", "m"):
            return
        ty = nf._ty_of(o[1])
        if ty in NUM or not ty:
            a, comp = A.op(o)
            if comp:
                put(a, line)

    def arithcall(t):
        return A.call(t, 0) is not None

    single = lambda l: l > nf.argc and len(nf.D.get(l, ())) == 1
    for i in sorted(nf.reach):
        ss, t, _ = nf.B[i]
        t = t[1] if t[0] == "rej" else t
        for s in ss:
            if s[0] != "=":
                continue
            p, r, line = s[1], s[2], s[3]
            for e in p[1]:
                if isinstance(e, list) and e[0] == "i":
                    root(["c", [e[1], []]], line)
            for x in r[1:]:
                if isinstance(x, list) and x and x[0] in ("c", "m"):
                    for e in x[1][1]:
                        if isinstance(e, list) and e[0] == "i":
                            root(["c", [e[1], []]], line)
            if r[0] == "ref":
                for e in r[2][1]:
                    if isinstance(e, list) and e[0] == "i":
                        root(["c", [e[1], []]], line)
            k = r[0]
            if k == "bin" and r[1] in CMP:
                ok = all(o[0] == "k" or nf._ty_of(o[1]) in NUM for o in r[2:4])
                if ok:
                    (a, ca), (b, cb) = A.op(r[2]), A.op(r[3])
                    if ca or cb:
                        if r[1] in ("Eq", "Ne"):
                            d = A.bin("Sub", a, b)
                            put(min(d, neg(d), key=show), line, "=")
                        else:
                            # x < 0 or x + 1 > 0: the same test, either way round
                            d = A.bin("Sub", a, b) if r[1] in ("Lt", "Ge") else A.bin("Sub", b, a)
                            e = A.bin("Sub", neg(d), {(): 1})
                            fl = any(o[0] != "k" and nf._ty_of(o[1])[:1] == "f" for o in r[2:4])
                            put(d if fl else min(d, e, key=show), line, "<")
            elif k in ("agg",):
                for o in r[2]:
                    root(o, line)
            elif k == "rep":
                root(r[1], line)
            elif p[1] and not nf._norm_proj(p[1]) == () or not single(p[0]) or p[0] == 0:
                # kept: in a field, behind a reference, in something that changes, or as the answer
                q = nf.resolve_place(p) if p[1] else p
                pr = nf._norm_proj(q[1])
                me = q[0] if not pr else f"{q[0]}{pr}" if any(x[0] in ("[]", "closure") for x in pr) else None
                if k == "use":
                    if r[1][0] in ("c", "m") and nf._ty_of(r[1][1]) in NUM:
                        a, c = A.op(r[1])
                        put(a, line, me=me, comp=c)
                elif k in ("bin", "cast", "un"):
                    a = A.rv(r, False, 0)
                    if a is None and k == "bin":
                        a = A.rv(r, True, 0)
                    if a is not None and a[1]:
                        put(a[0], line, me=me)
                if k == "cast" and (a is None or not a[1]) and r[3] in NUM:
                    a = A.op(r[2])[0]
                    put(a, line, me=me, comp=False)
        if t[0] == "call":
            fd = t[1].get("fn")
            if fd and IGNORE_CALL.search(canon(callee_key(fd))):
                continue
            if fd and lastseg(canon(fd["p"])) in ("with_capacity", "reserve", "reserve_exact", "try_reserve"):
                continue  # no matter how much room is made beforehand
            if arithcall(t) and single(t[3][0]) and not t[3][1]:
                continue
            for o in t[2]:
                root(o, t[5])
            if not single(t[3][0]) and not t[3][1] and nf.locals[t[3][0]] in NUM:
                a = A.call(t, 0)
                put(a[0] if a else A.leaf(nf.leaves_call(t)), t[5], me=t[3][0], comp=bool(a))
            if fd and lastseg(canon(fd["p"])) in ("index", "index_mut", "get", "get_mut", "drain", "copy_within", "slice") and len(t[2]) == 2 and t[2][1][0] in ("c", "m") and not t[2][1][1][1]:
                # from where to where
                ds = nf.D.get(t[2][1][1][0], [])
                if len(ds) == 1 and ds[0][1] == "rv" and ds[0][2][0] == "agg" and "ops::Range" in str(ds[0][2][1]) and len(ds[0][2][2]) == 2:
                    (a, ca), (b, cb) = [A.op(o) for o in ds[0][2][2]]
                    if ca or cb:
                        put(A.nest("range", [a, b]), t[5], "of " + ls(cl(nf.leaves_op(t[2][0]))))
        elif t[0] == "sw":
            root(t[1], 0)
    F._formulas = out, plain
    return F._formulas


def neg(d):
    return {m: -c for m, c in d.items()}


def compare_arith(B, C):
    (b, bp), (c, cp) = formulas(B), formulas(C)
    none = {}
    for k in set(b) | set(c):
        x, y, xp, yp = b.get(k, none), c.get(k, none), bp.get(k, none), cp.get(k, none)
        lost, got = set(x) - set(y), set(y) - set(x)
        if not lost:
            lost = set(xp) - set(yp)
        elif not got:
            got = set(yp) - set(xp)
        if lost and got:
            p, q = min(lost), min(got)
            yield p, q, y.get(q, yp.get(q, 0)), k
