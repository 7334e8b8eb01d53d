"""Check-then-act: what is read and then changed under one acquisition of a lock stays under one acquisition.

For every guard obtained in a function (helpers included), the operations made through it; a pair (reads something,
later changes that same thing) made through one guard in the reference must not be made through two."""
from collections import defaultdict
from ax import canon, callee_key, short
from norm import is_std, lastseg
from compare import COLSTD, acyclic
import access
from locks import guards, simple

MUT = COLSTD | {"entry", "get_mut", "iter_mut", "values_mut", "last_mut", "first_mut"}
STEP = set("deref_mut deref as_mut as_ref borrow borrow_mut as_mut_slice index index_mut by_ref unwrap expect".split())


def gclass(ty):
    g = guards(ty)
    if len(g) == 1:
        return g[0][0]
    if ty.startswith(("std::option::Option", "std::result::Result")) or not g:
        return None
    return None


def ops(nf):
    """guard local -> (class, [(what, reads, writes, block)])"""
    A = access.of(nf.prog)
    G = {i: gclass(t) for i, t in enumerate(nf.locals)}
    out = {}

    def base(p):
        q = nf.resolve_place(p)
        for _ in range(8):
            if G.get(q[0]):
                break
            ds = [d for d in nf.D.get(q[0], []) if d[1] in ("rv", "call") and not d[3]]
            if len(ds) != 1:
                return None
            if ds[0][1] == "call":
                t = ds[0][2]
                fd = t[1].get("fn")
                if not fd or lastseg(canon(fd["p"])) not in STEP or not t[2] or t[2][0][0] not in ("c", "m"):
                    return None
                q = nf.resolve_place([t[2][0][1][0], t[2][0][1][1] + ["*"] + q[1]])
            else:
                r = ds[0][2]
                if r[0] == "use" and r[1][0] in ("c", "m"):
                    q = nf.resolve_place([r[1][1][0], r[1][1][1] + q[1]])
                elif r[0] == "ref":
                    q = nf.resolve_place([r[2][0], r[2][1] + [e for e in q[1] if e != "*"]])
                else:
                    return None
        g = q[0]
        if not G.get(g):
            return None
        # the guard itself may have been moved
        for _ in range(6):
            ds = [d for d in nf.D.get(g, []) if d[1] in ("rv", "call") and not d[3]]
            if len(ds) == 1 and ds[0][1] == "rv" and ds[0][2][0] == "use" and ds[0][2][1][0] in ("c", "m") and not ds[0][2][1][1][1] and G.get(ds[0][2][1][1][0]):
                g = ds[0][2][1][1][0]
            else:
                break
        return g, q[1]

    def add(g, what, r, w, i, j):
        out.setdefault(g, (G[g], []))[1].append((what, r, w, (i, j)))

    def flds(pr):
        return [f"{short(a)}.{b}" for a, b in nf._norm_proj(pr) if "::" in a and not a.startswith("std::")]

    for i in sorted(nf.reach):
        ss, t, _ = nf.B[i]
        t = t[1] if t[0] == "rej" else t
        for j, s in enumerate(ss):
            if s[0] != "=":
                continue
            if s[1][1]:
                b = base(s[1])
                if b:
                    f = flds(b[1]) or ["*" + G[b[0]]]
                    add(b[0], "=" + f[-1], set(), {f[-1]}, i, j)
            r = s[2]
            o = r[1] if r[0] == "use" else r[2] if r[0] == "cast" else None
            if o and o[0] in ("c", "m") and o[1][1]:
                b = base(o[1])
                if b:
                    f = flds(b[1]) or ["*" + G[b[0]]]
                    add(b[0], "?" + f[-1], set(f), set(), i, j)
        if t[0] != "call" or not t[1].get("fn"):
            continue
        fd = t[1]["fn"]
        c = canon(callee_key(fd))
        seg = lastseg(c)
        std = is_std(c)
        if std and (seg in STEP or seg == "drop"):
            continue
        for k, a in enumerate(t[2]):
            if a[0] not in ("c", "m"):
                continue
            ty = nf._ty_of(a[1])
            if not ty.startswith("&"):
                continue
            b = base([a[1][0], a[1][1] + ["*"]])
            if not b:
                continue
            if std:
                f = flds(b[1]) or ["*" + G[b[0]]]
                m = seg in MUT or "mut " in ty[:24] and seg not in ("next",)
                add(b[0], seg, set(f), set(f) if m else set(), i, 1 << 20)
            else:
                r, w = A.byc.get(c, (set(), set()))
                add(b[0], short(c), set(r), set(w) if "mut " in ty[:24] or "#shared" in w else set(), i, 1 << 20)
            break
    return out


def pairs(F):
    """class -> {(op, op)} made one after the other through one guard, the second changing what the first reads"""
    if hasattr(F, "_atomic"):
        return F._atomic
    nf = F.nf
    together, apart, seen = defaultdict(set), defaultdict(set), defaultdict(set)
    O = ops(nf)
    reach = acyclic(nf)

    def later(x, y):
        return x[0] == y[0] and x[1] < y[1] or x[0] != y[0] and reach.get(x[0], 0) >> y[0] & 1

    gs = sorted(O)
    for g in gs:
        cls, xs = O[g]
        for a in xs:
            seen[cls].add(a[0])
            for h in gs:
                if O[h][0] != cls:
                    continue
                for b in O[h][1]:
                    if a is not b and b[2] and not a[2] and a[1] & b[2] - {"#obj", "#shared"} and later(a[3], b[3]):
                        (together if g == h else apart)[cls].add((a[0], b[0]))
    F._atomic = together, apart
    return F._atomic


def compare_atomic(B, C):
    tb, ab = pairs(B)
    tc, ac = pairs(C)
    for cls in sorted(tb):
        for p in sorted(tb[cls]):
            if p not in tc.get(cls, ()) and p in ac.get(cls, ()) and p not in ab.get(cls, ()):
                yield cls, p
