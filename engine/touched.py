"""Which changes has a value gone through before it is handed on?

An operand's identity is followed back through moves, borrows, copies (`clone`, conversions) and the calls it was
computed by; every call that was given `&mut` access to that identity beforehand is part of its history.  A value
handed to the same consumer must keep its history: the original and the changed copy may not change places."""
from collections import defaultdict
from ax import canon, callee_key
from norm import is_std, lastseg
from compare import acyclic


def base(nf, p):
    q = nf.resolve_place(p)
    return q[0]


def history(F):
    """(consumer, position) -> list of frozenset(mutators)"""
    nf = F.nf
    reach = acyclic(nf)

    def before(p, q):
        if p[0] == q[0]:
            return p[1] < q[1]
        return reach[p[0]] >> q[0] & 1

    INF = 1 << 20
    at = {}
    muts = defaultdict(list)
    universe = set()
    for i in nf.reach:
        for j, s in enumerate(nf.B[i][0]):
            if s[0] == "=":
                at[id(s[2])] = (i, j)
        t = nf.B[i][1]
        t = t[1] if t[0] == "rej" else t
        at[id(t)] = (i, INF)
        if t[0] != "call":
            continue
        fd = t[1].get("fn")
        if not fd:
            continue
        c = canon(callee_key(fd))
        if is_std(c):
            continue
        for o in t[2]:
            if o[0] in ("c", "m") and nf._ty_of(o[1]).startswith("&mut"):
                b = root(nf, o[1])
                if b is not None:
                    muts[b].append(((i, INF), c))
                    universe.add(c)
    # only where there are two of it: the thing and a copy
    two = set()
    for l, ds in nf.D.items():
        for d in ds:
            if d[1] == "call" and not d[3] and d[2][1].get("fn") and lastseg(canon(callee_key(d[2][1]["fn"]))) in ("clone", "to_owned", "cloned"):
                two.add(l)
                for o in d[2][2][:1]:
                    if o[0] in ("c", "m"):
                        b = root(nf, o[1])
                        if b is not None and b > nf.argc:
                            two.add(b)
    # moved on under another name
    for _ in range(4):
        for l, ds in nf.D.items():
            if len(ds) == 1 and ds[0][1] == "rv" and not ds[0][3] and ds[0][2][0] == "use" and ds[0][2][1][0] in ("c", "m") and not ds[0][2][1][1][1] and ds[0][2][1][1][0] in two:
                two.add(l)
    for l in list(muts):
        if l not in two:
            del muts[l]
    universe = {c for v in muts.values() for _, c in v}
    if not muts or len(universe) > 40:
        return {}, universe

    def walk(l, p, out, seen):
        if (l, p) in seen or len(seen) > 80:
            return
        seen.add((l, p))
        for q, c in muts.get(l, ()):
            if before(q, p):
                out.add(c)
        if 1 <= l <= nf.argc:
            return
        ds = [d for d in nf.D.get(l, []) if d[1] in ("rv", "call") and not d[3]]
        if len(ds) > 4:
            return
        for d in ds:
            a = at.get(id(d[2]))
            if a is None:
                continue
            r = d[2]
            if d[1] == "rv":
                k = r[0]
                os = {"use": lambda: [r[1]], "rep": lambda: [r[1]], "cast": lambda: [r[2]], "agg": lambda: r[2] if r[1][0] != "closure" else [],
                      "ref": lambda: [["c", r[2]]]}.get(k, lambda: [])()
                for o in os:
                    if isinstance(o, list) and o and o[0] in ("c", "m"):
                        # a borrow or move of the thing is the thing: what happens to it until the use counts
                        walk(base(nf, o[1]) if o[1][1] else o[1][0], p if k == "ref" else a, out, seen)
            else:
                fd = r[1].get("fn")
                if not fd:
                    continue
                for o in r[2]:
                    if o[0] in ("c", "m"):
                        walk(base(nf, o[1]) if o[1][1] else o[1][0], a, out, seen)

    res = defaultdict(list)
    for e in F.effects:
        if "ops" not in e or e["std"]:
            continue
        for k, o in enumerate(e["ops"]):
            if o[0] not in ("c", "m") or nf._ty_of(o[1]).startswith("&mut"):
                continue
            out = set()
            walk(base(nf, o[1]) if o[1][1] else o[1][0], (e["blk"], INF), out, set())
            res[(e["callee"], k)].append(frozenset(out - {e["full"]}))
    return dict(res), universe


def root(nf, p):
    """the local a `&mut` operand was taken from"""
    l = p[0]
    for _ in range(12):
        if 1 <= l <= nf.argc:
            return l
        ds = [d for d in nf.D.get(l, []) if d[1] in ("rv", "call") and not d[3]]
        if len(ds) != 1 or ds[0][1] != "rv":
            return l
        r = ds[0][2]
        if r[0] == "ref":
            l = base(nf, r[2])
            if not nf.locals[l].startswith(("&", "*")):
                return l
        elif r[0] in ("use", "cast"):
            o = r[1] if r[0] == "use" else r[2]
            if o[0] not in ("c", "m"):
                return l
            if not nf.locals[l].startswith(("&", "*")):
                return l
            l = base(nf, o[1])
        else:
            return l
    return l


def compare_touched(B, C):
    b, ub = history(B)
    if not b:
        return
    c, uc = history(C)
    both = ub & uc
    for k, vs in b.items():
        ws = c.get(k)
        if not ws or len(vs) != 1 or len(ws) != 1:
            continue
        x, y = vs[0] & both, ws[0] & both
        if x != y:
            yield k, x - y, y - x


if __name__ == "__main__":
    import sys, ax
    from extract import Policy, facts_for
    P = ax.Prog.load(sys.argv[1])
    for n in sys.argv[2:]:
        for f in P.find_all(n):
            for k, v in history(facts_for(P, f, Policy(P)))[0].items():
                print(f.cid, k, [sorted(x) for x in v])
