"""Is a value used as it was before or after something changed it?

For everything a function hands on (arguments of effects, written values, results, tests) the places it was read from
are traced back to the statement that read them; against every event that changes such a place (directly or through
the call graph, by field) the read comes before or after."""
from collections import defaultdict
from ax import canon, callee_key, short
from norm import is_std, lastseg
from compare import acyclic, cl
from order import events, objs, related
import access


class Reads:
    def __init__(self, nf):
        self.nf = nf
        self.A = access.of(nf.prog)
        self.at = {}
        for i in nf.reach:
            for j, s in enumerate(nf.B[i][0]):
                if s[0] == "=":
                    self.at[id(s[2])] = (i, j)
            t = nf.B[i][1]
            t = t[1] if t[0] == "rej" else t
            self.at[id(t)] = (i, 1 << 20)
        self.memo = {}

    def path(self, p):
        return tuple(f"{short(a)}.{b}" for a, b in self.nf._norm_proj(p[1]) if a not in ("[]", "[c]", "+", "-", "closure", "tuple") and not a.startswith("std::"))

    def place(self, p, at, out, seen):
        nf = self.nf
        q = self.home(nf.resolve_place(p))
        path = self.path(q)
        if path:
            out.add(((q[0], path), frozenset(path), at))
        if not (1 <= q[0] <= nf.argc):
            self.local(q[0], out, seen)

    def home(self, q):
        """the place a moved object came from, as `objs` names it"""
        nf = self.nf
        for _ in range(8):
            if 1 <= q[0] <= nf.argc:
                break
            ds = [d for d in nf.D.get(q[0], []) if d[1] in ("rv", "call") and not d[3]]
            if len(ds) != 1:
                break
            r = ds[0][2]
            if ds[0][1] != "rv" or r[0] not in ("use", "cast"):
                break
            o = r[1] if r[0] == "use" else r[2]
            if o[0] not in ("c", "m") or nf.locals[q[0]].startswith(("u", "i", "f", "bool")):
                break
            q = nf.resolve_place([o[1][0], o[1][1] + q[1]])
        return q

    def op(self, o, at, out, seen):
        if o[0] in ("c", "m"):
            if o[1][1]:
                self.place(o[1], at, out, seen)
            else:
                self.local(o[1][0], out, seen)

    def local(self, l, out, seen):
        nf = self.nf
        if l in seen or 1 <= l <= nf.argc or len(seen) > 60:
            return
        seen.add(l)
        ds = [d for d in nf.D.get(l, []) if d[1] in ("rv", "call")]
        if len(ds) > 4:
            return
        for d in ds:
            at = self.at.get(id(d[2]))
            if at is None:
                continue
            r = d[2]
            if d[1] == "rv":
                k = r[0]
                if k in ("use", "rep"):
                    self.op(r[1], at, out, seen)
                elif k == "ref":
                    self.place(r[2], at, out, seen)
                elif k == "cast":
                    self.op(r[2], at, out, seen)
                elif k == "bin":
                    self.op(r[2], at, out, seen)
                    self.op(r[3], at, out, seen)
                elif k == "un":
                    self.op(r[2], at, out, seen)
                elif k == "discr":
                    self.place(r[1], at, out, seen)
                elif k == "agg" and r[1][0] != "closure":
                    for o in r[2]:
                        self.op(o, at, out, seen)
                continue
            fd = r[1].get("fn")
            if not fd:
                continue
            c = canon(callee_key(fd))
            if is_std(c):
                for o in r[2]:
                    self.op(o, at, out, seen)
                continue
            rw = self.A.byc.get(c)
            if rw and rw[0] and not rw[1]:
                # a question: it reads what it reads now
                for o in r[2]:
                    ob = objs(nf, o)
                    if ob:
                        out.add((ob, frozenset(rw[0]), at))
                    self.op(o, at, out, seen)

    def of(self, o, at):
        out = set()
        self.op(o, at, out, set())
        return out


def facts(F, pure, io, ref=None):
    """(consumer, field) -> {"pre", "post"}"""
    nf = F.nf
    es = [e for e in events(F, pure, io, ref) if e.W - {"#shared", "#obj"} and e.objs]
    if not es or len(es) > 60:
        return {}
    byf = defaultdict(list)
    for e in es:
        for f in e.W:
            byf[f].append(e)
    reach = acyclic(nf)

    def before(p, q):
        if p[0] == q[0]:
            return p[1] < q[1]
        return reach[p[0]] >> q[0] & 1

    R = Reads(nf)
    use = []
    for e in F.effects:
        if "ops" not in e:
            continue
        for k, o in enumerate(e["ops"]):
            ty = nf._ty_of(o[1]) if o[0] in ("c", "m") else ""
            if o[0] in ("c", "m") and not ty.startswith("&mut"):
                use.append(((e["callee"], k), o, (e["blk"], 1 << 20)))
    for w in F.writes:
        if "pos" in w and "place" in w:
            s = nf.B[w["blk"]][0]
            if w["pos"] < len(s) and s[w["pos"]][0] == "=":
                r = s[w["pos"]][2]
                for o in ([r[1]] if r[0] == "use" else r[2:4] if r[0] == "bin" else [r[2]] if r[0] in ("un", "cast") else r[2] if r[0] == "agg" else []):
                    if isinstance(o, list) and o and o[0] in ("c", "m"):
                        use.append((("write of " + w["field"], 0), o, (w["blk"], w["pos"])))
    for i in nf.reach:
        t = nf.B[i][1]
        if t[0] == "ret":
            use.append((("result", 0), ["c", [0, []]], (i, 1 << 20)))
        elif t[0] == "sw":
            use.append((("test", cl(nf.leaves_op(t[1]))), t[1], (i, 1 << 20)))
    out = defaultdict(set)
    for key, o, at in use:
        for ob, fs, ra in R.of(o, at):
            for f in fs:
                for e in byf.get(f, ()):
                    if (e.blk, e.pos) == at or not related({ob}, e.objs):
                        continue
                    ep = (e.blk, e.pos)
                    if before(ra, ep):
                        out[(key, f)].add("pre")
                    elif before(ep, ra):
                        out[(key, f)].add("post")
    return dict(out)


def compare_stale(B, C, pure, io):
    b = facts(B, pure, io)
    if not b:
        return
    c = facts(C, pure, io, B.nf.prog)
    for k, s in b.items():
        t = c.get(k)
        if t and len(s) == 1 and len(t) == 1 and s != t:
            yield k, next(iter(s)), next(iter(t))


if __name__ == "__main__":
    import sys, ax
    from extract import Policy, facts_for
    P = ax.Prog.load(sys.argv[1])
    for n in sys.argv[2:]:
        for f in P.find_all(n):
            for k, v in facts(facts_for(P, f, Policy(P)), set(), set()).items():
                print(f.cid, k, v)
