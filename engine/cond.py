"""Reach conditions: under which combination of tests is a block of a normal form reached?

A forward dataflow over (block x which-definition-reached valuation of local flags); the lattice is the boolean
algebra over the function's test atoms (bdd.py).  Leaving a loop by its own test says nothing about what comes after."""
import re, sys
from collections import defaultdict
from ax import canon, callee_key
from norm import NF, is_std, lastseg, CMPM, OPT_COMB_SOME, VARIANT_TEST
from bdd import B

sys.setrecursionlimit(100000)
ITERCHAIN = set("into_iter iter iter_mut map enumerate rev filter filter_map take_while map_while cloned copied by_ref peekable skip take inspect skip_while".split())
FLAGENUM = ("std::option::Option", "std::result::Result", "std::ops::ControlFlow", "std::cmp::Ordering")


class Cond:
    MAXSTATES = 4000

    def __init__(self, F):
        self.F = F
        self.nf = F.nf
        self.prog = F.prog
        self._alias = {}
        self._clo = {}
        self._memo = {}
        self._active = set()
        self._taut = False
        self.tests = set()
        self.exits = defaultdict(set)  # atom -> polarities that leave a loop
        self._eligible()
        self._live()
        self.root = self._prop(self.nf.entry, None, True)
        self.rc = self.root["rc"]

    # ------------------------------------------------------------ flags
    def _isflag(self, ty):
        if ty == "bool":
            return True
        if ty.startswith(FLAGENUM):
            return True
        b = ty.split("<")[0]
        a = self.prog.adts.get(b)
        return bool(a and a["kind"] == "enum" and len(a["variants"]) <= 6)

    def alias(self, l):
        """local this one is a plain copy of"""
        r = self._alias.get(l)
        if r is not None:
            return r
        self._alias[l] = l
        ds = [d for d in self.nf.D.get(l, []) if d[1] in ("rv", "call")]
        if len(ds) == 1 and ds[0][1] == "rv" and not ds[0][3]:
            r = ds[0][2]
            if r[0] == "use" and r[1][0] in ("c", "m") and not r[1][1][1]:
                self._alias[l] = self.alias(r[1][1][0])
            elif r[0] == "discr" and not [x for x in r[1][1] if x != "*"]:
                self._alias[l] = self.alias(r[1][0])
            elif r[0] == "ref" and not [x for x in r[2][1] if x != "*"]:
                self._alias[l] = self.alias(r[2][0])
            elif r[0] == "un" and r[1] == "Not" and r[2][0] in ("c", "m") and not r[2][1][1]:
                self._alias[l] = self.alias(r[2][1][0])
        elif len(ds) == 1 and ds[0][1] == "call" and not ds[0][3]:
            t = ds[0][2]
            fd = t[1].get("fn")
            if fd and lastseg(canon(fd["p"])) in ("branch", "is_some", "is_none", "is_ok", "is_err", "as_ref", "as_mut", "not", "ok", "map_err") and t[2] and t[2][0][0] in ("c", "m") and not t[2][0][1][1]:
                self._alias[l] = self.alias(t[2][0][1][0])
        return self._alias[l]

    def _eligible(self):
        nf = self.nf
        self.E = set()
        self.defsite = {}
        for l, ds in nf.D.items():
            if l <= nf.argc and l != 0:
                continue
            if not self._isflag(nf.locals[l]):
                continue
            if any(d[1] == "mut" for d in ds):
                # handed out mutably: not a flag any more
                if nf.locals[l] == "bool" or any(d[1] == "mut" and not self._takes(d) for d in ds):
                    continue
            whole = [d for d in ds if d[1] in ("rv", "call") and not d[3]]
            if len(whole) < 2 or len(whole) > 24:
                continue
            if not any(d[1] == "rv" and (d[2][0] == "agg" or d[2][0] == "use" and d[2][1][0] == "k" or d[2][0] == "bin") for d in whole):
                continue
            self.E.add(l)
        # definition sites per block in statement order
        self.bdefs = defaultdict(list)
        for i in nf.reach:
            ss, t, _ = nf.B[i]
            for s in ss:
                if s[0] == "=" and not s[1][1] and s[1][0] in self.E:
                    self.bdefs[i].append((s[1][0], ("rv", s[2])))
            tt = t[1] if t[0] == "rej" else t
            if tt[0] == "call" and not tt[3][1] and tt[3][0] in self.E:
                self.bdefs[i].append((tt[3][0], ("call", tt)))
        self.defs = {}
        n = 0
        for i, ds in self.bdefs.items():
            for k, (l, d) in enumerate(ds):
                self.defs[n] = (l, d, i)
                ds[k] = (l, n)
                n += 1

    def _takes(self, d):
        t, ai = d[2]
        fd = t[1].get("fn")
        return bool(fd) and lastseg(canon(callee_key(fd))) in ("as_mut", "iter_mut")

    def _live(self):
        """blocks at whose entry a flag may still be tested"""
        nf = self.nf
        use = defaultdict(set)

        def mark(i, p, first):
            l = p[0]
            r = self.alias(l)
            for x in (l, r):
                if x in self.E and x not in first:
                    use[i].add(x)

        def op(i, o, first):
            if o[0] in ("c", "m"):
                mark(i, o[1], first)

        kill = {}
        for i in nf.reach:
            ss, t, _ = nf.B[i]
            first = set()
            for s in ss:
                if s[0] != "=":
                    continue
                r = s[2]
                k = r[0]
                if k == "use" or k == "rep":
                    op(i, r[1], first)
                elif k == "ref":
                    mark(i, r[2], first)
                elif k == "bin":
                    op(i, r[2], first)
                    op(i, r[3], first)
                elif k in ("un", "cast"):
                    op(i, r[2], first)
                elif k == "discr":
                    mark(i, r[1], first)
                elif k == "agg":
                    for o in r[2]:
                        op(i, o, first)
                if not s[1][1] and s[1][0] in self.E:
                    first.add(s[1][0])
            tt = t[1] if t[0] == "rej" else t
            if tt[0] == "sw":
                op(i, tt[1], first)
            elif tt[0] == "call":
                for a in tt[2]:
                    op(i, a, first)
                if not tt[3][1] and tt[3][0] in self.E:
                    first.add(tt[3][0])
            elif tt[0] == "ret" and 0 in self.E and 0 not in first:
                use[i].add(0)
            elif tt[0] == "nd" and tt[3] is not None:
                op(i, tt[3], first)
            kill[i] = first
        live = {i: set(use[i]) for i in nf.reach}
        changed = True
        order = sorted(nf.reach, reverse=True)
        while changed:
            changed = False
            for i in order:
                o = set()
                for s in nf.S[i]:
                    if s in live:
                        o |= live[s]
                n = use[i] | (o - kill[i])
                if n != live[i]:
                    live[i] = n
                    changed = True
        # a flag computed from other flags keeps those alive
        dep = defaultdict(set)
        for l in self.E:
            for d in nf.D[l]:
                if d[1] != "rv" or d[3]:
                    continue
                r = d[2]
                ops = [r[1]] if r[0] == "use" else [r[2]] if r[0] in ("un", "cast") else [r[2], r[3]] if r[0] == "bin" else r[2] if r[0] == "agg" else []
                for o in ops:
                    if o[0] in ("c", "m") and not o[1][1]:
                        a = self.alias(o[1][0])
                        if a in self.E and a != l:
                            dep[l].add(a)
        if dep:
            for i in live:
                st = [x for x in live[i] if x in dep]
                seen = set(st)
                while st:
                    for y in dep[st.pop()]:
                        live[i].add(y)
                        if y not in seen:
                            seen.add(y)
                            st.append(y)
        self.live = live

    # ------------------------------------------------------------ formulas
    def atom(self, ap):
        from compare import cla, LOOPSOME

        a, p = ap
        if LOOPSOME.match(a):
            if not self._taut:
                return 1
            a = "~" + a
        v = B.var(cla(a))
        return v if p == "+" else B.NOT(v)

    def atomset(self, aps):
        f = 1
        for x in aps:
            f = B.AND(f, self.atom(x))
        return f

    def fop(self, o, val, depth=0):
        if o[0] == "k":
            v = o[1].get("v")
            if v is not None:
                return 1 if v == "1" else 0
            return B.var("b const " + str(o[1].get("n") or o[1].get("s", ""))[:60])
        return self.fbool(o[1], val, depth + 1)

    def fbool(self, place, val, depth=0):
        nf = self.nf
        F = self.F
        if depth > 40:
            return B.var("b deep")
        if place[1]:
            base = nf.resolve_place(place)
            if base[1]:
                bp = nf._norm_proj(base[1])
                if bp and bp[-1][0] == "tuple" and len(bp) == 1:
                    ds = [d for d in nf.D.get(base[0], []) if d[1] == "rv" and not d[3]]
                    if len(ds) == 1 and ds[0][2][0] == "agg" and ds[0][2][1][0] == "tuple":
                        return self.fop(ds[0][2][2][int(bp[0][1])], val, depth + 1)
                return self.atom(("b " + self._ls(nf.leaves_place(place)), "+"))
            place = base
        l = place[0]
        if l in val:
            kind, d = self.defs[val[l]][1]
            return self._fdef(kind, d, val, depth, l)
        ds = [d for d in nf.D.get(l, []) if d[1] in ("rv", "call") and not d[3]]
        if len(ds) == 1:
            return self._fdef(ds[0][1], ds[0][2], val, depth, l)
        return self.atom(("b " + self._ls(nf.leaves_place(place)), "+"))

    def _ls(self, s):
        from extract import ls

        return ls(s)

    def _fdef(self, kind, d, val, depth, l):
        key = (l, id(d))
        if key in self._active:
            return self.atom(("b " + self._ls(self.nf.leaves_place([l, []])), "+"))
        self._active.add(key)
        try:
            return self.frv(d, val, depth) if kind == "rv" else self.fcall(d, val, depth)
        finally:
            self._active.discard(key)

    def frv(self, r, val, depth):
        nf, F = self.nf, self.F
        k = r[0]
        if k == "use":
            return self.fop(r[1], val, depth)
        if k == "un" and r[1] == "Not":
            return B.NOT(self.fop(r[2], val, depth))
        if k == "bin":
            op = r[1]
            if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                da = F._discr_src(r[2])
                if da and r[3][0] == "k" and "v" in r[3][1] and op in ("Eq", "Ne"):
                    nm = self.prog.variant_name(da[1], r[3][1]["v"])
                    f = self.fvar(da[0], da[1], [nm], val, depth + 1)
                    return f if op == "Eq" else B.NOT(f)
                # comparing truth values
                for x, y in ((r[2], r[3]), (r[3], r[2])):
                    if x[0] == "k" and x[1].get("t") == "bool" and "v" in x[1] and op in ("Eq", "Ne"):
                        f = self.fop(y, val, depth)
                        return f if (x[1]["v"] == "1") == (op == "Eq") else B.NOT(f)
                return self.atom(F.cmp_atom(op, nf.leaves_op(r[2]), nf.leaves_op(r[3]), "+", F.unsigned(r[2], r[3])))
            if op in ("BitAnd", "BitOr", "BitXor"):
                a, b = self.fop(r[2], val, depth), self.fop(r[3], val, depth)
                return B.AND(a, b) if op == "BitAnd" else B.OR(a, b) if op == "BitOr" else B.XOR(a, b)
        return self.atom(("b " + self._ls(F._rvl(r)), "+"))

    def _recvplace(self, o):
        ty = self.nf._ty_of(o[1])
        return [o[1][0], o[1][1] + (["*"] if ty.startswith("&") else [])]

    def fcall(self, t, val, depth):
        nf, F = self.nf, self.F
        fd = t[1].get("fn")
        if not fd:
            return self.atom(("b {C:indirect}", "+"))
        c = canon(callee_key(fd))
        pth = canon(fd["p"])
        seg = lastseg(c)
        a = t[2]
        if c in VARIANT_TEST and a and a[0][0] in ("c", "m"):
            return self.fvar(self._recvplace(a[0]), VARIANT_TEST[c][0], [VARIANT_TEST[c][1]], val, depth + 1)
        if is_std(pth) and is_std(c):
            if seg in ("is_some", "is_none", "is_ok", "is_err") and a[0][0] in ("c", "m"):
                en = "std::option::Option" if seg in ("is_some", "is_none") else "std::result::Result"
                nm = {"is_some": "Some", "is_none": "None", "is_ok": "Ok", "is_err": "Err"}[seg]
                return self.fvar(self._recvplace(a[0]), en, [nm], val, depth + 1)
            if seg == "not":
                return B.NOT(self.fop(a[0], val, depth))
            if seg == "contains" and "Range" in pth and len(a) == 2 and a[0][0] in ("c", "m"):
                return self.atomset(F.call_atoms(t, "+", depth))
            if t[6] and seg in ("any", "all"):
                f = 1 if seg == "all" else 0
                for lb, sg, cid in t[6]:
                    f = self.clo(lb, "b")
                # one element that answers so settles it
                for x in B.polar(f):
                    self.exits[x[1:]].add(x[0] if seg == "any" else {"+": "-", "-": "+"}[x[0]])
                return f
            if t[6] and seg in ("is_some_and", "is_none_or", "is_ok_and", "map_or") and a[0][0] in ("c", "m"):
                ty = nf._ty_of(a[0][1]).lstrip("&").replace("mut ", "")
                en = "std::result::Result" if ty.startswith("std::result") else "std::option::Option"
                if ty.startswith(("std::option", "std::result")):
                    some = self.fvar(self._recvplace(a[0]), en, ["Some" if "option" in en else "Ok"], val, depth + 1)
                    g = self.clo(t[6][0][0], "b")
                    if seg == "is_none_or":
                        return B.OR(B.NOT(some), g)
                    if seg == "map_or":
                        dflt = self.fop(a[1], val, depth)
                        return B.ite(some, g, dflt)
                    return B.AND(some, g)
            if seg in ("unwrap_or", "unwrap_or_default") and a[0][0] in ("c", "m") and not a[0][1][1]:
                ds = [d for d in nf.D.get(a[0][1][0], []) if d[1] in ("rv", "call") and not d[3]]
                if len(ds) == 1 and ds[0][1] == "call" and ds[0][2][6] and ds[0][2][1].get("fn") and lastseg(canon(ds[0][2][1]["fn"]["p"])) == "map":
                    m = ds[0][2]
                    ty = nf._ty_of(m[2][0][1]).lstrip("&") if m[2][0][0] in ("c", "m") else ""
                    if ty.startswith("std::option"):
                        some = self.fvar(self._recvplace(m[2][0]), "std::option::Option", ["Some"], val, depth + 1)
                        dflt = 0 if seg == "unwrap_or_default" else self.fop(a[1], val, depth)
                        return B.ite(some, self.clo(m[6][0][0], "b"), dflt)
                if nf._ty_of(a[0][1]).lstrip("&") in ("std::option::Option<bool>", "std::option::Option<&bool>"):
                    some = self.fvar(self._recvplace(a[0]), "std::option::Option", ["Some"], val, depth + 1)
                    dflt = 0 if seg == "unwrap_or_default" else self.fop(a[1], val, depth)
                    return B.ite(some, self.atom(("b " + self._ls(nf.leaves_op(a[0])), "+")), dflt)
            if seg in ("clone", "deref", "into", "from", "borrow", "as_ref") and a[0][0] in ("c", "m") and nf._ty_of(a[0][1]).lstrip("&") == "bool":
                return self.fbool(self._recvplace(a[0]), val, depth + 1)
            if seg == "contains_key" and len(a) == 2:
                lv = set().union(*[nf.leaves_op(x) for x in a])
                return self.atom(("is Some " + self._ls(lv | {"C:get"}), "+"))
        if is_std(pth) and seg in CMPM and len(a) == 2 and "cmp" in pth and seg in ("eq", "ne"):
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                if x[0] == "k" and x[1].get("t", "").lstrip("&") == "bool" and "v" in x[1] and y[0] != "k":
                    f = self.fop(y, val, depth)
                    return f if (x[1]["v"] == "1") == (seg == "eq") else B.NOT(f)
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                # opt == Some(v)
                if x[0] == "k" or y[0] == "k" or not nf._ty_of(y[1]).lstrip("&").startswith("std::option::Option"):
                    continue
                p = nf.resolve_place(self._recvplace(x))
                ds = [d for d in nf.D.get(p[0], []) if d[1] in ("rv", "call") and not d[3]]
                if p[1] or len(ds) != 1 or ds[0][1] != "rv" or ds[0][2][0] != "agg" or ds[0][2][1][0] != "adt":
                    continue
                r = ds[0][2]
                some = self.fvar(self._recvplace(y), "std::option::Option", ["Some"], val, depth + 1)
                if r[1][2] == "None":
                    f = B.NOT(some)
                else:
                    f = B.AND(some, self.atom(F.cmp_atom("Eq", nf.leaves_op(y), nf.leaves_op(r[2][0]), "+")))
                return f if seg == "eq" else B.NOT(f)
        return self.atomset(F.call_atoms(t, "+", depth))

    def fvar(self, place, enum, names, val, depth=0):
        """the place holds one of the named variants"""
        nf, F = self.nf, self.F
        if depth > 40:
            return 1
        base = nf.resolve_place(place)
        proj = nf._norm_proj(base[1])
        cf = enum.startswith("std::ops::ControlFlow")
        if not proj:
            l = base[0]
            if l in val:
                kind, d = self.defs[val[l]][1]
                r = self._fvdef(kind, d, enum, names, val, depth, l)
                if r is not None:
                    return r
            else:
                ds = [d for d in nf.D.get(l, []) if d[1] in ("rv", "call") and not d[3]]
                if len(ds) == 1:
                    r = self._fvdef(ds[0][1], ds[0][2], enum, names, val, depth, l)
                    if r is not None:
                        return r
        elif len(proj) == 1 and proj[0][0] == "tuple":
            # a component of a tuple made for a match
            ds = nf.D.get(base[0], [])
            if len(ds) == 1 and ds[0][1] == "rv" and not ds[0][3] and ds[0][2][0] == "agg" and ds[0][2][1][0] == "tuple":
                o = ds[0][2][2][int(proj[0][1])]
                if o[0] in ("c", "m"):
                    ty = nf._ty_of(o[1])
                    return self.fvar([o[1][0], o[1][1] + (["*"] if ty.startswith("&") else [])], enum, names, val, depth + 1)
        if cf:
            return 1
        out = 0
        allv = self.prog.variants(enum)
        lv = nf.leaves_place(place)
        if enum.startswith("std::option"):
            f = self.atom(("is Some " + self._ls(lv), "+"))
            s = "Some" in names
            n = "None" in names
            return 1 if s and n else f if s else B.NOT(f) if self._taut or not LOOPY(("is Some " + self._ls(lv))) else 1
        if enum.startswith("std::result"):
            f = self.atom(("is Ok " + self._ls(lv), "+"))
            s = "Ok" in names
            n = "Err" in names
            return 1 if s and n else f if s else B.NOT(f) if self._taut or not LOOPY(("is Ok " + self._ls(lv))) else 1
        if allv and len(allv) == 2:
            f = self.vatom(enum, allv, allv[0], lv)
            s, n = allv[0] in names, allv[1] in names
            return 1 if s and n else f if s else B.NOT(f)
        if allv and set(names) >= set(allv):
            return 1
        for n in names:
            out = B.OR(out, self.vatom(enum, allv, n, lv))
        return out

    def vatom(self, enum, allv, n, lv):
        from compare import cla

        a = f"is {n} {self._ls(lv)}"
        B.enumof[cla(a)] = (lastseg(canon(enum.split("<")[0])), tuple(allv or ()))
        return self.atom((a, "+"))

    def _fvdef(self, kind, d, enum, names, val, depth, l):
        key = (l, id(d), "v")
        if key in self._active:
            return None
        self._active.add(key)
        try:
            return self._fvdef0(kind, d, enum, names, val, depth)
        finally:
            self._active.discard(key)

    def _fvdef0(self, kind, d, enum, names, val, depth):
        nf, F = self.nf, self.F
        if kind == "rv":
            if d[0] == "agg" and d[1][0] == "adt":
                return 1 if d[1][2] in names else 0
            if d[0] == "use" and d[1][0] in ("c", "m"):
                return self.fvar(d[1][1], enum, names, val, depth + 1)
            return None
        t = d
        fd = t[1].get("fn")
        if not fd:
            return None
        pth = canon(fd["p"])
        if not is_std(pth):
            return None
        seg = lastseg(pth)
        some = "Some" in names or "Ok" in names or "Continue" in names
        none = "None" in names or "Err" in names or "Break" in names
        if some and none:
            return 1
        a = t[2]
        if seg == "from_residual":
            return 0 if some else 1
        if seg == "from_output":
            return 1 if some else 0
        pos = lambda f: f if some else B.NOT(f)
        if seg in ("next", "next_back") and "terator" in fd["p"]:
            aps = F.loop_atom(t, names, "+")
            f = self.atomset(aps) if aps else 1
            return B.AND(f, self._filters(a[0])) if some and a else f
        if not is_std(canon(callee_key(fd))):
            return None
        if seg == "try_from" and len(a) == 1 and a[0][0] in ("c", "m"):
            src, dst = nf._ty_of(a[0][1]), re.match(r"std::result::Result<(\w+),", nf.locals[t[3][0]])
            if src in SINT and dst and dst.group(1) in UINT and UINT[dst.group(1)] >= SINT[src]:
                return pos(self.atom(F.cmp_atom("Lt", nf.leaves_op(a[0]), frozenset({"K:0"}), "-")))
        if seg == "entry" and len(a) == 2:
            lv = set().union(*[nf.leaves_op(x) for x in a])
            f = self.atom(("is Some " + self._ls(lv | {"C:get"}), "+"))
            occ = "Occupied" in names
            return 1 if occ and "Vacant" in names else f if occ else B.NOT(f)
        if seg in ("then_some", "then") and a and a[0][0] in ("c", "m"):
            return pos(self.fop(a[0], val, depth))
        if seg in ("first", "first_mut", "last", "last_mut", "get", "get_mut") and a and a[0][0] in ("c", "m"):
            rl = nf.leaves_op(a[0])
            if seg in ("get", "get_mut"):
                if len(a) == 2 and ("slice" in pth or "Vec" in pth):
                    return pos(self.atom(F.cmp_atom("Lt", nf.leaves_op(a[1]), frozenset({"L"} | set(rl)), "+")))
                lv = set().union(*[nf.leaves_op(x) for x in a])
                return pos(self.atom(("is Some " + self._ls(lv | {"C:get"}), "+")))
            return pos(self.atom(F.cmp_atom("Eq", frozenset({"L"} | set(rl)), frozenset({"K:0"}), "-")))
        if a and a[0][0] in ("c", "m"):
            ty = nf._ty_of(a[0][1])
            tt = ty.lstrip("&").replace("mut ", "")
            isopt, isres = tt.startswith("std::option::Option"), tt.startswith("std::result::Result")
            if isopt or isres:
                en = "std::option::Option" if isopt else "std::result::Result"
                good = "Some" if isopt else "Ok"
                if seg == "branch":
                    if isopt:
                        g = self.fvar(self._recvplace(a[0]), en, [good], val, depth + 1)
                        return pos(g)
                    # `?` on a Result: the failure itself is not a test, unless it was made from one
                    f = self._madefrom(a[0], val, depth)
                    return pos(f) if f is not None else 1
                if seg in ("as_ref", "as_mut", "as_deref", "as_deref_mut", "cloned", "copied", "map_err", "ok_or", "ok_or_else", "inspect_err", "inspect", "map", "clone", "ok"):
                    return pos(self.fvar(self._recvplace(a[0]), en, [good], val, depth + 1))
                if seg == "err":
                    return pos(B.NOT(self.fvar(self._recvplace(a[0]), en, [good], val, depth + 1)))
                if seg == "filter" and t[6]:
                    return pos(B.AND(self.fvar(self._recvplace(a[0]), en, [good], val, depth + 1), self.clo(t[6][0][0], "b")))
                if seg == "and_then" and t[6] and self._isflag(nf.locals[t[6][0][0]]):
                    return pos(B.AND(self.fvar(self._recvplace(a[0]), en, [good], val, depth + 1), self.clo(t[6][0][0], "s")))
                if seg == "or" and len(a) == 2 and a[1][0] in ("c", "m"):
                    return pos(B.OR(self.fvar(self._recvplace(a[0]), en, [good], val, depth + 1), self.fvar(self._recvplace(a[1]), en, [good], val, depth + 1)))
                if seg == "or_else" and t[6]:
                    return pos(B.OR(self.fvar(self._recvplace(a[0]), en, [good], val, depth + 1), self.clo(t[6][0][0], "s")))
        if t[6] and seg in ("find", "position", "rposition"):
            return pos(self.clo(t[6][0][0], "b")) if some else 1
        if t[6] and seg == "find_map":
            return pos(self.clo(t[6][0][0], "s")) if some else 1
        return None

    def _madefrom(self, o, val, depth):
        """Result built by ok_or/ok_or_else from an Option (or a closure-free chain over one)"""
        nf = self.nf
        p = o[1]
        for _ in range(8):
            if p[1]:
                return None
            l = p[0]
            if l in val:
                kind, d = self.defs[val[l]][1]
            else:
                ds = [d for d in nf.D.get(l, []) if d[1] in ("rv", "call") and not d[3]]
                if len(ds) != 1:
                    return None
                kind, d = ds[0][1], ds[0][2]
            if kind == "rv":
                if d[0] == "use" and d[1][0] in ("c", "m"):
                    p = d[1][1]
                    continue
                if d[0] == "agg" and d[1][0] == "adt":
                    return 1 if d[1][2] == "Ok" else 0
                return None
            fd = d[1].get("fn")
            if not fd:
                return None
            seg = lastseg(canon(fd["p"]))
            if seg == "from_residual":
                return 0
            if not d[2] or d[2][0][0] not in ("c", "m"):
                return None
            if seg in ("ok_or", "ok_or_else") and "option" in fd["p"]:
                return self.fvar(self._recvplace(d[2][0]), "std::option::Option", ["Some"], val, depth + 1)
            if seg in ("map_err", "map", "inspect_err"):
                p = d[2][0][1]
                continue
            return None
        return None

    def _filters(self, o):
        """what an element has passed when it comes out of this iterator"""
        nf = self.nf
        f = 1
        if o[0] not in ("c", "m"):
            return f
        p = self._recvplace(o)
        for _ in range(24):
            p = nf.resolve_place(p)
            if nf._norm_proj(p[1]):
                return f
            ds = [d for d in nf.D.get(p[0], []) if d[1] in ("rv", "call") and not d[3]]
            if len(ds) != 1:
                return f
            d = ds[0][2]
            if ds[0][1] == "rv":
                if d[0] == "use" and d[1][0] in ("c", "m"):
                    p = d[1][1]
                elif d[0] == "ref":
                    p = d[2]
                else:
                    return f
                continue
            fd = d[1].get("fn")
            if not fd or not d[2] or d[2][0][0] not in ("c", "m") or "terator" not in fd["p"]:
                return f
            seg = lastseg(canon(fd["p"]))
            if seg not in ITERCHAIN:
                return f
            if seg in ("filter", "take_while") and d[6]:
                f = B.AND(f, self.clo(d[6][0][0], "b"))
            elif seg in ("filter_map", "map_while") and d[6]:
                f = B.AND(f, self.clo(d[6][0][0], "s"))
            p = self._recvplace(d[2][0])
        return f

    # ------------------------------------------------------------ closures
    def clo(self, lb, what):
        """condition under which a spliced closure's result is true ('b') / Some/Ok ('s')"""
        k = (lb, what)
        if k in self._clo:
            return self._clo[k]
        self._clo[k] = B.var(f"b closure {self._ls(self.nf.leaves_place([lb, []]))}")  # recursion guard
        ent = self.nf.clent.get(lb)
        if ent is None:
            return self._clo[k]
        taut, self._taut = self._taut, False
        try:
            return self._cloval(lb, what, k, ent)
        finally:
            self._taut = taut

    def _cloval(self, lb, what, k, ent):
        ce, cb = ent
        r = self._prop(ce, cb, False, keep=lb)
        out_t = out_f = 0
        en = self.nf.locals[lb].split("<")[0]
        for val, c in r["exit"]:
            if what == "b":
                f = self.fbool([lb, []], val)
            else:
                f = self.fvar([lb, []], en, ["Some" if "option" in en else "Ok"], val)
            out_t = B.OR(out_t, B.AND(c, f))
            out_f = B.OR(out_f, B.AND(c, B.NOT(f)))
        self._clo[k] = settle(out_t, out_f)
        return self._clo[k]

    # ------------------------------------------------------------ edges
    def edge(self, u, v, val):
        nf, F = self.nf, self.F
        t = nf.B[u][1]
        if t[0] == "sw":
            return self._swedge(t, v, val)
        if t[0] == "nd":
            seg, recv, pth, cb = t[2], t[3], t[4], t[5]
            if v != cb and recv is not None and recv[0] in ("c", "m"):
                ty = nf._ty_of(recv[1]).lstrip("&").replace("mut ", "")
                if ty.startswith(("std::option::Option", "std::result::Result")):
                    en = "std::option::Option" if ty.startswith("std::option") else "std::result::Result"
                    good = "Some" if en.endswith("Option") else "Ok"
                    if seg in OPT_COMB_SOME:
                        return self.fvar(self._recvplace(recv), en, [good], val)
                    if seg in ("unwrap_or_else", "or_else", "get_or_insert_with", "ok_or_else") and en.endswith("Option"):
                        return B.NOT(self.fvar(self._recvplace(recv), en, [good], val))
                elif ty == "bool" and seg == "then":
                    return self.fop(recv, val)
                elif "terator" in pth:
                    return self._filters(recv)
                elif seg == "or_insert_with":
                    e = F._entrycall(recv)
                    if e is not None:
                        lv = frozenset({"C:get"}).union(*[nf.leaves_op(x) for x in e[1][2]])
                        return B.NOT(self.atom(("is Some " + self._ls(lv), "+")))
            return 1
        return 1

    def _okatom(self, f):
        """not(is Ok x): plain failure of a call"""
        if f > 1:
            v, lo, hi = B.nodes[f]
            return lo == 1 and hi == 0 and B.names[v].startswith("is Ok ")
        return False

    def _swedge(self, t, v, val):
        nf, F = self.nf, self.F
        vals = [x[0] for x in t[3] if x[1] == v]
        other = t[4] == v
        o = t[1]
        if t[2] == "bool":
            # whether there is a next element differs from turn to turn, both ways are open
            self._taut = True
            try:
                f = self.fop(o, val)
            finally:
                self._taut = False
            zero = any(x[0] == "0" for x in t[3])
            out = 0
            for x in vals:
                out = B.OR(out, B.NOT(f) if x == "0" else f)
            if other:
                out = B.OR(out, f if zero else B.NOT(f))
            if out > 1:
                for x in B.support(out):
                    if B.names[x].startswith("~"):
                        out = B.exists(out, x)
            return out
        d = F._discr_src(o)
        if d:
            place, enum = d
            allv = self.prog.variants(enum) or STDV.get(enum.split("<")[0], [])
            names = [self.prog.variant_name(enum, x) for x in vals]
            listed = [self.prog.variant_name(enum, x[0]) for x in t[3]]
            if other:
                if allv:
                    names += [n for n in allv if n not in listed]
                    if not names:
                        return 0
                else:
                    f = 1
                    for n in listed:
                        f = B.AND(f, B.NOT(self.fvar(place, enum, [n], val)))
                    return f
            if len(allv) > 2 and other:
                rest = [n for n in allv if n not in names]
                f = self.fvar(place, enum, rest, val) if rest else 0
                return B.NOT(f)
            return self.fvar(place, enum, names, val)
        if o[0] == "k":
            return 1
        lv = nf.leaves_op(o)
        eq = lambda k: self.atom(F.cmp_atom("Eq", lv, frozenset({"K:" + k}), "+"))
        out = 0
        for x in vals:
            out = B.OR(out, eq(x))
        if other:
            g = 1
            for x in t[3]:
                g = B.AND(g, B.NOT(eq(x[0])))
            out = B.OR(out, g)
        return out

    # ------------------------------------------------------------ propagation
    def _prop(self, entry, stop, okonly, keep=None, track=True):
        nf = self.nf
        nodes = {}
        order = []
        edges = []  # per node: list of (succ node, cond)
        exits = []

        def node(b, val):
            lv = self.live.get(b, ())
            key = (b, tuple(sorted((l, d) for l, d in val.items() if l in lv or l == keep))) if track else (b, ())
            i = nodes.get(key)
            if i is None:
                i = nodes[key] = len(order)
                order.append(key)
                edges.append(None)
            return i

        node(entry, {})
        i = 0
        while i < len(order):
            if len(order) > self.MAXSTATES and track:
                return self._prop(entry, stop, okonly, keep, track=False)
            b, v = order[i]
            val = dict(v)
            if track:
                for l, d in self.bdefs.get(b, ()):
                    val[l] = d
            out = []
            if nf.B[b][1][0] != "rej":
                for s in nf.S[b]:
                    f = self.edge(b, s, val)
                    if f == 0:
                        continue
                    if stop is not None and s == stop:
                        out.append((-1, f, dict(val)))
                    else:
                        out.append((node(s, val), f, None))
            edges[i] = out
            i += 1
        n = len(order)
        raw = [list(e) for e in edges]
        for e in raw:
            for x in e:
                if x[1] > 1:
                    self.tests.add(x[1])
        ok = None
        if okonly:
            # what merely leads to failure is not a condition of what happens otherwise
            rp = defaultdict(list)
            for x in range(n):
                for e in edges[x]:
                    rp[e[0]].append(x)
            ok = set()
            st = [x for x in range(n) if nf.B[order[x][0]][1][0] == "ret" and order[x][0] not in nf.err]
            while st:
                x = st.pop()
                if x in ok:
                    continue
                ok.add(x)
                st += [y for y in rp[x] if order[y][0] not in nf.err]
            for x in ok:
                if len(edges[x]) > 1:
                    oks = [e for e in edges[x] if e[0] in ok]
                    edges[x] = [(e[0], 1 if (e[0] in ok and len(oks) == 1) or (e[0] not in ok and self._okatom(e[1])) else e[1], e[2]) for e in edges[x]]
        # depth-first order, back edges
        state = [0] * n
        post = []
        back = set()
        st = [(0, iter([e[0] for e in edges[0] if e[0] >= 0]))]
        state[0] = 1
        while st:
            x, it = st[-1]
            for y in it:
                if state[y] == 0:
                    state[y] = 1
                    st.append((y, iter([e[0] for e in edges[y] if e[0] >= 0])))
                    break
                if state[y] == 1:
                    back.add((x, y))
            else:
                state[x] = 2
                post.append(x)
                st.pop()
        topo = post[::-1]
        pos = {x: k for k, x in enumerate(topo)}
        preds = defaultdict(list)
        for x in range(n):
            for e in edges[x]:
                if e[0] >= 0:
                    preds[e[0]].append(x)
        natural = {}
        headers = sorted({h for _, h in back}, key=lambda h: pos[h])
        for h in headers:
            body = {h}
            stk = [x for x, y in back if y == h]
            while stk:
                x = stk.pop()
                if x in body:
                    continue
                if pos[x] < pos[h]:
                    continue
                body.add(x)
                stk += preds[x]
            if okonly:
                for z in body:
                    for e in raw[z]:
                        if e[1] > 1 and e[0] not in body:
                            for a in B.polar(e[1]):
                                self.exits[a[1:]].add(a[0])
            for need in (ok, None) if ok is not None else (None,):
                # one way out: it is taken whenever the loop is entered
                out = [(z, e[0]) for z in body for e in edges[z] if e[0] not in body and e[0] >= 0 and (need is None or e[0] in need)]
                if out and len({y for _, y in out}) == 1:
                    for k in out:
                        natural[k] = h
                    break
                x = h
                hit = False
                for _ in range(200):
                    ins = [e[0] for e in edges[x] if e[0] in body and (x, e[0]) not in back]
                    ex = [e[0] for e in edges[x] if e[0] not in body and e[0] >= 0 and (need is None or e[0] in need)]
                    if ex:
                        for y in ex:
                            natural[(x, y)] = h
                        hit = True
                        break
                    t = nf.B[order[x][0]][1]
                    if t[0] == "nd":
                        cb = [z for z in ins if order[z][0] == t[5]]
                        ins = cb or ins
                    if len(set(ins)) != 1:
                        break
                    x = ins[0]
                if hit or any(order[z][0] in nf.okset and (ok is None or z in ok) and any(e[0] >= 0 and e[0] not in body and e[0] in ok for e in edges[z]) for z in body):
                    break
        rc = [0] * n
        rc[0] = 1
        for x in topo:
            c = rc[x]
            if c == 0:
                continue
            for y, f, val in edges[x]:
                if y < 0:
                    exits.append((val, B.AND(c, f)))
                    continue
                if (x, y) in back:
                    continue
                h = natural.get((x, y))
                g = rc[h] if h is not None else B.AND(c, f)
                rc[y] = B.OR(rc[y], g)
        brc = {}
        for k, (b, v) in enumerate(order):
            brc[b] = B.OR(brc.get(b, 0), rc[k])
        return dict(rc=brc, exit=exits, order=order, nrc=rc, dag=(topo, edges, back, natural))

    def times(self, hits, limit=4):
        """hits: block -> how many times something happens there; when does it happen at least twice, three times, …
        on one way through (round a loop at most once)?"""
        order, (topo, edges, back, natural) = self.root["order"], self.root["dag"]
        at = {0: {0: 1}}
        out = {}
        for x in topo:
            cs = at.get(x)
            if not cs:
                continue
            h = hits.get(order[x][0], 0)
            if h:
                ns = {}
                for c, f in cs.items():
                    for k in range(c + 1, min(c + h, limit) + 1):
                        out[k] = B.OR(out.get(k, 0), f)
                    c = min(c + h, limit)
                    ns[c] = B.OR(ns.get(c, 0), f)
                cs = at[x] = ns
            for y, f, _ in edges[x]:
                if y < 0 or (x, y) in back:
                    continue
                hd = natural.get((x, y))
                d = at.setdefault(y, {})
                for c, g in (at[hd] if hd is not None else cs).items():
                    g = g if hd is not None else B.AND(g, f)
                    if g:
                        d[c] = B.OR(d.get(c, 0), g)
        return out

    # ------------------------------------------------------------ bool results
    def truth(self):
        """condition under which the root function returns true"""
        t = f = 0
        for k, (b, v) in enumerate(self.root["order"]):
            if self.nf.B[b][1][0] == "ret":
                val = dict(v)
                for l, d in self.bdefs.get(b, ()):
                    val[l] = d
                g = self.fbool([0, []], val)
                t = B.OR(t, B.AND(self.root["nrc"][k], g))
                f = B.OR(f, B.AND(self.root["nrc"][k], B.NOT(g)))
        return settle(t, f)


STDV = {"std::option::Option": ["None", "Some"], "std::result::Result": ["Ok", "Err"], "std::ops::ControlFlow": ["Continue", "Break"]}


def LOOPY(a):
    from compare import LOOPSOME

    return bool(LOOPSOME.match(a))


def settle(t, f):
    """true/false conditions of a decision taken inside a loop overlap: the more specific one decides"""
    both = B.AND(t, f)
    if both == 0:
        return t
    if both == t:
        return t
    if both == f:
        return B.AND(t, B.NOT(f))
    return t


def exclusive(f):
    """f restricted to consistent variant / constant atoms"""
    groups = defaultdict(list)
    for i in B.support(f):
        a = B.names[i]
        if a.startswith("is "):
            p = a.split(" ", 2)
            e = B.enumof.get(a)
            groups[("is", p[2], e[0] if e else None)].append((p[1], i))
        elif a.startswith("Eq ") and "K:" in a:
            m = EQK.match(a)
            if m:
                x, y = m.group(1), m.group(2)
                if ONEK.match(x):
                    x, y = y, x
                if ONEK.match(y):
                    groups[("eq", x, None)].append((y, i))
    for k, g in groups.items():
        if len(g) > 1:
            for x in range(len(g)):
                for y in range(x):
                    nb = B.NOT(B.AND(B.mk(g[x][1], 0, 1), B.mk(g[y][1], 0, 1)))
                    f = B.AND(f, nb)
            if k[2]:
                allv = next((B.enumof[B.names[i]][1] for n, i in g if B.names[i] in B.enumof), ())
                if allv and set(allv) <= {n for n, i in g}:
                    o = 0
                    for n, i in g:
                        o = B.OR(o, B.mk(i, 0, 1))
                    f = B.AND(f, o)
    return f


SINT = dict(i8=8, i16=16, i32=32, i64=64, isize=64)
UINT = dict(u8=8, u16=16, u32=32, u64=64, usize=64)
EQK = re.compile(r"^Eq (\{.*\}) (\{.*\})$")
ONEK = re.compile(r"^\{K:[^ ]*\}$")


def same(f, g):
    if f == g:
        return True
    return exclusive(B.XOR(f, g)) == 0
