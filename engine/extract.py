"""Semantic facts of a normal form: atoms, guards, effects, writes, constructions, returns, rejects."""
import re
from collections import defaultdict
from ax import canon, short, callee_key
from cond import Cond, settle
from bdd import B
from norm import NF, is_std, lastseg, CMPM, OPM, IGNORE_CALL, OPT_COMB_SOME, VARIANT_TEST

SIGSTD = set(
    """write_all sync_all sync_data set_len seek read_exact read_to_end flush fetch_add fetch_sub store load swap compare_exchange
    or_insert or_insert_with or_default insert_entry get_or_insert get_or_insert_with lock write send recv recv_timeout join spawn notify_all notify_one wait wait_timeout
    extend_from_slice insert remove clear truncate drain retain pop pop_front pop_back push push_back push_front take replace swap_remove
    sort sort_by sort_unstable sort_by_key sort_unstable_by dedup dedup_by extend append split_off remove_file create_dir_all
    copy_from_slice fill copy_within resize read_vectored reverse rotate_left shift_remove swap_remove_full
    unwrap_or unwrap_or_default unwrap_or_else min max clamp checked_add checked_sub checked_mul checked_div saturating_sub saturating_add wrapping_add wrapping_sub
    set_read_timeout set_write_timeout shutdown forget manually_drop catch_unwind from_str_radix parse hash""".split()
)
PURESTD = set("min max clamp checked_add checked_sub checked_mul checked_div saturating_sub saturating_add wrapping_add wrapping_sub unwrap_or unwrap_or_default unwrap_or_else parse from_str_radix load".split())


def ls(s):
    return "{" + " ".join(sorted(s)) + "}"


APPEND = {"push": "append", "push_back": "append", "extend": "append", "extend_from_slice": "append"}
NEG = {"+": "-", "-": "+"}


def fmtc(f):
    if f == 1:
        return "always"
    if f == 0:
        return "never"
    return " & ".join(sorted(B.polar(f))) 


class Facts:
    def __init__(self, nf, prog):
        self.nf = nf
        self.prog = prog
        self._g = {}
        self._ge = {}
        self._stk = {}
        self._low = 1 << 30
        self.cond = Cond(self)
        self.run()

    # -------------------------------------------------------------- atoms
    def cmp_atom(self, op, a, b, pol, unsigned=None):
        """a,b leaf sets; returns (atom, pol)"""
        if op == "Ne":
            op, pol = "Eq", NEG[pol]
        if op in ("Gt",):
            op, a, b = "Lt", b, a
        elif op == "Ge":
            # a>=b == not a<b
            op, pol = "Lt", NEG[pol]
        elif op == "Le":
            # a<=b == not b<a
            op, a, b, pol = "Lt", b, a, NEG[pol]
        if op == "Lt" and unsigned and (self._int(b) == 1 or self._int(a) == 0):
            # nothing is below zero
            if self._int(b) == 1:
                op, b = "Eq", frozenset({"K:0"})
            else:
                op, pol = "Eq", NEG[pol]
        if op == "Lt":
            ka, kb = self._int(a), self._int(b)
            if ka is not None and kb is None:
                # K<x == not x<K+1
                a, b, pol = b, frozenset({f"K:{ka+1}"}), NEG[pol]
                kb = ka + 1
            if kb == 1 and "L" in a:
                op, b = "Eq", frozenset({"K:0"})
        if op == "Eq":
            if ls(b) < ls(a):
                a, b = b, a
            if "C:discriminant" in a and "C:discriminant" in b:
                # comparing tags: with that of a constant it asks for the variant
                x, y = a - {"C:discriminant"}, b - {"C:discriminant"}
                if any(len(z) == 1 and next(iter(z)).startswith("V:") for z in (x, y)):
                    a, b = x, y
            # x == true
            for x, y in ((a, b), (b, a)):
                if x == {"K:true"}:
                    return ("b " + ls(y), pol)
                if x == {"K:false"}:
                    return ("b " + ls(y), NEG[pol])
            for x, y in ((a, b), (b, a)):
                if len(x) == 1:
                    v = next(iter(x))
                    if v.startswith("V:") and "::" in v:
                        en, vn = v[2:].split("::")[-2:]
                        for k, ad in self.prog.adts.items():
                            if ad["kind"] == "enum" and k.endswith("::" + en) and any(w[0] == vn for w in ad["variants"]):
                                from compare import cla

                                B.enumof[cla("is " + vn + " " + ls(y))] = (en, tuple(w[0] for w in ad["variants"]))
                                break
                        return ("is " + v.split("::")[-1] + " " + ls(y), pol)
        return (f"{op} {ls(a)} {ls(b)}", pol)

    UNS = set("u8 u16 u32 u64 u128 usize".split())

    def unsigned(self, *ops):
        return any(o[0] == "k" and o[1].get("t") in self.UNS or o[0] != "k" and self.nf._ty_of(o[1]) in self.UNS for o in ops)

    @staticmethod
    def _int(s):
        if len(s) == 1:
            v = next(iter(s))
            if re.match(r"^K:-?\d+$", v):
                return int(v[2:])
        return None

    def variant_atoms(self, place, enum, names, pol, depth=0):
        nf = self.nf
        if enum.startswith("std::ops::ControlFlow"):
            return set()
        if enum.endswith("cmp::Ordering") or enum == "std::cmp::Ordering":
            pass
        base = nf.resolve_place(place)
        out = set()
        if not nf._norm_proj(base[1]):
            ds = [d for d in nf.D.get(base[0], []) if d[1] in ("rv", "call") and not d[3]]
            # element of an iterator
            if len(ds) == 1 and ds[0][1] == "call":
                t = ds[0][2]
                fd = t[1].get("fn")
                if fd:
                    seg = lastseg(canon(fd["p"]))
                    if seg in ("next", "next_back") and "terator" in fd["p"]:
                        return self.loop_atom(t, names, pol)
                    if seg in ("then_some", "then") and is_std(canon(fd["p"])) and t[2] and t[2][0][0] in ("c", "m"):
                        return self.op_atoms(t[2][0], "+" if (("Some" in names) == (pol == "+")) else "-", depth + 1)
                    if seg in ("first", "first_mut", "last", "get") and is_std(canon(callee_key(fd))) and t[2] and t[2][0][0] in ("c", "m"):
                        some = ("Some" in names) == (pol == "+")
                        rl = nf.leaves_op(t[2][0])
                        if seg == "get":
                            if len(t[2]) == 2 and ("slice" in fd["p"] or "Vec" in fd["p"]):
                                return {self.cmp_atom("Lt", nf.leaves_op(t[2][1]), frozenset({"L"} | set(rl)), "+" if some else "-")}
                        else:
                            return {self.cmp_atom("Eq", frozenset({"L"} | set(rl)), frozenset({"K:0"}), "-" if some else "+")}
                    cl = self.closure_atoms(t, seg, "+" if (("Some" in names) == (pol == "+")) else "-", depth)
                    out |= cl
                    c = canon(callee_key(fd))
                    if is_std(canon(fd["p"])) and seg in ("as_ref", "as_mut", "as_deref", "as_deref_mut", "cloned", "copied", "ok", "map_err", "ok_or", "ok_or_else", "iter", "err", "inspect_err", "map", "as_slice", "clone") and t[2] and t[2][0][0] in ("c", "m") and depth < 60:
                        ty = nf._ty_of(t[2][0][1])
                        tt = ty.lstrip("&").replace("mut ", "")
                        if tt.startswith("std::option::Option") or tt.startswith("std::result::Result"):
                            if seg == "err":
                                names2 = ["Err" if n == "Some" else "Ok" for n in names]
                            elif tt.startswith("std::result::Result"):
                                names2 = ["Ok" if n in ("Some", "Ok") else "Err" for n in names]
                            else:
                                names2 = ["Some" if n in ("Some", "Ok") else "None" for n in names]
                            en = "std::option::Option" if tt.startswith("std::option") else "std::result::Result"
                            return out | self.variant_atoms([t[2][0][1][0], t[2][0][1][1] + (["*"] if ty.startswith("&") else [])], en, names2, pol, depth + 1)
            # phi of aggregates
            aggs = [d for d in ds if d[1] == "rv" and d[2][0] == "agg" and d[2][1][0] == "adt"]
            if len(ds) >= 2 and len(aggs) >= 1 and depth < 60:
                for d in ds:
                    if d[1] == "rv" and d[2][0] == "agg" and d[2][1][0] == "adt":
                        hit = d[2][1][2] in names
                        if hit == (pol == "+"):
                            out |= self.guards(d[0], depth + 1)
                    elif d[1] == "rv" and d[2][0] == "use" and d[2][1][0] in ("c", "m"):
                        out |= self.guards(d[0], depth + 1)
                        out |= self.variant_atoms(d[2][1][1], enum, names, pol, depth + 1)
                    elif d[1] == "call":
                        out |= self.guards(d[0], depth + 1)
                        out.add((f"is {'|'.join(sorted(names))} {ls(nf.leaves_place(place))}", pol))
                return out
            if len(ds) == 1 and ds[0][1] == "rv" and ds[0][2][0] == "use" and ds[0][2][1][0] in ("c", "m") and depth < 60:
                return self.variant_atoms(ds[0][2][1][1], enum, names, pol, depth + 1)
        lv = nf.leaves_place(place)
        if names == ["None"]:
            names, pol = ["Some"], NEG[pol]
        if names == ["Err"] and enum.startswith("std::result"):
            names, pol = ["Ok"], NEG[pol]
        all_ = self.prog.variants(enum)
        if all_ and len(all_) == 2 and len(names) == 1 and all_.index(names[0]) == 1 and not enum.startswith("std::"):
            names, pol = [all_[0]], NEG[pol]
        return out | {(f"is {'|'.join(sorted(names))} {ls(lv)}", pol)}

    def loop_atom(self, t, names, pol):
        """`next()` on an iterator: bounds of ranges matter, iteration over a collection does not"""
        nf = self.nf
        if not t[2] or t[2][0][0] == "k":
            return set()
        some = ("Some" in names) == (pol == "+")
        p = nf.resolve_place([t[2][0][1][0], t[2][0][1][1] + ["*"]])
        for _ in range(6):
            ds = [d for d in nf.D.get(p[0], []) if d[1] in ("rv", "call") and not d[3]]
            if len(ds) != 1:
                return set()
            d = ds[0]
            if d[1] == "rv":
                r = d[2]
                if r[0] == "use" and r[1][0] in ("c", "m"):
                    p = r[1][1]
                    continue
                if r[0] == "agg" and r[1][0] == "adt" and r[1][1] == "std::ops::Range":
                    lo, hi = nf.leaves_op(r[2][0]), nf.leaves_op(r[2][1])
                    iv = frozenset({"IV"} | set(lo))
                    if "L" in hi and self._int(lo) == 0:
                        return set()
                    a, q = self.cmp_atom("Lt", iv, hi, "+" if some else "-")
                    return {(a, q)}
                return set()
            c = d[2]
            fd = c[1].get("fn")
            if not fd:
                return set()
            seg = lastseg(canon(fd["p"]))
            if seg == "into_iter" and c[2] and c[2][0][0] in ("c", "m"):
                p = c[2][0][1]
                continue
            if "RangeInclusive" in fd["p"] and seg == "new":
                lo, hi = nf.leaves_op(c[2][0]), nf.leaves_op(c[2][1])
                a, q = self.cmp_atom("Le", frozenset({"IV"} | set(lo)), hi, "+" if some else "-")
                return {(a, q)}
            return set()
        return set()

    def closure_atoms(self, t, seg, pol, depth):
        """atoms of a predicate closure handed to a combinator"""
        out = set()
        if seg in ("any", "all", "filter", "find", "position", "is_some_and", "is_none_or", "rposition", "take_while", "skip_while", "map_or", "is_ok_and", "retain", "find_map", "filter_map", "then", "then_some") and depth < 60:
            for lb, sg, cid in t[6]:
                if self.nf.locals[lb] == "bool":
                    out |= self.bool_atoms([lb, []], pol, depth + 1)
                elif self.nf.locals[lb].startswith("std::option::Option"):
                    out |= self.variant_atoms([lb, []], "std::option::Option", ["Some"], pol, depth + 1)
        return out

    def bool_atoms(self, place, pol, depth=0):
        nf = self.nf
        if depth > 60:
            return set()
        if place[1]:
            base = nf.resolve_place(place)
            if base[1]:
                bp = nf._norm_proj(base[1])
                if bp and bp[-1][0] == "tuple":
                    # bool inside a locally built tuple (match (a, b) { (true, false) => .. })
                    ds = [d for d in nf.D.get(base[0], []) if d[1] == "rv" and not d[3]]
                    if len(ds) == 1 and ds[0][2][0] == "agg" and ds[0][2][1][0] == "tuple" and len(bp) == 1:
                        o = ds[0][2][2][int(bp[0][1])]
                        if o[0] in ("c", "m"):
                            return self.bool_atoms(o[1], pol, depth + 1)
                        return set()
                return {("b " + ls(nf.leaves_place(place)), pol)}
            place = base
        l = place[0]
        ds = [d for d in nf.D.get(l, []) if d[1] in ("rv", "call") and not d[3]]
        if not ds:
            return {("b " + ls(nf.leaves_place(place)), pol)}
        out = set()
        multi = len(ds) > 1
        for d in ds:
            if d[1] == "rv":
                r = d[2]
                if r[0] == "use" and r[1][0] == "k":
                    v = r[1][1].get("v")
                    if v is not None and multi:
                        if (v == "1") == (pol == "+"):
                            out |= self.guards(d[0], depth + 1)
                    continue
                if multi:
                    out |= self.guards(d[0], depth + 1)
                out |= self.rv_atoms(r, pol, depth)
            else:
                if multi:
                    out |= self.guards(d[0], depth + 1)
                out |= self.call_atoms(d[2], pol, depth)
        return out

    def range_bounds(self, place):
        """(lo, hi, inclusive) leaf sets of a locally built (or constant) range"""
        nf = self.nf
        p = nf.resolve_place([place[0], place[1] + ["*"]])
        ds = [d for d in nf.D.get(p[0], []) if d[1] in ("rv", "call") and not d[3]]
        if len(ds) != 1:
            return None
        d = ds[0]
        if d[1] == "rv" and d[2][0] == "agg" and d[2][1][0] == "adt" and d[2][1][1] == "std::ops::Range":
            return nf.leaves_op(d[2][2][0]), nf.leaves_op(d[2][2][1]), False
        if d[1] == "call" and d[2][1].get("fn") and "RangeInclusive" in d[2][1]["fn"]["p"] and lastseg(canon(d[2][1]["fn"]["p"])) == "new":
            return nf.leaves_op(d[2][2][0]), nf.leaves_op(d[2][2][1]), True
        if d[1] == "rv" and d[2][0] == "use" and d[2][1][0] == "k" and "prom" in d[2][1][1]:
            pr = d[2][1][1]["prom"]
            f = self.prog.fns.get(f"{pr[0]}#prom{pr[1]}") or self.prog.fns.get(f"{nf.root.crate}!{pr[0]}#prom{pr[1]}")
            if f is not None:
                sub = Facts.__new__(Facts)
                sub.nf = NF(self.prog, f, lambda g: False)
                sub.prog = self.prog
                return sub.range_bounds([0, []])
        return None

    def op_atoms(self, o, pol, depth):
        if o[0] == "k":
            return set()
        return self.bool_atoms(o[1], pol, depth + 1)

    def rv_atoms(self, r, pol, depth):
        nf = self.nf
        if r[0] == "use":
            return self.op_atoms(r[1], pol, depth)
        if r[0] == "un" and r[1] == "Not":
            return self.op_atoms(r[2], NEG[pol], depth)
        if r[0] == "bin":
            op = r[1]
            if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                a, b = nf.leaves_op(r[2]), nf.leaves_op(r[3])
                # comparisons of discriminants
                da = self._discr_src(r[2])
                if da and r[3][0] == "k" and "v" in r[3][1] and op in ("Eq", "Ne"):
                    nm = self.prog.variant_name(da[1], r[3][1]["v"])
                    return self.variant_atoms(da[0], da[1], [nm], pol if op == "Eq" else NEG[pol], depth + 1)
                return {self.cmp_atom(op, a, b, pol, self.unsigned(r[2], r[3]))}
            if op in ("BitAnd", "BitOr", "BitXor"):
                return self.op_atoms(r[2], pol, depth) | self.op_atoms(r[3], pol, depth)
        return {("b " + ls(self._rvl(r)), pol)}

    def _rvl(self, r):
        d, deps = set(), []
        self.nf._rv(r, (), d, deps)
        for k, tag in deps:
            d |= NF._tag(self.nf._get(k), tag)
        return d

    def _discr_src(self, o):
        if o[0] in ("c", "m") and not o[1][1]:
            ds = [d for d in self.nf.D.get(o[1][0], []) if d[1] == "rv"]
            if len(ds) == 1 and ds[0][2][0] == "discr":
                return ds[0][2][1], ds[0][2][2]
        return None

    def call_atoms(self, t, pol, depth):
        nf = self.nf
        fd = t[1].get("fn")
        if not fd:
            return {("b {C:indirect}", pol)}
        c = canon(callee_key(fd))
        pth = canon(fd["p"])
        seg = lastseg(c)
        a = t[2]
        if c in VARIANT_TEST and a and a[0][0] in ("c", "m"):
            pl = a[0][1]
            return self.variant_atoms([pl[0], pl[1] + ["*"]], VARIANT_TEST[c][0], [VARIANT_TEST[c][1]], pol, depth + 1)
        if is_std(pth):
            if seg in CMPM and len(a) == 2 and ("cmp" in pth):
                return {self.cmp_atom(CMPM[seg][0], nf.leaves_op(a[0]), nf.leaves_op(a[1]), pol)}
            if is_std(c):
                if seg in ("is_some", "is_none", "is_ok", "is_err") and a[0][0] in ("c", "m"):
                    en = "std::option::Option" if seg in ("is_some", "is_none") else "std::result::Result"
                    nm = {"is_some": "Some", "is_none": "None", "is_ok": "Ok", "is_err": "Err"}[seg]
                    pl = a[0][1]
                    return self.variant_atoms([pl[0], pl[1] + ["*"]], en, [nm], pol, depth + 1)
                if seg == "is_empty":
                    return {self.cmp_atom("Eq", frozenset({"L"} | set(nf.leaves_op(a[0]))), frozenset({"K:0"}), pol)}
                if seg in ("not",):
                    return self.op_atoms(a[0], NEG[pol], depth)
                if seg == "is_multiple_of" and len(a) == 2:
                    lv = frozenset({"O:Rem"} | set(nf.leaves_op(a[0])) | NF._tag(nf.leaves_op(a[1]), "-"))
                    return {self.cmp_atom("Eq", lv, frozenset({"K:0"}), pol)}
                if seg == "contains" and "Range" in pth and len(a) == 2 and a[0][0] in ("c", "m"):
                    b = self.range_bounds(a[0][1])
                    if b:
                        x = nf.leaves_op(a[1])
                        return {self.cmp_atom("Ge", x, b[0], pol), self.cmp_atom("Le" if b[2] else "Lt", x, b[1], pol)}
                if t[6] and seg in ("any", "all", "is_some_and", "is_none_or", "map_or", "is_ok_and", "contains"):
                    p2 = pol
                    return self.closure_atoms(t, seg, p2, depth)
                if seg in ("unwrap_or", "unwrap_or_default") and a[0][0] in ("c", "m") and not a[0][1][1]:
                    ds = [d for d in nf.D.get(a[0][1][0], []) if d[1] in ("rv", "call") and not d[3]]
                    if len(ds) == 1 and ds[0][1] == "call" and ds[0][2][6] and ds[0][2][1].get("fn") and lastseg(canon(ds[0][2][1]["fn"]["p"])) == "map":
                        return self.closure_atoms(ds[0][2], "any", pol, depth)
                if seg in ("unwrap", "unwrap_or", "unwrap_or_default", "clone", "deref", "expect", "then_some", "branch", "into"):
                    if a[0][0] in ("c", "m"):
                        return {("b " + ls(set().union(*[nf.leaves_op(x) for x in a])), pol)}
                if seg == "contains_key" and len(a) == 2:
                    return {("is Some " + ls(set().union(*[nf.leaves_op(x) for x in a]) | {"C:get"}), pol)}
                lv = set()
                for x in a:
                    lv |= nf.leaves_op(x)
                return {(f"b {seg} {ls(lv)}", pol)}
            # a workspace impl of a std trait
        lv = [ls(nf.leaves_op(x)) for x in a]
        return {(f"b {short(c)}({','.join(lv)})", pol)}

    def edge_atoms(self, u, v, depth=0):
        return self._memo(self._ge, (u, v), lambda: self._edge_atoms(u, v, depth))

    def _memo(self, table, key, f):
        """memoised evaluation; results that were cut by a cycle are not kept (keeps the outcome independent of query order)"""
        if key in table:
            return table[key]
        sk = (id(table), key)
        if sk in self._stk:
            self._low = min(self._low, self._stk[sk])
            return set()
        pos = len(self._stk)
        self._stk[sk] = pos
        outer = self._low
        self._low = 1 << 30
        r = f()
        del self._stk[sk]
        mine = self._low
        if mine >= pos:
            table[key] = r
            self._low = outer
        else:
            self._low = min(outer, mine)
        return r

    def _edge_atoms(self, u, v, depth=0):
        t = self.nf.B[u][1]
        nf = self.nf
        out = set()
        if t[0] == "sw":
            vals = [x[0] for x in t[3] if x[1] == v]
            other = t[4] == v
            o = t[1]
            if t[2] == "bool":
                if vals and not other:
                    out = self.op_atoms(o, "-" if vals == ["0"] else "+", depth)
                elif other and not vals:
                    out = self.op_atoms(o, "+" if any(x[0] == "0" for x in t[3]) else "-", depth)
            else:
                d = self._discr_src(o)
                if d:
                    place, enum = d
                    allv = self.prog.variants(enum)
                    names = [self.prog.variant_name(enum, x) for x in vals]
                    if other:
                        listed = [self.prog.variant_name(enum, x[0]) for x in t[3]]
                        # otherwise is dead when all variants are listed
                        rest = [n for n in allv if n not in listed]
                        names = names + rest
                        if not rest and not vals:
                            names = []
                    if names:
                        if len(allv) > 2 and len(names) > len(allv) / 2:
                            names2 = [n for n in allv if n not in names]
                            if names2:
                                out = self.variant_atoms(place, enum, names2, "-", depth)
                        else:
                            out = self.variant_atoms(place, enum, names, "+", depth)
                else:
                    lv = nf.leaves_op(o) if o[0] != "k" else frozenset()
                    if o[0] != "k":
                        out = set()
                        if vals and not other:
                            if len(vals) == 1:
                                out = {self.cmp_atom("Eq", lv, frozenset({"K:" + vals[0]}), "+")}
                            else:
                                out = {(f"in {'|'.join(sorted(vals))} {ls(lv)}", "+")}
                        elif other:
                            for x in t[3]:
                                if x[1] != v:
                                    out.add(self.cmp_atom("Eq", lv, frozenset({"K:" + x[0]}), "-"))
        elif t[0] == "nd":
            seg, recv, pth, cb = t[2], t[3], t[4], t[5]
            if v != cb and recv is not None and recv[0] in ("c", "m"):
                ty = nf._ty_of(recv[1]).lstrip("&").replace("mut ", "")
                if ty.startswith(("std::option::Option", "std::result::Result")):
                    en = "std::option::Option" if ty.startswith("std::option") else "std::result::Result"
                    good = "Some" if en.endswith("Option") else "Ok"
                    if seg in OPT_COMB_SOME:
                        out = self.variant_atoms(recv[1], en, [good], "+", depth + 1)
                    elif seg in ("unwrap_or_else", "or_else", "ok_or_else", "map_err", "get_or_insert_with", "inspect_err"):
                        out = self.variant_atoms(recv[1], en, [good], "-", depth + 1) if seg not in ("ok_or_else", "map_err", "inspect_err") else set()
                elif ty == "bool" and seg in ("then",):
                    out = self.op_atoms(recv, "+", depth + 1)
        return out

    # -------------------------------------------------------------- guards
    def guards(self, b, depth=0):
        nf = self.nf
        if b in nf.okset:
            return self._guards(b, nf.cd_ok(), "ok", depth)
        return self._guards(b, nf.cd_full(), "full", depth)

    def _guards(self, b, cd, tag, depth):
        return self._memo(self._g, (b, tag), lambda: self._guards0(b, cd, depth))

    def _guards0(self, b, cd, depth):
        seen = set()
        edges = set()
        todo = [b]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for (u, v) in cd.get(x, ()):
                if (u, v) not in edges:
                    edges.add((u, v))
                    todo.append(u)
        out = set()
        for (u, v) in edges:
            out |= self.edge_atoms(u, v, depth + 1)
        return out

    # -------------------------------------------------------------- run
    def run(self):
        nf = self.nf
        self.atoms = defaultdict(int)
        self.effects = []  # dict(callee, args, guards, line, blk, tail)
        self.writes = []
        self.cons = []
        self.rejects = []
        self.cbrets = []
        self.phis = []  # (leaf set, condition) of locals with several definitions
        self.returns = []
        self.okors = []
        for i in sorted(nf.reach):
            ss, t, fid = nf.B[i]
            if i not in nf.canret and t[0] != "rej" and not self._feeds_rej(i):
                # only panics beyond this point
                if t[0] == "call" and not IGNORE_CALL.search(canon(callee_key(t[1]["fn"])) if t[1].get("fn") else ""):
                    pass
                continue
            for self._pos, s in enumerate(ss):
                if s[0] != "=":
                    continue
                self._stmt(i, s)
            tt = t[1] if t[0] == "rej" else t
            if tt[0] == "call":
                self._eff(i, tt)
        for f in self.cond.tests:
            for a in B.atoms(f):
                self.atoms[a] += 1
        if nf.locals[0] == "bool":
            for a in B.atoms(self.cond.truth()):
                self.atoms[a] += 1
        made = self._madeup()
        for i in sorted(nf.reach):
            tt = nf.B[i][1]
            tt = tt[1] if tt[0] == "rej" else tt
            if tt[0] == "call" and tt[1].get("fn") and tt[2]:
                c, seg = canon(tt[1]["fn"]["p"]), lastseg(tt[1]["fn"]["p"])
                if is_std(c) and ("slice" in c or "vec" in c or "Vec" in c):
                    # an element that may not be there: a test of the length
                    if seg in ("get", "get_mut") and len(tt[2]) == 2:
                        self.atoms[self.cmp_atom("Lt", nf.leaves_op(tt[2][1]), frozenset({"L"} | set(nf.leaves_op(tt[2][0]))), "+")[0]] += 1
                    elif seg in ("first", "first_mut", "last", "last_mut"):
                        self.atoms[self.cmp_atom("Eq", frozenset({"L"} | set(nf.leaves_op(tt[2][0]))), frozenset({"K:0"}), "-")[0]] += 1
            for s in nf.B[i][0]:
                if s[0] == "=" and not s[1][1] and s[1][0] not in made and nf.locals[s[1][0]] == "bool" and s[2][0] == "bin" and s[2][1] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                    a = self.rv_atoms(s[2], "+", 0)
                    for x in a:
                        self.atoms[x[0]] += 1
        for i in sorted(nf.err):
            self._reject(i)
        for i, d, t, val in self.okors:
            # opt.ok_or(e): e is the outcome exactly when there is nothing
            rc = B.AND(self.cond.rc.get(i, 0), B.NOT(self.cond.fvar(self.cond._recvplace(t[2][0]), "std::option::Option", ["Some"], {})))
            self.rejects.append(dict(err=frozenset(x for x in val if x.startswith(("V:", "K:", "C:"))), rc=rc, line=t[5], blk=i, fn=nf.B[i][2]))
            todo = [t[2][1]] if len(t[2]) > 1 else []
            while todo:
                o = todo.pop()
                if o[0] not in ("c", "m"):
                    continue
                b = nf.resolve_place(o[1])[0]
                for c in self.cons:
                    if c["dst"] == b and c["rc"] != rc:
                        c["rc"] = rc
                        todo += c["ops"]
        self._phis()
        self._ret()

    def _madeup(self):
        """truth values the compiler checks a pointer with"""
        nf = self.nf
        made = set()
        todo = [nf.B[i][1][1] for i in nf.reach if nf.B[i][1][0] == "assert" and nf.B[i][1][3] == "other"]
        while todo:
            o = todo.pop()
            if o[0] not in ("c", "m") or o[1][1] or o[1][0] in made or nf.locals[o[1][0]] != "bool":
                continue
            made.add(o[1][0])
            for d in nf.D.get(o[1][0], []):
                if d[1] == "rv":
                    todo += d[2][2:4] if d[2][0] == "bin" else d[2][2:3] if d[2][0] == "un" else [d[2][1]] if d[2][0] == "use" else []
        return made

    def _feeds_rej(self, i):
        if not hasattr(self, "_rejreach"):
            nf = self.nf
            seen = set()
            st = [x for x in nf.reach if nf.B[x][1][0] == "rej"]
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                st += nf.P[x]
            self._rejreach = seen
        return i in self._rejreach

    HANDOUT = set("get_mut get_unchecked_mut first_mut last_mut iter_mut into_iter next next_back as_mut as_deref_mut by_ref values_mut enumerate zip rev skip take unwrap expect unwrap_unchecked ok_or ok_or_else peek_mut deref_mut as_mut_slice write lock write_arc lock_arc borrow_mut".split())

    def _through(self, place):
        """the place inside which a reference handed out by a container points"""
        nf = self.nf
        p, hop = place, False
        for _ in range(20):
            p = nf.resolve_place(p)
            if hop and [x for x in nf._norm_proj(p[1]) if x[0] not in ("[]", "[c]", "closure", "tuple", "+", "-") and not x[0].startswith("std::")]:
                return p
            if 1 <= p[0] <= nf.argc:
                return p if hop else None
            ds = [d for d in nf.D.get(p[0], []) if d[1] in ("rv", "call") and not d[3]]
            if len(ds) != 1:
                return None
            d = ds[0][2]
            if ds[0][1] == "rv":
                o = d[1][0] if d[0] == "union" else d[1] if d[0] == "use" else ["c", d[2]] if d[0] == "ref" else None
                if o is None or o[0] not in ("c", "m"):
                    return None
                p = [o[1][0], o[1][1] + ["*"]]
                continue
            fd = d[1].get("fn")
            if not fd or not is_std(canon(fd["p"])) or lastseg(canon(fd["p"])) not in self.HANDOUT or not d[2] or d[2][0][0] not in ("c", "m"):
                return None
            p, hop = [d[2][0][1][0], d[2][0][1][1] + ["*"]], True
        return None

    def _stmt(self, i, s):
        nf = self.nf
        place, r, line = s[1], s[2], s[3]
        if place[1] == ["*"] and r[0] != "ref":
            bp = nf.resolve_place(place)
            if bp[1] and [x for x in nf._norm_proj(bp[1]) if x[0] not in "+-"]:
                place = bp
        pr = nf._norm_proj(place[1])
        if not pr and place[1] and r[0] != "ref":
            # through what a container hands out
            q = self._through(place)
            if q is not None:
                pr = nf._norm_proj(q[1]) + (("[]", ""),)
                place = q
        if pr:
            # field write
            fields = [(o, n) for o, n in pr if o not in ("[]", "[c]", "closure", "tuple", "+", "-") and not o.startswith("std::")]
            if fields:
                o, n = fields[-1]
                base = nf.resolve_place(place)
                d, deps = set(), []
                if r[0] == "bin" and r[1] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne") or nf._ty_of(place) == "bool" and r[0] in ("use", "un", "bin"):
                    d = {self.truth_at(i, lambda val: self.cond.frv(r, val, 0))}
                else:
                    d = self._rvl(r)
                b = nf._node((base[0], ()))[0] if 1 <= base[0] <= nf.argc else set()
                self.writes.append(dict(field=f"{short(o)}.{n}", val=frozenset(d), rc=self.cond.rc.get(i, 0), line=line, blk=i, fn=nf.B[i][2], idx=any(x[0] in ("[]",) for x in pr), place=base, pos=self._pos))
            elif any(o in ("[]",) for o, n in pr):
                d = self._rvl(r)
                base = nf.resolve_place(place)
                self.writes.append(dict(field="[]", val=frozenset(d | {"@" + x for x in nf.leaves_place([place[0], []]) if x.startswith(("F:", "P"))}), rc=self.cond.rc.get(i, 0), line=line, blk=i, fn=nf.B[i][2], idx=True))
        elif place[1] == ["*"] and r[0] not in ("ref",):
            # write through a &mut parameter
            base = nf.resolve_place(place)
            if 1 <= base[0] <= nf.argc:
                self.writes.append(dict(field=f"*P{base[0]}", val=frozenset(self._rvl(r)), rc=self.cond.rc.get(i, 0), line=line, blk=i, fn=nf.B[i][2], idx=False))
        if r[0] == "agg" and r[1][0] == "adt":
            path, var, names = r[1][1], r[1][2], r[1][3]
            if not path.startswith(("std::", "core::", "alloc::")) and place[0] in nf.live():
                fs = {}
                for n, o in zip(names, r[2]):
                    fs[n] = self.val(o, i)
                self.cons.append(dict(dst=place[0], ops=r[2], adt=short(path) if "::" in path else path, variant=var, fields=fs, rc=self.cond.rc.get(i, 0), line=line, blk=i, fn=nf.B[i][2]))

    def _eff(self, i, t):
        nf = self.nf
        fd = t[1].get("fn")
        if not fd:
            self.effects.append(dict(callee="indirect", std=False, args=[nf.leaves_op(a) for a in t[2]], rc=self.cond.rc.get(i, 0), line=t[5], blk=i, fn=nf.B[i][2], sig=True))
            return
        key = callee_key(fd)
        c = canon(key)
        pth = canon(fd["p"])
        if IGNORE_CALL.search(c) or IGNORE_CALL.search(pth):
            return
        seg = lastseg(c)
        std = is_std(c) or (is_std(pth) and not fd.get("r"))
        if std and seg in ("ok_or", "ok_or_else") and "ption" in c and t[2][0][0] in ("c", "m"):
            v = frozenset().union(*[nf.leaves_place([lb, []]) for lb, sg, cid in t[6]]) if t[6] else nf.leaves_op(t[2][1])
            self.okors.append((i, fd, t, v))
        if is_std(pth) and not is_std(c):
            # workspace impl of a std trait
            if seg in CMPM or seg in ("clone", "fmt", "deref", "deref_mut", "as_ref", "as_mut", "borrow", "drop", "next", "from", "into", "index", "index_mut", "default", "hash", "cmp", "partial_cmp", "add", "sub", "to_string", "try_from", "into_iter", "from_residual", "branch"):
                sig = seg in ("from", "hash", "cmp", "partial_cmp", "try_from", "drop")
            else:
                sig = True
            if sig is False:
                return
        if std and seg in ("collect", "count", "sum", "product", "last", "nth", "min_by_key", "max_by_key", "min", "max", "min_by", "max_by", "reduce", "fold", "try_fold", "unzip", "next", "extend") and "terator" in t[1]["fn"]["p"] + c and t[2] and t[2][0][0] in ("c", "m"):
            # what a consumer gets is what the filters let through
            f = self.cond._filters(t[2][0])
            if f != 1:
                self.phis.append((frozenset(nf.leaves_op(t[2][0])), B.AND(self.cond.rc.get(i, 0), f)))
        if std and seg == "filter" and t[6] and "ption" in c and t[2][0][0] in ("c", "m"):
            v = frozenset(x for x in nf.leaves_op(t[2][0]) if not x.startswith("M:"))
            self.phis.append((v or frozenset({"O:filter"}), B.AND(self.cond.rc.get(i, 0), self.cond.clo(t[6][0][0], "b"))))
        if std and seg not in SIGSTD:
            return
        args = []
        for a in t[2]:
            args.append(self.val(a, i))
        name = (seg if std else short(c))
        if std and "ntry" in c and seg in ("or_insert", "or_insert_with", "or_default", "insert", "insert_entry") and t[2]:
            # map.entry(k).or_insert(v): an insertion when the key is absent
            e = self._entrycall(t[2][0])
            if e is not None:
                en, et = e
                rc = self.cond.rc.get(i, 0)
                if seg.startswith("or_"):
                    lv = frozenset({"C:get"}).union(*[nf.leaves_op(x) for x in et[2]])
                    rc = B.AND(rc, B.NOT(self.cond.atom(("is Some " + ls(lv), "+"))))
                val = frozenset().union(*[nf.leaves_place([lb, []]) for lb, sg, cid in t[6]]) if t[6] else args[1] if len(args) > 1 else frozenset()
                self.effects.append(dict(callee=en + "::insert", std=True, full=c, args=[nf.leaves_op(x) for x in et[2]] + [val], rc=rc, line=t[5], blk=i, fn=nf.B[i][2]))
                return
        if std and seg in ("take", "replace", "insert", "get_or_insert", "get_or_insert_with") and ("::Option" in c or c.startswith("std::mem")) and t[2] and t[2][0][0] in ("c", "m"):
            # replacing a value in place is a write of that place
            base = nf.resolve_place([t[2][0][1][0], t[2][0][1][1] + ["*"]])
            pr = nf._norm_proj(base[1])
            fields = [(o, n) for o, n in pr if o not in ("[]", "[c]", "closure", "tuple", "+", "-") and not o.startswith("std::")]
            rc = self.cond.rc.get(i, 0)
            if seg == "take":
                val = frozenset({"V:None"}) if "::Option" in c else frozenset()
            elif t[6]:
                val = frozenset().union(*[nf.leaves_place([lb, []]) for lb, sg, cid in t[6]])
            else:
                val = args[-1]
            if seg.startswith("get_or_insert"):
                rc = B.AND(rc, B.NOT(self.cond.fvar(base, "std::option::Option", ["Some"], {})))
            if fields:
                self.writes.append(dict(field=f"{short(fields[-1][0])}.{fields[-1][1]}", val=val, rc=rc, line=t[5], blk=i, fn=nf.B[i][2], idx=False, taken=seg == "take" and "::Option" not in c))
                return
            if 1 <= base[0] <= nf.argc:
                self.writes.append(dict(field=f"*P{base[0]}", val=val, rc=rc, line=t[5], blk=i, fn=nf.B[i][2], idx=False))
            return
        if std:
            m = re.search(r"(\w+)::\w+$", c)
            owner = m.group(1) if m else ""
            name = f"{owner}::{APPEND.get(seg, seg)}"
            if seg in ("push", "push_back", "insert", "extend", "extend_from_slice", "append", "pop", "remove", "clear", "truncate", "drain", "retain", "take", "replace", "sort", "sort_by", "push_front", "pop_front", "pop_back"):
                # local collections are not state
                if args and (not any(x.startswith(("F:", "P", "up")) for x in args[0]) or self._localcol(t[2][0])):
                    name = "local " + name
                    if len(args) > 1:
                        self.phis.append((frozenset().union(*args[1:]), self.cond.rc.get(i, 0)))
        g = t[1]["fn"].get("g") if not std else None
        if not std or seg == "retain":
            for lb, sg, cid in t[6]:
                self._cbret(name, lb)
        fate = self.fate(t[3][0]) if nf.locals[t[3][0]].startswith("std::result::Result") and not t[3][1] else None
        self.effects.append(dict(callee=name, std=std, full=c, args=args, rc=self.cond.rc.get(i, 0), line=t[5], blk=i, fn=nf.B[i][2], generics=g, fate=fate, ops=t[2], dest=t[3]))
        if name.startswith("local ") and t[2][0][0] in ("c", "m"):
            b = nf.resolve_place([t[2][0][1][0], t[2][0][1][1] + ["*"]])
            self.effects[-1]["of"] = nf.locals[b[0]] if not nf._norm_proj(b[1]) else ""

    def _uses(self):
        """local -> what is done with it"""
        nf = self.nf
        U = defaultdict(list)

        def add(o, u):
            if o[0] in ("c", "m"):
                U[o[1][0]].append(u)

        for i in nf.reach:
            ss, t, _ = nf.B[i]
            for s in ss:
                if s[0] != "=":
                    continue
                r = s[2]
                k = r[0]
                if k in ("use", "rep"):
                    add(r[1], ("=", s[1][0], i))
                elif k == "ref":
                    U[r[2][0]].append(("=", s[1][0], i))
                elif k == "cast":
                    add(r[2], ("=", s[1][0], i))
                elif k == "discr":
                    U[r[1][0]].append(("d", s[1][0], i))
                elif k == "agg":
                    err = r[1][0] == "adt" and r[1][2] == "Err"
                    for o in r[2]:
                        add(o, ("err" if err and i in nf.err else "=", s[1][0], i))
            tt = t[1] if t[0] == "rej" else t
            if tt[0] == "call":
                fd = tt[1].get("fn")
                for o in tt[2]:
                    add(o, ("call", canon(fd["p"]) if fd else "", tt[3][0], t[0] == "rej" or i in nf.err))
            elif tt[0] == "sw":
                add(tt[1], ("sw", i))
        return U

    def fate(self, l):
        """what becomes of the Result in local l: its failure is returned / tested / made fatal / ignored"""
        nf = self.nf
        if not hasattr(self, "_U"):
            self._U = self._uses()
        seen, st = set(), [l]
        out = set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x == 0 or x in nf.clent:
                out.add("ret")
            for u in self._U.get(x, ()):
                if u[0] == "=":
                    st.append(u[1])
                elif u[0] == "err":
                    out.add("ret")
                elif u[0] == "d":
                    for w in self._U.get(u[1], ()):
                        if w[0] == "sw" and len([y for y in nf.S[w[1]] if y in nf.canret]) > 1:
                            # a branch of its own that ends in failure?
                            out.add("ret" if any(y not in nf.canok for y in nf.S[w[1]]) else "tested")
                elif u[0] == "sw":
                    out.add("tested")
                elif u[0] == "call":
                    seg = lastseg(u[1])
                    if seg == "from_residual":
                        out.add("ret")
                    elif seg in ("unwrap", "expect", "unwrap_unchecked"):
                        out.add("panic")
                    elif seg in ("is_ok", "is_err"):
                        ws = [w[1] for w in self._U.get(u[2], ()) if w[0] == "sw" and len([y for y in nf.S[w[1]] if y in nf.canret]) > 1]
                        out.add("ret" if any(y not in nf.canok for w in ws for y in nf.S[w]) else "tested")
                    elif seg in ("unwrap_or", "unwrap_or_else", "unwrap_or_default", "is_ok_and", "is_err_and"):
                        out.add("tested")
                    elif is_std(u[1]):
                        st.append(u[2])
                        if seg in ("ok", "err"):
                            out.add("tested")
                    else:
                        out.add("passed")
        for k in ("ret", "passed", "panic", "tested"):
            if k in out:
                return k
        return "ignored"

    def _localcol(self, o):
        """the receiver is a collection this body owns"""
        nf = self.nf
        if o[0] not in ("c", "m"):
            return False
        ty = nf._ty_of(o[1])
        base = nf.resolve_place([o[1][0], o[1][1] + ["*"]]) if ty.startswith("&") else nf.resolve_place(o[1])
        if nf._norm_proj(base[1]) or base[1] or 1 <= base[0] <= nf.argc:
            return False
        return nf.locals[base[0]].startswith(("std::vec::Vec<", "std::collections::", "indexmap::", "std::string::String", "alloc::"))

    def _phis(self):
        nf = self.nf
        for l, ds in nf.D.items():
            if l == 0 or nf.locals[l] in ("bool", "()"):
                continue
            ds = [d for d in ds if d[1] in ("rv", "call") and not d[3] and d[0] in nf.reach]
            if len(ds) < 2 or len({d[0] for d in ds}) < 2:
                continue
            got = []
            for d in ds:
                s, deps = set(), []
                nf._def(d, (), s, deps)
                for k, tag in deps:
                    s |= NF._tag(nf._get(k), tag)
                got.append((frozenset(s), self.cond.rc.get(d[0], 0)))
            if len({g[0] for g in got}) > 1:
                self.phis += got

    def _cbret(self, name, lb):
        """what a closure handed to a workspace function answers, and when"""
        nf = self.nf
        if nf.locals[lb] == "()":
            return
        for d in nf.D.get(lb, []):
            if d[1] not in ("rv", "call") or d[3] or d[0] not in nf.reach:
                continue
            r = d[2]
            if nf.locals[lb] == "bool":
                f = self.cond.clo(lb, "b")
                self.cbrets.append(dict(callee=name, val=frozenset({f"b#{f}"}), rc=1, line=0))
                return
            if d[1] == "rv" and r[0] == "agg" and r[1][0] == "adt" and r[1][2] in ("Err",):
                continue
            if d[1] == "call" and r[1].get("fn") and lastseg(canon(r[1]["fn"]["p"])) == "from_residual":
                continue
            if d[1] == "rv" and r[0] == "agg" and r[1][0] == "adt" and r[1][2] in ("Ok", "Some") and len(r[2]) == 1 and self._isbool(r[2][0]):
                v = self.val(r[2][0], d[0])
            else:
                ds, deps = set(), []
                nf._def(d, (), ds, deps)
                for k, tag in deps:
                    ds |= NF._tag(nf._get(k), tag)
                v = frozenset(ds)
            self.cbrets.append(dict(callee=name, val=v, rc=self.cond.rc.get(d[0], 0), line=d[2][5] if d[1] == "call" else 0))

    def _entrycall(self, o):
        nf = self.nf
        for _ in range(8):
            if o[0] not in ("c", "m"):
                return None
            p = nf.resolve_place(o[1])
            ds = [d for d in nf.D.get(p[0], []) if d[1] in ("rv", "call") and not d[3]]
            if len(ds) != 1:
                return None
            d = ds[0][2]
            if ds[0][1] == "rv":
                if d[0] == "use":
                    o = d[1]
                    continue
                if d[0] == "ref":
                    o = ["c", d[2]]
                    continue
                return None
            fd = d[1].get("fn")
            if fd and lastseg(canon(fd["p"])) == "entry":
                c = canon(callee_key(fd))
                m = re.search(r"(\w+)::entry$", c)
                return (m.group(1) if m else "HashMap"), d
            return None
        return None

    def _isbool(self, o):
        return o[1].get("t") == "bool" if o[0] == "k" else self.nf._ty_of(o[1]) == "bool"

    def truth_at(self, i, g):
        """leaf for a truth value computed in block i"""
        cond = self.cond
        fs = set()
        t = f = 0
        if not hasattr(self, "_nodes"):
            self._nodes = defaultdict(list)
            for k, (b, v) in enumerate(cond.root["order"]):
                if cond.root["nrc"][k]:
                    self._nodes[b].append((k, v))
        for k, v in self._nodes.get(i, ()):
            val = dict(v)
            for l, d in cond.bdefs.get(i, ()):
                val[l] = d
            x = g(val)
            rc = cond.root["nrc"][k]
            fs.add(x)
            t = B.OR(t, B.AND(rc, x))
            f = B.OR(f, B.AND(rc, B.NOT(x)))
        if not fs:
            return "b#none"
        if t == 0 or f == 0:
            return "K:true" if f == 0 else "K:false"
        x = fs.pop() if len(fs) == 1 else settle(t, f)
        return "K:true" if x == 1 else "K:false" if x == 0 else f"b#{x}"

    def val(self, o, i):
        """leaf set of an operand used in block i; truth values by what they say"""
        if o[0] in ("c", "m") and self._isbool(o):
            return frozenset({self.truth_at(i, lambda val: self.cond.fop(o, val))})
        return self.nf.leaves_op(o)

    def _reject(self, i):
        nf = self.nf
        ss, t, fid = nf.B[i]
        tt = t[1] if t[0] == "rej" else t
        what = None
        for s in ss:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][2] == "Err":
                what = nf.leaves_op(s[2][2][0]) if s[2][2] else frozenset()
                line = s[3]
        if what is None:
            # `?` on something: the error source is in the effect facts
            if tt[0] == "call" and tt[1].get("fn", {}).get("p", "").endswith("from_residual"):
                src = nf.leaves_op(tt[2][0]) if tt[2] else frozenset()
                if any(x.startswith("V:") for x in src) and "V:Err" in src:
                    what = src
                    line = tt[5]
                else:
                    return
            else:
                return
        self.rejects.append(dict(err=frozenset(x for x in what if x.startswith(("V:", "K:", "C:"))), rc=self.cond.rc.get(i, 0), line=line, blk=i, fn=fid))

    def _ret(self):
        nf = self.nf
        ty = nf.locals[0]
        if ty == "()":
            return
        unit = ty.startswith(("std::result::Result<(), ", "std::option::Option<()>"))
        keep = ("V:", "b#", "K:") if "fmt::Error" in ty else ("V:", "b#")

        def good(d, seen=()):
            """the definitions behind a copied result, failures left out; None when no failure is among them"""
            if d[1] == "rv" and not d[3] and d[2][0] == "use" and d[2][1][0] in ("c", "m") and not d[2][1][1][1]:
                l = d[2][1][1][0]
                ds = nf.D.get(l, [])
                if l in seen or len(ds) < 1 or any(x[1] not in ("rv", "call") or x[3] for x in ds):
                    return [d], False
                out, hit = [], False
                for x in ds:
                    if x[0] not in nf.reach:
                        continue
                    if x[0] in nf.err and ty.startswith("std::result"):
                        hit = True
                        continue
                    o, h = good(x, seen + (l,))
                    out += o
                    hit |= h
                return out, hit
            return [d], False

        defs = []
        for d in nf.D.get(0, []):
            if d[1] == "rv" and d[0] in nf.reach and d[0] not in nf.err:
                o, h = good(d)
                if h:
                    defs += [(d[0],) + tuple(x[1:]) for x in o]
                    continue
            defs.append(d)
        for d in defs:
            if d[1] not in ("rv", "call") or d[0] not in nf.reach:
                continue
            if d[0] in nf.err and nf.locals[0].startswith("std::result"):
                continue
            ds, deps = set(), []
            if nf.locals[0] == "bool":
                ds = set()
            elif d[1] == "rv" and d[2][0] == "agg" and d[2][1][0] == "adt" and d[2][1][2] in ("Ok", "Some") and len(d[2][2]) == 1 and self._isbool(d[2][2][0]):
                ds = set(self.val(d[2][2][0], d[0]))
            else:
                nf._def(d, (), ds, deps)
                for k, tag in deps:
                    ds |= NF._tag(nf._get(k), tag)
            if d[3]:
                continue
            if unit:
                # success carries nothing; which call reports the failure is in the effect facts
                ds = {x for x in ds if x.startswith(keep)}
            ln = d[2][5] if d[1] == "call" else 0
            sp = self._split(d) if d[1] == "rv" and nf.locals[0] != "bool" and not any(x.startswith("b#") for x in ds) else None
            if sp:
                for v, rc in sp:
                    if unit:
                        v = frozenset(x for x in v if x.startswith(keep))
                    self.returns.append(dict(val=v, rc=rc, blk=d[0], line=ln))
                continue
            self.returns.append(dict(val=frozenset(ds), rc=self.cond.rc.get(d[0], 0), blk=d[0], line=ln))

    def _split(self, d):
        """a result held in a tracked local: one entry per definition that can be the one returned"""
        nf, cond = self.nf, self.cond
        r = d[2]
        o = r[1] if r[0] == "use" else r[2][0] if r[0] == "agg" and r[1][0] == "adt" and r[1][2] in ("Ok", "Some") and len(r[2]) == 1 else None
        if o is None or o[0] not in ("c", "m") or o[1][1]:
            return None
        l = o[1][0]
        for _ in range(8):
            if l in cond.E:
                break
            ds = [x for x in nf.D.get(l, []) if x[1] in ("rv", "call") and not x[3]]
            if len(ds) == 1 and ds[0][1] == "rv" and ds[0][2][0] == "use" and ds[0][2][1][0] in ("c", "m") and not ds[0][2][1][1][1]:
                l = ds[0][2][1][1][0]
                continue
            return None
        if l not in cond.E:
            return None
        out = {}
        for k, (b, v) in enumerate(cond.root["order"]):
            if b != d[0] or cond.root["nrc"][k] == 0:
                continue
            v = dict(v)
            if l not in v:
                return None
            dd = cond.defs[v[l]]
            ds, deps = set(), []
            nf._def((dd[2], dd[1][0], dd[1][1], []), (), ds, deps)
            for kk, tag in deps:
                ds |= NF._tag(nf._get(kk), tag)
            ds = frozenset(ds)
            out[ds] = B.OR(out.get(ds, 0), cond.root["nrc"][k])
        return list(out.items())

    def dump(self):
        out = []
        for e in self.effects:
            out.append(f"  E {e['callee']}({', '.join(ls(a) for a in e['args'])}) :{e['line']}  G[{fmtc(e['rc'])}]")
        for w in self.writes:
            out.append(f"  W {w['field']} := {ls(w['val'])} :{w['line']} G[{fmtc(w['rc'])}]")
        for w in self.cons:
            out.append(f"  N {w['adt']}::{w['variant']} {{{', '.join(k + '=' + ls(v) for k, v in w['fields'].items())}}} :{w['line']} G[{fmtc(w['rc'])}]")
        for r in self.rejects:
            out.append(f"  X {ls(r['err'])} :{r['line']} G[{fmtc(r['rc'])}]")
        for r in self.returns:
            out.append(f"  R {ls(r['val'])} G[{fmtc(r['rc'])}]")
        for a in sorted(self.atoms):
            out.append(f"  A {a}")
        return "\n".join(out)


# ---------------------------------------------------------------- inline policy
# helpers whose body is as readily written out at the call
OPEN = {"sql::parser::Parser::consume_if"}


class Policy:
    """inline helpers outside the reference vocabulary and trivial accessors"""

    def __init__(self, prog, unknown=(), opaque=()):
        self.prog = prog
        self.unknown = set(unknown)
        self.opaque = opaque
        self._triv = {}

    def trivial(self, g, depth=0):
        r = self._triv.get(g.id)
        if r is not None:
            return r
        self._triv[g.id] = False
        ok = True
        n = 0
        if g.kind not in ("AssocFn", "Fn") or g.cid in self.opaque or (g.item or "").endswith("Clone::clone"):
            ok = False
        for b in g.bb:
            if b.get("u"):
                continue
            n += 1
            t = b["t"]
            if t[0] == "sw" or n > 9:
                ok = False
                break
            if t[0] == "call":
                fd = t[1].get("fn")
                if not fd:
                    ok = False
                    break
                c = canon(callee_key(fd))
                if is_std(c):
                    if lastseg(c) in SIGSTD and lastseg(c) not in PURESTD:
                        ok = False
                        break
                else:
                    h = self.prog.fns.get(callee_key(fd))
                    if h is None or depth > 3 or not self.trivial(h, depth + 1):
                        ok = False
                        break
        # a body that writes fields is an effect worth a name only if it is a setter: inline those as well
        self._triv[g.id] = ok
        return ok

    def __call__(self, g):
        return g.id in self.unknown or self.trivial(g) or g.cid in OPEN


def facts_for(prog, fn, policy):
    return Facts(NF(prog, fn, policy), prog)


if __name__ == "__main__":
    import sys, facts, ax

    d, h = facts.ensure()
    P = ax.Prog.load(d)
    pol = Policy(P)
    for name in sys.argv[1:]:
        for f in P.find_all(name):
            F = facts_for(P, f, pol)
            print(f.cid, f.loc(), "inlined", [short(canon(x)) for x in F.nf.inlined][:12])
            print(F.dump())
