"""Normal form of a function: helpers inlined, closures spliced in, then CFG facts
(provenance leaf sets, control-dependence guards, effects, writes, returns, rejects)."""
import re
from collections import defaultdict
from ax import canon, short, callee_key

STDP = ("std::", "core::", "alloc::", "parking_lot", "indexmap::", "bytemuck::", "lock_api::", "hashbrown::", "rand::", "libc::", "rkyv::", "murmur3::", "<std::", "<core::", "<alloc::", "<parking_lot", "<indexmap", "<lock_api", "regex::", "<regex", "rand_core::", "rand_chacha::", "<rand", "<rkyv", "<libc", "lazy_static", "<lazy_static")

# calls whose result is (a view of) the first argument
TRANSP1 = set(
    """clone deref deref_mut as_ref as_mut borrow borrow_mut to_owned into from iter iter_mut into_iter next unwrap expect
    unwrap_unchecked as_slice as_mut_slice as_bytes as_str to_vec into_boxed_slice into_vec copied cloned ok ok_or ok_or_else err map_err as_deref as_deref_mut branch from_residual
    try_into try_from collect by_ref peekable peek into_inner get_mut_unchecked as_ptr as_mut_ptr unwrap_or_default to_string
    read write lock read_arc write_arc get_ref get_mut_ref inspect_err inspect into_string into_bytes chars bytes
    new_unchecked from_ref from_mut leak as_any to_le_bytes from_le_bytes to_ne_bytes from_ne_bytes bytes_of bytes_of_mut from_bytes from_bytes_mut cast_slice cast_slice_mut
    format unwrap_or_log manually_drop as_deref borrow_ref keys values values_mut into_keys into_values flatten zip enumerate chain filter
    filter_map find transpose first_ref once take_while skip_while fuse by_val extend_from collect_vec try_read try_write arc_read arc_write downgrade upgrade read_recursive upgradable_read must_use
    split_at_unchecked as_non_null take concat""".split()
)
TRANSPALL = set("""unwrap_or or and xor replace_none chain zip""".split())
NEUTRAL_NEW = set("""new with_capacity default""".split())
ACCUM = set(
    """push push_back push_front insert extend extend_from_slice append push_str copy_from_slice clone_from_slice copy_within fill resize
    write_all write read_exact entry or_insert or_insert_with or_default get_or_insert get_or_insert_with write_str write_fmt copy_nonoverlapping copy_to_nonoverlapping copy_from_nonoverlapping copy_to copy_from set replace""".split()
)
# predicates of the program that ask for one variant of their argument
VARIANT_TEST = {"types::DataType::is_null": ("types::DataType", "Null")}
CMPM = {"lt": ("Lt", 0), "le": ("Le", 0), "gt": ("Gt", 0), "ge": ("Ge", 0), "eq": ("Eq", 0), "ne": ("Ne", 0)}
OPM = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "neg": "Neg", "not": "Not", "bitand": "BitAnd", "bitor": "BitOr", "bitxor": "BitXor", "shl": "Shl", "shr": "Shr",
       "add_assign": "Add", "sub_assign": "Sub", "mul_assign": "Mul", "div_assign": "Div", "rem_assign": "Rem", "bitand_assign": "BitAnd", "bitor_assign": "BitOr"}
NONCOMM = {"Sub", "Div", "Rem", "Shl", "Shr", "saturating_sub", "wrapping_sub", "checked_sub", "checked_div", "checked_rem", "overflowing_sub", "wrapping_div", "wrapping_rem", "Offset"}
OPT_COMB_SOME = set("is_none_or map and_then is_some_and filter inspect then then_some if_some map_or map_or_else ok_and_then is_ok_and".split())
IGNORE_CALL = re.compile(
    r"(fmt::|::fmt$|std::io::_print|std::io::_eprint|std::fmt|core::fmt|Arguments|panicking|std::rt::|must_use|std::hint|intrinsics|discriminant|core::panicking|std::process::abort)"
)


_PRIM = re.compile(r"^<(?:\(|\[|[A-Z]\w?\b(?!::)|u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize|f32|f64|bool|char|str|Self\b)[^:]* as (?:std|core|alloc)::")
_stdc = {}
_IMPL = re.compile(r"^<(.+) as ([^<>]+)>::\w+$")


def is_std(c):
    r = _stdc.get(c)
    if r is None:
        m = _IMPL.match(c)
        if m and not m.group(2).startswith(STDP) and "::" in m.group(2):
            _stdc[c] = False  # an implementation of a workspace trait
            return False
        r = _stdc[c] = c.startswith(STDP) or bool(_PRIM.match(c)) or bool(re.match(r"^[A-Z]\w?::\w+$", c) and c.split("::")[0].isupper() and c.endswith(("::from", "::into", "::default", "::clone")))
    return r


def lastseg(c):
    i = c.rfind("::")
    return c[i + 2 :] if i >= 0 else c


CALLBACK = set("""map and_then map_or map_or_else is_some_and is_ok_and is_none_or filter filter_map flat_map any all find find_map position for_each then unwrap_or_else or_else
    ok_or_else map_err fold try_fold sort_by sort_by_key min_by max_by min_by_key max_by_key retain inspect take_while skip_while map_while get_or_insert_with or_insert_with""".split())

NARROW = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64, "u128": 128, "i128": 128, "f32": 32, "f64": 64}


def pl_local(p):
    return p[0]


class NF:
    """normal form of one root function"""

    MAXBLK = 6000

    def __init__(self, prog, root, inline):
        self.prog = prog
        self.root = root
        self.inline = inline  # callable(fn id) -> bool
        self.locals = []
        self.B = []  # blocks: [stmts, term, fnid]
        self.argc = root.argc
        self.inlined = []
        self.clent = {}
        self.fnarg = {}
        self.entry = self._splice(root, (root.id,))
        self._thread_errs(range(len(self.B)))
        self._versions()
        self._build_defs()
        self._cfg()

    # ------------------------------------------------------------ construction
    def _splice(self, fn, stack):
        """append a renumbered copy of fn's body; returns entry block index. ret blocks keep ('ret', fnbase)"""
        lb = len(self.locals)
        bb = len(self.B)
        self.locals += fn.locals
        n = len(fn.bb)
        for b in fn.bb:
            self.B.append(None)

        def L(p):
            pr = p[1]
            if pr and any(isinstance(e, list) and e[0] == "i" for e in pr):
                pr = [["i", e[1] + lb] if isinstance(e, list) and e[0] == "i" else e for e in pr]
            return [p[0] + lb, pr]

        def O(o):
            return [o[0], L(o[1])] if o[0] in ("c", "m") else o

        def R(r):
            k = r[0]
            if k == "use":
                return ["use", O(r[1])]
            if k == "ref":
                return ["ref", r[1], L(r[2])]
            if k == "bin":
                return ["bin", r[1], O(r[2]), O(r[3])]
            if k == "un":
                return ["un", r[1], O(r[2])]
            if k == "cast":
                return ["cast", r[1], O(r[2]), r[3]]
            if k == "discr":
                return ["discr", L(r[1]), r[2]]
            if k == "agg":
                return ["agg", r[1], [O(x) for x in r[2]]]
            if k == "rep":
                return ["rep", O(r[1]), r[2]]
            return r

        calls = []
        for i, b in enumerate(fn.bb):
            if b.get("u"):
                self.B[bb + i] = [[], ["stop"], fn.id]
                continue
            ss = []
            for s in b["s"]:
                if s[0] == "=":
                    ss.append(["=", L(s[1]), R(s[2]), s[3]])
                elif s[0] == "sd":
                    ss.append(["sd", L(s[1]), s[2]])
            t = b["t"]
            k = t[0]
            if k == "goto":
                nt = ["goto", t[1] + bb]
            elif k == "sw":
                nt = ["sw", O(t[1]), t[2], [[v, x + bb] for v, x in t[3]], t[4] + bb, t[5]]
            elif k == "ret":
                nt = ["ret", lb]
            elif k == "drop":
                nt = ["drop", L(t[1]), t[2] + bb, t[3]]
            elif k == "assert":
                nt = ["assert", O(t[1]), t[2], t[3], t[4] + bb, t[5]]
            elif k == "call":
                f = t[1]
                if "ind" in f:
                    f = {"ind": O(f["ind"])}
                nt = ["call", f, [O(a) for a in t[2]], L(t[3]), (t[4] + bb) if t[4] >= 0 else None, t[5], []]
                calls.append(bb + i)
            else:
                nt = ["stop"]
            self.B[bb + i] = [ss, nt, fn.id]
        for ci in calls:
            self._expand_call(ci, fn, stack)
        return bb

    def _target_fn(self, f):
        fd = f.get("fn")
        if not fd:
            return None
        k = fd.get("r") or fd.get("p")
        g = self.prog.fns.get(k)
        if g is None and not fd.get("r"):
            # trait method without static resolution: a single impl is as good as resolved
            impls = self.prog.by_item.get(fd.get("p"), [])
            if len(impls) == 1:
                g = self.prog.fns[impls[0]]
        return g

    def _expand_call(self, bi, fn, stack):
        blk = self.B[bi]
        t = blk[1]
        f = t[1]
        fd = f.get("fn")
        if fd is None:
            return
        # closures handed to the callee: may run
        cl = self._closure_args(t, blk, bi, fn)
        g = self._target_fn(f)
        if g is None and fn.crate != "axmosdb-lib":
            g = self.prog.fns.get(fn.crate + "!" + (fd.get("r") or fd.get("p")))
        if g is not None and len(self.B) < self.MAXBLK and g.id not in stack and len(stack) < 9 and self.inline(g) and t[4] is not None:
            lb = len(self.locals)
            dest, tgt, ln = t[3], t[4], t[5]
            for i, a in enumerate(t[2]):
                blk[0].append(["=", [lb + 1 + i, []], ["use", a], ln])
                if a[0] == "k" and "fn" in a[1]:
                    self.fnarg[lb + 1 + i] = a[1]["fn"]
            ge = self._splice(g, stack + (g.id,))
            self.inlined.append(g.id)
            blk[1] = ["goto", ge]
            self._link_return(lb, ge, g, dest, tgt, ln)
            return
        seg0 = lastseg(canon(callee_key(fd)))
        if lastseg(canon(fd["p"])) in ("call", "call_mut", "call_once") and canon(fd["p"]).startswith(("std::ops::Fn", "core::ops::Fn")) and len(t[2]) == 2 and t[4] is not None and t[2][1][0] in ("c", "m"):
            # a local closure called by name runs right here, like a helper
            own = [cid for cid, cop in cl if cop is t[2][0] and isinstance(cid, str)]
            if not own and t[2][0][0] in ("c", "m") and not t[2][0][1][1]:
                cid = self._closure_def(t[2][0][1][0])
                if cid:
                    own = [cid]
            c = self.prog.fns.get(own[0]) if own else None
            if c is not None and c.kind == "Closure" and c.id not in stack and len(self.B) < self.MAXBLK and len(stack) <= 12:
                lb = len(self.locals)
                ce = self._splice(c, stack + (c.id,))
                tp = t[2][1][1]
                blk[0].append(["=", [lb + 1, []], ["use", t[2][0]], t[5]])
                for i in range(2, c.argc + 1):
                    blk[0].append(["=", [lb + i, []], ["use", ["c", [tp[0], tp[1] + [["f", "tuple", str(i - 2)]]]]], t[5]])
                dest, tgt, ln = t[3], t[4], t[5]
                blk[1] = ["goto", ce]
                self._link_return(lb, ce, c, dest, tgt, ln)
                return
        for cid, cop in cl:
            if isinstance(cid, dict):
                # a named function handed over as callback: an ordinary call of it that may happen
                if is_std(canon(fd["p"])) and seg0 not in CALLBACK:
                    continue
                srcs = self._cbsrcs(t, cop, seg0)
                cb = len(self.B)
                self.B.append([[], blk[1], blk[2]])
                t = self.B[cb][1]
                lb = len(self.locals)
                g = self.prog.fns.get(cid.get("r") or cid.get("p"))
                n = g.argc if g is not None else 0 if seg0 in ("or_insert_with", "get_or_insert_with", "then", "ok_or_else") or seg0 in ("unwrap_or_else", "or_else") and "ption" in fd["p"] else 1
                self.locals += [g.locals[0] if g is not None else "?"] + [g.locals[j + 1] if g is not None else "?" for j in range(n)]
                ce = len(self.B)
                ss = [["=", [lb + 1 + j, []], ["union", srcs, seg0], t[5]] for j in range(n)]
                pv = (cid.get("p") or "").rsplit("::", 1)
                vn = self.prog.ctor(cid.get("p") or "")
                if vn:
                    adt, var, names = vn
                    self.B.append([ss + [["=", [lb, []], ["agg", ["adt", adt, var, names], [["c", [lb + 1 + j, []]] for j in range(len(names))]], t[5]]], ["goto", cb], blk[2]])
                else:
                    self.B.append([ss, ["call", {"fn": cid}, [["c", [lb + 1 + j, []]] for j in range(n)], [lb, []], cb, t[5], []], blk[2]])
                blk[1] = ["nd", [ce, cb], seg0, t[2][0] if t[2] else None, fd.get("p"), cb]
                self.clent[lb] = (ce, cb)
                t[6].append((lb, seg0, cid.get("r") or cid.get("p")))
                if not vn:
                    self._expand_call(ce, fn, stack)
                blk = self.B[cb]
                bi = cb
                continue
            c = self.prog.fns.get(cid)
            if c is None or c.id in stack or len(self.B) >= self.MAXBLK or len(stack) > 12:
                continue
            lb = len(self.locals)
            ce = self._splice(c, stack + (c.id,))
            # split: bi -> nd -> [closure, callblock]
            cb = len(self.B)
            self.B.append([[], blk[1], blk[2]])
            t = self.B[cb][1]
            ss = blk[0]
            srcs = self._cbsrcs(t, cop, seg0)
            first = 1
            if c.kind == "Closure":
                ss.append(["=", [lb + 1, []], ["use", cop], t[5]])
                first = 2
            for i in range(first, c.argc + 1):
                ss.append(["=", [lb + i, []], ["union", srcs, seg0], t[5]])
            seg = lastseg(canon(callee_key(fd)))
            blk[1] = ["nd", [ce, cb], seg, t[2][0] if t[2] else None, fd.get("p"), cb]
            self.clent[lb] = (ce, cb)
            for x in range(ce, ce + len(c.bb)):
                if self.B[x] and self.B[x][1][0] == "ret" and self.B[x][1][1] == lb:
                    self.B[x][1] = ["goto", cb]
            t[6].append((lb, seg, c.id))
            blk = self.B[cb]
            bi = cb

    def _cbsrcs(self, t, cop, seg):
        if seg in ("map_or", "map_or_else", "map", "and_then", "is_some_and", "is_none_or", "filter", "unwrap_or_else", "any", "all", "for_each"):
            return [t[2][0]] if t[2] and t[2][0] is not cop else []
        return [a for a in t[2] if a is not cop and not self._same_op(a, cop)]

    def _same_op(self, a, b):
        return a[0] in ("c", "m") and b[0] in ("c", "m") and a[1] == b[1]

    def _closure_args(self, t, blk, bi, fn):
        """[(closure fn id, operand)] for arguments that are closure values built in this body"""
        out = []
        for a in t[2]:
            if a[0] in ("c", "m"):
                ty = self.locals[a[1][0]] if not a[1][1] else ""
                if "{closure@" in ty and ty.lstrip("&").replace("mut ", "").startswith("{closure@"):
                    cid = self._closure_def(a[1][0])
                    if cid:
                        out.append((cid, a))
            elif a[0] == "k" and "fn" in a[1]:
                fd = a[1]["fn"]
                # fn item passed as callback
                out.append((fd, a))
        return out

    def _closure_def(self, local):
        seen = set()
        todo = [local]
        while todo:
            l = todo.pop()
            if l in seen:
                continue
            seen.add(l)
            for b in self.B:
                if not b:
                    continue
                for s in b[0]:
                    if s[0] == "=" and s[1][0] == l and not s[1][1]:
                        r = s[2]
                        if r[0] == "agg" and r[1][0] == "closure":
                            return self._closure_key(r[1][1])
                        if r[0] == "use" and r[1][0] in ("c", "m"):
                            todo.append(r[1][1][0])
                        if r[0] == "ref":
                            todo.append(r[2][0])
        return None

    def _closure_key(self, p):
        if p in self.prog.fns:
            return p
        k = self.root.crate + "!" + p
        return k if k in self.prog.fns else None

    def _link_return(self, lb, ge, g, dest, tgt, ln):
        # does the caller immediately propagate (`?`) the result?
        prop = False
        tb = self.B[tgt]
        if tb and tb[1][0] == "call" and tb[1][1].get("fn", {}).get("p", "").endswith("Try::branch"):
            a = tb[1][2][0]
            if a[0] in ("c", "m") and a[1] == dest:
                prop = True
        if prop:
            self._thread_errs(range(ge, len(self.B)))
        err = self._errblocks(lb, range(ge, len(self.B))) if prop else set()
        for x in range(ge, len(self.B)):
            b = self.B[x]
            if not b:
                continue
            if b[1][0] == "ret" and b[1][1] == lb:
                b[0] = b[0] + [["=", dest, ["use", ["m", [lb, []]]], ln]]
                b[1] = ["goto", tgt]
            elif x in err:
                b[1] = ["rej", b[1]]

    def _thread_errs(self, rng):
        """`let r = match .. { .. => Err(e), .. }; r?` leaves the function where the error is made"""
        for i in rng:
            b = self.B[i]
            if not b or b[1][0] not in ("goto", "drop"):
                continue
            l = None
            for s in b[0]:
                if s[0] != "=" or s[1][1]:
                    continue
                r = s[2]
                if r[0] == "agg" and r[1][0] == "adt" and r[1][2] == "Err" and r[1][1].endswith("result::Result"):
                    l = s[1][0]
                elif l is not None and r[0] == "use" and r[1][0] in ("c", "m") and r[1][1] == [l, []]:
                    l = s[1][0]
                elif s[1][0] == l:
                    l = None
            if l is None:
                continue
            x, ok = b[1][1] if b[1][0] == "goto" else b[1][2], False
            for _ in range(30):
                c = self.B[x]
                if not c:
                    break
                bad = False
                for s in c[0]:
                    if s[0] != "=":
                        continue
                    if not s[1][1] and s[2][0] == "use" and s[2][1][0] in ("c", "m") and s[2][1][1] == [l, []]:
                        l = s[1][0]
                    elif not (s[2][0] == "use" and s[2][1][0] == "k" or s[2][0] == "agg" and not s[2][2]):
                        bad = True
                if bad:
                    break
                t = c[1]
                if t[0] == "goto":
                    x = t[1]
                elif t[0] == "drop":
                    x = t[2]
                elif t[0] == "call" and t[1].get("fn", {}).get("p", "").endswith("Try::branch") and t[2][0][0] in ("c", "m") and t[2][0][1] == [l, []]:
                    ok = True
                    break
                else:
                    break
            if ok:
                b[1] = ["rej", b[1]]

    def _errblocks(self, ret, rng):
        R = {ret}
        changed = True
        blocks = [(i, self.B[i]) for i in rng if self.B[i]]
        while changed:
            changed = False
            for i, b in blocks:
                for s in b[0]:
                    if s[0] == "=" and s[1][0] in R and not s[1][1] and s[2][0] == "use" and s[2][1][0] in ("c", "m") and not s[2][1][1][1]:
                        l = s[2][1][1][0]
                        if l not in R:
                            R.add(l)
                            changed = True
        err = set()
        for i, b in blocks:
            for s in b[0]:
                if s[0] == "=" and s[1][0] in R and not s[1][1]:
                    r = s[2]
                    if r[0] == "agg" and r[1][0] == "adt" and r[1][2] == "Err" and r[1][1].endswith("result::Result"):
                        err.add(i)
            t = b[1]
            if t[0] == "call" and t[3][0] in R and not t[3][1] and t[1].get("fn", {}).get("p", "").endswith("FromResidual::from_residual"):
                if not self.locals[ret].startswith("std::option::Option"):
                    err.add(i)
            if t[0] == "rej":
                err.add(i)
        return err

    def _versions(self):
        """a reassigned local gets one name per set of assignments a use can see, so that `let y = x; x = f(x)` and
        shadowing read the same"""
        skip = set(range(self.argc + 1)) | set(self.clent)
        defs, uses = defaultdict(list), defaultdict(list)  # local -> [(block, pos)] ; pos = statement index or "t"
        S = {}
        st = [self.entry]
        while st:
            x = st.pop()
            if x in S:
                continue
            S[x] = self.succ(x)
            st += S[x]

        def note(x, at):
            """operands and places read"""
            if not isinstance(x, list) or not x:
                return
            if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
                uses[x[0]].append((at, x))
                for e in x[1]:
                    if isinstance(e, list) and e[0] == "i":
                        skip.add(e[1])
                return
            if x[0] == "k" or x[0] == "adt":
                return
            for y in x:
                note(y, at)

        def own(x):
            return [own(y) if isinstance(y, list) else y for y in x] if x and x[0] not in ("k", "adt") else x

        if not hasattr(self, "_owned"):
            self._owned = True
            for i in S:
                b = self.B[i]
                b[0] = [[s[0], own(s[1]), own(s[2]), *s[3:]] if s[0] == "=" else s for s in b[0]]
                t = b[1][1] if b[1][0] == "rej" else b[1]
                if t[0] == "call":
                    t[2] = own(t[2])
                    t[3] = own(t[3])
        for i in S:
            for j, s in enumerate(self.B[i][0]):
                if s[0] != "=":
                    continue
                if s[2][0] == "ref":
                    skip.add(s[2][2][0])
                    note(s[2][2], (i, j))
                else:
                    for y in s[2][1:]:
                        note(y, (i, j))
                if s[1][1]:
                    note(s[1], (i, j))
                    if s[1][1][0] != "*":
                        skip.add(s[1][0])
                else:
                    defs[s[1][0]].append((i, j))
            t = self.B[i][1]
            if t[0] == "ret":
                skip.add(t[1])
            if t[0] == "rej":
                t = t[1]
            if t[0] == "call":
                for y in t[2]:
                    note(y, (i, "t"))
                note(t[1].get("ind"), (i, "t"))
                if t[3][1]:
                    skip.add(t[3][0])
                else:
                    defs[t[3][0]].append((i, "t"))
                skip.update(x[0] for x in t[6])
            elif t[0] in ("sw", "assert"):
                note(t[1], (i, "t"))
            elif t[0] == "nd":
                note(t[3], (i, "t"))
        P = defaultdict(list)
        for x in S:
            for y in S[x]:
                P[y].append(x)
        for l, ds in defs.items():
            if len(ds) < 2 or l in skip or not uses.get(l) or len(ds) > 60:
                continue
            n = {d: k for k, d in enumerate(ds)}
            last = {}
            for d in ds:
                b, j = d
                if b not in last or j == "t" or last[b][1] != "t" and j > last[b][1]:
                    last[b] = d
            IN = defaultdict(int)
            todo = list(last)
            # a call assigns on its edge out
            while todo:
                b = todo.pop()
                out = 1 << n[last[b]] if b in last else IN[b]
                for y in S[b]:
                    if out & ~IN[y]:
                        IN[y] |= out
                        if y not in last:
                            todo.append(y)
            seen = {}
            for at, p in uses[l]:
                b, j = at
                m = IN[b]
                for d in ds:
                    if d[0] == b and d[1] != "t" and (j == "t" or d[1] < j):
                        m = 1 << n[d]
                seen.setdefault(m, []).append(p)
            if 0 in seen or len(seen) < 2:
                continue
            name = {}
            for m in seen:
                name[m] = len(self.locals)
                self.locals.append(self.locals[l])
            bad = False
            edits = []
            for d in ds:
                ms = [m for m in seen if m >> n[d] & 1]
                if not ms:
                    ms = []
                    own = len(self.locals)
                    self.locals.append(self.locals[l])
                elif len(ms) == 1:
                    own = name[ms[0]]
                else:
                    one = 1 << n[d]
                    own = name.get(one)
                    if own is None:
                        own = len(self.locals)
                        self.locals.append(self.locals[l])
                edits.append((d, own, [name[m] for m in ms if name[m] != own]))
            for m, ps in seen.items():
                for p in ps:
                    p[0] = name[m]
            # last statements first, so that positions stay right
            for d, own, cp in sorted(edits, key=lambda e: (e[0][0], 1 << 30 if e[0][1] == "t" else e[0][1]), reverse=True):
                b, j = d
                if j == "t":
                    t = self.B[b][1]
                    tt = t[1] if t[0] == "rej" else t
                    tt[3] = [own, []]
                    if cp and tt[4] is not None and t[0] != "rej":
                        nb = len(self.B)
                        self.B.append([[["=", [c, []], ["use", ["c", [own, []]]], tt[5]] for c in cp], ["goto", tt[4]], self.B[b][2]])
                        tt[4] = nb
                        S[b] = [nb]
                        S[nb] = [self.B[nb][1][1]]
                else:
                    ss = self.B[b][0]
                    s = ss[j]
                    ss[j] = [s[0], [own, []], s[2], s[3]]
                    ss[j + 1:j + 1] = [["=", [c, []], ["use", ["c", [own, []]]], s[3]] for c in cp]
            if any(cp and d[1] != "t" for d, own, cp in edits):
                # positions after an inserted copy have moved: look again from the start
                return self._versions()

    # ------------------------------------------------------------ CFG
    def succ(self, i):
        t = self.B[i][1]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "sw":
            o = []
            for v, x in t[3]:
                if x not in o:
                    o.append(x)
            if t[4] not in o:
                o.append(t[4])
            return o
        if k == "drop":
            return [t[2]]
        if k == "assert":
            return [t[4]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "nd":
            return list(t[1])
        return []

    def _cfg(self):
        n = len(self.B)
        S = [self.succ(i) if self.B[i] else [] for i in range(n)]
        # blocks that are only 'unreachable' or resume
        reach = set()
        st = [self.entry]
        while st:
            x = st.pop()
            if x in reach:
                continue
            reach.add(x)
            st += S[x]
        self.S = S
        self.reach = reach
        self.P = defaultdict(list)
        for x in reach:
            for y in S[x]:
                self.P[y].append(x)
        self.rets = [x for x in reach if self.B[x][1][0] == "ret"]
        self.err = self._errblocks(0, sorted(reach)) & reach
        # blocks that can reach a return at all
        def back(starts, stop=()):
            seen = set()
            st = [s for s in starts if s not in stop]
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                for p in self.P[x]:
                    if p not in stop and p not in seen:
                        st.append(p)
            return seen

        self.canret = back(self.rets)
        self.canok = back(self.rets, self.err)
        # forward reachable in ok graph
        ok = set()
        st = [self.entry] if self.entry in self.canok else []
        while st:
            x = st.pop()
            if x in ok:
                continue
            ok.add(x)
            st += [y for y in S[x] if y in self.canok]
        self.okset = ok
        self._pd_ok = None
        self._pd_full = None

    def _postdom(self, nodes, rets):
        """postdominator bitsets over the sub-graph induced by nodes"""
        order = []
        seen = set()
        # reverse post order on the reversed graph
        S = self.S
        nodes = set(nodes)
        idx = {x: i for i, x in enumerate(sorted(nodes))}
        full = (1 << len(idx)) - 1
        pd = {}
        for x in nodes:
            pd[x] = full
        exits = [r for r in rets if r in nodes]
        if not exits:
            exits = [x for x in nodes if not [y for y in S[x] if y in nodes]]
        if not exits:
            exits = [max(nodes)]
        for r in exits:
            pd[r] = 1 << idx[r]
        # iterate in reverse topological-ish order
        st = list(exits)
        vis = set(st)
        q = []
        while st:
            x = st.pop(0)
            q.append(x)
            for p in self.P[x]:
                if p in nodes and p not in vis:
                    vis.add(p)
                    st.append(p)
        changed = True
        ex = set(exits)
        while changed:
            changed = False
            for x in q:
                if x in ex:
                    continue
                m = full
                for y in S[x]:
                    if y in nodes:
                        m &= pd[y]
                m |= 1 << idx[x]
                if m != pd[x]:
                    pd[x] = m
                    changed = True
        return pd, idx

    def _cdeps(self, nodes, rets):
        pd, idx = self._postdom(nodes, rets)
        inv = {v: k for k, v in idx.items()}
        cd = defaultdict(set)
        for u in nodes:
            ss = [y for y in self.S[u] if y in nodes]
            if len(ss) < 2:
                continue
            strict = pd[u] & ~(1 << idx[u])
            for v in ss:
                m = pd[v] & ~strict
                while m:
                    low = m & -m
                    cd[inv[low.bit_length() - 1]].add((u, v))
                    m ^= low
        return cd

    def cd_ok(self):
        if self._pd_ok is None:
            self._pd_ok = self._cdeps(self.okset, self.rets) if self.okset else {}
        return self._pd_ok

    def cd_full(self):
        if self._pd_full is None:
            ns = self.reach & self.canret
            # error exits that were cut out of inlined helpers count as exits
            rej = [x for x in self.reach if self.B[x][1][0] == "rej"]
            if rej:
                seen = set(ns)
                st = list(rej)
                while st:
                    x = st.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    st += self.P[x]
                ns = seen & self.reach
            self._pd_full = self._cdeps(ns, self.rets + rej) if ns else {}
        return self._pd_full

    # ------------------------------------------------------------ defs / provenance
    def _build_defs(self):
        """local -> list of (block, kind, payload, proj)"""
        D = defaultdict(list)
        for i, b in enumerate(self.B):
            if not b:
                continue
            for s in b[0]:
                if s[0] == "=":
                    D[s[1][0]].append((i, "rv", s[2], s[1][1]))
            t = b[1]
            if t[0] == "call":
                D[t[3][0]].append((i, "call", t, t[3][1]))
            if t[0] == "rej" and t[1][0] == "call":
                tt = t[1]
                D[tt[3][0]].append((i, "call", tt, tt[3][1]))
        self.D = D
        # mutable references to locals: refs[l] = base place
        self.refs = {}
        for l, ds in D.items():
            if len(ds) == 1 and ds[0][1] == "rv" and not ds[0][3]:
                r = ds[0][2]
                if r[0] == "ref":
                    self.refs[l] = r[2]
                elif r[0] == "use" and r[1][0] in ("c", "m") and not r[1][1][1]:
                    self.refs[l] = None  # alias, resolved below
        # extra defs through references / &mut arguments
        X = defaultdict(list)
        for i, b in enumerate(self.B):
            if not b:
                continue
            for s in b[0]:
                if s[0] == "=" and s[1][1] and s[1][1][0] == "*":
                    base = self.resolve_place(s[1])
                    if base[0] != s[1][0]:
                        X[base[0]].append((i, "rv", s[2], base[1]))
            t = b[1]
            if t[0] == "call":
                for ai, a in enumerate(t[2]):
                    if a[0] in ("c", "m"):
                        ty = self.locals[a[1][0]] if not a[1][1] else ""
                        if ty.startswith("&") and "mut " in ty[:24] or (ty.startswith("*mut")):
                            base = self.resolve_place([a[1][0], ["*"]])
                            if base[0] != a[1][0]:
                                X[base[0]].append((i, "mut", (t, ai), base[1]))
        for l, ds in X.items():
            self.D[l] += ds
        self._leaf = {}
        self._solve_nodes = None

    def _which(self, c, t):
        """tells calls of one function on different things of the caller's apart"""
        if not hasattr(self, "_calls"):
            self._calls = defaultdict(set)
            for i in self.reach:
                u = self.B[i][1]
                u = u[1] if u[0] == "rej" else u
                if u[0] == "call" and u[1].get("fn"):
                    self._calls[canon(callee_key(u[1]["fn"]))].add(self._onwhat(u))
        s = self._calls[c]
        if len(s) < 2 or len(s) > 4 or "" in s:
            return ""
        return "@" + self._onwhat(t)

    def _onwhat(self, t):
        out = []
        for o in t[2]:
            if o[0] not in ("c", "m"):
                continue
            p = o[1]
            for _ in range(12):
                q = self.resolve_place([p[0], p[1] + ["*"]]) if self._ty_of(p).startswith(("&", "*")) else self.resolve_place(p)
                ds = [d for d in self.D.get(q[0], []) if d[1] in ("rv", "call")]
                if not q[1] and len(ds) == 1 and ds[0][1] == "rv" and not ds[0][3] and ds[0][2][0] in ("use", "cast", "ref"):
                    r = ds[0][2]
                    oo = r[1] if r[0] == "use" else r[2] if r[0] == "cast" else ["c", r[2]]
                    if oo[0] in ("c", "m"):
                        p = oo[1]
                        continue
                q0 = [q[0], [e for e in q[1] if e != "*"]]
                if not q0[1] and len(ds) == 1 and ds[0][1] == "call" and not ds[0][3]:
                    c = ds[0][2]
                    fd = c[1].get("fn")
                    if fd and lastseg(fd["p"]) in ("index", "deref", "as_ref", "borrow", "get", "clone", "unwrap", "as_deref", "as_slice") and c[2] and c[2][0][0] in ("c", "m"):
                        p = c[2][0][1]
                        continue
                break
            if 1 <= q[0] <= self.argc:
                f = [n for a, n in self._norm_proj(q[1]) if a not in ("[]", "[c]", "+", "-", "closure") and not n.isdigit()]
                out.append(f"P{q[0]}" + ("." + f[-1] if f else ""))
        return ",".join(out)

    def resolve_place(self, p):
        """follow `(*ref).rest` to the place the reference was taken from (single-definition refs only)"""
        l, pr = p
        for _ in range(20):
            if pr and pr[0] == "*":
                d = self.D.get(l, [])
                dd = [x for x in d if x[1] in ("rv", "call") and not (x[3] and x[3][0] == "*")]
                if len(dd) == 1 and not dd[0][3]:
                    if dd[0][1] == "rv":
                        r = dd[0][2]
                        if r[0] == "ref":
                            l, pr = r[2][0], r[2][1] + pr[1:]
                            continue
                        if r[0] == "use" and r[1][0] in ("c", "m"):
                            l, pr = r[1][1][0], r[1][1][1] + pr
                            continue
                        if r[0] == "cast" and r[2][0] in ("c", "m"):
                            l, pr = r[2][1][0], r[2][1][1] + pr
                            continue
                    elif dd[0][1] == "call":
                        t = dd[0][2]
                        fd = t[1].get("fn")
                        if fd and lastseg(fd["p"]) in ("deref_mut", "deref", "as_mut", "borrow_mut", "by_ref", "as_mut_slice", "index_mut") and t[2] and t[2][0][0] in ("c", "m"):
                            l, pr = t[2][0][1][0], t[2][0][1][1] + pr
                            continue
            elif pr and isinstance(pr[0], list) and pr[0][0] == "f" and pr[0][1] == "closure":
                # what a closure that runs here has captured
                dd = [x for x in self.D.get(l, []) if x[1] in ("rv", "call") and not (x[3] and x[3][0] == "*")]
                if len(dd) == 1 and not dd[0][3] and dd[0][1] == "rv" and dd[0][2][0] == "agg" and dd[0][2][1][0] == "closure":
                    i = int(pr[0][2])
                    if i < len(dd[0][2][2]) and dd[0][2][2][i][0] in ("c", "m"):
                        l, pr = dd[0][2][2][i][1][0], dd[0][2][2][i][1][1] + pr[1:]
                        continue
            break
        return [l, pr]

    def live(self):
        """locals whose value anything can depend on"""
        if hasattr(self, "_live"):
            return self._live
        dep, todo = defaultdict(list), [0]

        def ops(x, into):
            if isinstance(x, list):
                if len(x) == 2 and x[0] in ("c", "m") and isinstance(x[1], list) and len(x[1]) == 2 and isinstance(x[1][0], int):
                    place(x[1], into)
                else:
                    for y in x:
                        ops(y, into)

        def place(p, into):
            into.append(p[0])
            into += [e[1] for e in p[1] if isinstance(e, list) and e[0] == "i"]

        for i in self.reach:
            for s in self.B[i][0]:
                if s[0] != "=":
                    continue
                into = todo if s[1][1] and s[1][1][0] == "*" else dep[s[1][0]]
                if s[2][0] in ("ref", "discr", "rawptr", "len"):
                    for x in s[2][1:]:
                        if isinstance(x, list) and len(x) == 2 and isinstance(x[0], int):
                            place(x, into)
                        else:
                            ops(x, into)
                else:
                    ops(s[2][1:], into)
                if into is todo:
                    todo.append(s[1][0])
            t = self.B[i][1]
            t = t[1] if t[0] == "rej" else t
            if t[0] == "call":
                todo += [x[0] for x in t[6]]
                ops(t[2], todo)
                ops(t[1].get("ind"), todo)
            elif t[0] in ("sw", "assert"):
                ops(t[1], todo)
            elif t[0] == "nd" and t[3]:
                ops(t[3], todo)
        seen = set()
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += dep.get(x, ())
        self._live = seen
        return seen

    # nodes of the provenance graph: (local, tuple(fieldpath))
    def _norm_proj(self, pr):
        out = []
        for e in pr:
            if e == "*":
                continue
            if isinstance(e, list):
                if e[0] == "f":
                    if e[1].startswith(("std::option::Option", "std::result::Result", "std::ops::ControlFlow")):
                        out.append(("-" if e[1].endswith(("::Err", "::Break")) else "+", "0"))
                    else:
                        out.append((e[1], e[2]))
                elif e[0] == "d":
                    continue
                elif e[0] == "i":
                    out.append(("[]", e[1]))
                elif e[0] in ("ci", "ss"):
                    out.append(("[c]", str(e[1]) if e[0] == "ci" and not e[-1] else str(e[1:])))
        return tuple(out)

    def leaves_place(self, p):
        key = (p[0], self._norm_proj(p[1]))
        return self._get(key)

    def leaves_op(self, o):
        if o[0] == "k":
            return frozenset(self._const(o[1]))
        return self.leaves_place(o[1])

    def leaves_call(self, t):
        direct, deps = set(), []
        self._call(t, (), direct, deps)
        return frozenset(direct).union(*[self._tag(self._get(d), tag) for d, tag in deps])

    def _const(self, k):
        if "fn" in k:
            return {"FN:" + short(canon(callee_key(k["fn"])))}
        if "prom" in k:
            f = self.prog.fns.get(f"{k['prom'][0]}#prom{k['prom'][1]}") or self.prog.fns.get(f"{self.root.crate}!{k['prom'][0]}#prom{k['prom'][1]}")
            if f is not None:
                nf = NF(self.prog, f, lambda g: False)
                return set(nf.leaves_place([0, []]))
            return {"K:prom"}
        if "v" in k:
            if k["t"] == "bool":
                return {"K:true" if k["v"] == "1" else "K:false"}
            return {"K:" + k["v"]}
        s = k.get("s", "")
        if k["t"] in ("()",) or s in ("()", "rtcheck"):
            return set()
        if "n" in k and k["n"]:
            c = self.prog.fns.get(k["n"])
            return {"K:" + short(canon(k["n"]))}
        return {"K:" + s[:80]}

    def _get(self, key):
        if key in self._leaf:
            return self._leaf[key]
        # collect the closure of nodes needed
        eqs = {}
        todo = [key]
        while todo:
            k = todo.pop()
            if k in eqs or k in self._leaf:
                continue
            direct, deps = self._node(k)
            if len(k[1]) > 3:
                deps = [(d if len(d[1]) <= 7 else (d[0], d[1][:7]), t) for d, t in deps]
            eqs[k] = (direct, deps)
            for d, tag in deps:
                if d not in eqs and d not in self._leaf:
                    todo.append(d)
        val = {k: set(v[0]) for k, v in eqs.items()}
        users = defaultdict(list)
        for k, (di, de) in eqs.items():
            for d, tag in de:
                users[d].append((k, tag))
        work = list(eqs)
        for k in eqs:
            for d, tag in eqs[k][1]:
                if d in self._leaf:
                    val[k] |= self._tag(self._leaf[d], tag)
        inq = set(work)
        while work:
            d = work.pop()
            inq.discard(d)
            for k, tag in users.get(d, ()):
                add = self._tag(val[d], tag) - val[k]
                if add:
                    val[k] |= add
                    if k not in inq:
                        inq.add(k)
                        work.append(k)
        for k, v in val.items():
            self._leaf[k] = frozenset(v)
        return self._leaf[key]

    @staticmethod
    def _tag(s, tag):
        if not tag:
            return s
        return {x if x.startswith("-") or x.startswith("O:") else "-" + x for x in s}

    def _node(self, key):
        l, fp = key
        direct = set()
        deps = []
        if 1 <= l <= self.argc:
            # root parameter
            direct.add(f"P{l}")
            for o, n in fp:
                if o == "[]":
                    self._index(direct, deps, n)
                elif o == "[c]":
                    direct.add("I:" + n)
                elif o == "closure":
                    direct.add("up" + n)
                elif o == "tuple":
                    direct.add("T:" + n)
                elif o in "+-":
                    pass
                else:
                    direct.add(f"F:{short(o)}.{n}" if "::" in o else f"F:{o}.{n}")
            # a parameter may still be reassigned in the body
            for d in self.D.get(l, []):
                if d[1] != "mut" and not d[3]:
                    self._def(d, fp, direct, deps)
            return direct, deps
        ds = self.D.get(l, [])
        iv = self._is_iv(l)
        if iv and not fp:
            direct.add("IV")
            for d in ds:
                if d[1] == "rv" and not d[3] and not self._selfstep(l, d):
                    self._def(d, fp, direct, deps)
            return direct, deps
        for d in ds:
            self._def(d, fp, direct, deps)
        return direct, deps

    def _selfstep(self, l, d):
        """def is l = l +/- const (directly or via checked tuple)"""
        r = d[2]
        for _ in range(4):
            if r[0] == "use" and r[1][0] in ("c", "m") and not r[1][1][1]:
                dd = self.D.get(r[1][1][0], [])
                if len(dd) == 1 and dd[0][1] == "rv" and not dd[0][3]:
                    r = dd[0][2]
                    continue
            break
        if r[0] == "use" and r[1][0] in ("c", "m"):
            pl = r[1][1]
            if pl[1] and isinstance(pl[1][0], list) and pl[1][0][1] == "tuple":
                dd = self.D.get(pl[0], [])
                if len(dd) == 1 and dd[0][1] == "rv":
                    r = dd[0][2]
        if r[0] == "bin" and r[1] in ("AddWithOverflow", "Add", "AddUnchecked"):
            a, b = r[2], r[3]
            if a[0] in ("c", "m") and a[1] == [l, []] and b[0] == "k" and b[1].get("v") == "1":
                return True
        return False

    def _is_iv(self, l):
        ds = [d for d in self.D.get(l, []) if not d[3]]
        return len(ds) >= 2 and any(d[1] == "rv" and self._selfstep(l, d) for d in ds)

    def _index(self, direct, deps, n):
        deps.append(((n, ()), ""))
        direct.add("[i]")

    def _dep_op(self, o, fp, direct, deps, tag=""):
        if o[0] == "k":
            direct |= self._tag(self._const(o[1]), tag)
        else:
            deps.append(((o[1][0], self._norm_proj(o[1][1]) + fp), tag))

    def _fieldleaf(self, fp, direct, deps):
        for o, n in fp:
            if o == "[]":
                self._index(direct, deps, n)
            elif o == "[c]":
                direct.add("I:" + n)
            elif o == "closure":
                direct.add("up" + n)
            elif o == "tuple":
                direct.add("T:" + n)
            elif o in "+-" or o.startswith(("std::collections", "indexmap", "std::boxed", "std::ptr", "std::vec", "std::sync", "std::rc", "std::mem")):
                pass
            else:
                direct.add(f"F:{short(o)}.{n}" if "::" in o else f"F:{o}.{n}")

    def _def(self, d, fp, direct, deps):
        bi, kind, payload, wproj = d
        if wproj:
            wp = self._norm_proj(wproj)
            # a write to a sub-place: relevant when paths are compatible
            m = min(len(wp), len(fp))
            if wp[:m] != fp[:m]:
                return
            if len(wp) > len(fp):
                # writing a component of what we read
                fp2 = ()
            else:
                fp2 = fp[len(wp) :]
        else:
            fp2 = fp
        if kind == "rv":
            self._rv(payload, fp2, direct, deps)
        elif kind == "call":
            self._call(payload, fp2, direct, deps)
        elif kind == "mut":
            t, ai = payload
            fd = t[1].get("fn")
            c = canon(callee_key(fd)) if fd else "ind"
            seg = lastseg(c)
            if is_std(c):
                if seg in ACCUM:
                    el = fp2 if seg in ("push", "push_back", "push_front", "extend", "append", "extend_from_slice") else ()
                    for j, a in enumerate(t[2]):
                        if j != ai:
                            self._dep_op(a, el, direct, deps)
                    for lb, sg, cid in t[6]:
                        deps.append(((lb, ()), ""))
                elif seg in OPM:
                    direct.add("O:" + OPM[seg])
                    for j, a in enumerate(t[2]):
                        if j != ai:
                            self._dep_op(a, (), direct, deps, "-" if OPM[seg] in NONCOMM else "")
                elif seg in ("next", "iter_mut", "as_mut", "deref_mut", "index_mut", "get_mut", "by_ref", "as_mut_slice", "next_back", "split_at_mut", "sort", "sort_by", "pop", "remove", "drain", "clear", "truncate", "take", "retain", "reverse", "dedup"):
                    pass
                else:
                    direct.add("M:" + seg)
            elif fd and not self.trivial_callee(fd):
                direct.add("M:" + short(c))

    def _range_elem(self, o, direct, deps):
        """o iterates over a locally built range: its elements count up from the lower bound"""
        p = o[1]
        for _ in range(8):
            p = self.resolve_place([p[0], p[1] + ["*"]]) if self._ty_of(p).startswith("&") else p
            if p[1]:
                return False
            ds = [d for d in self.D.get(p[0], []) if d[1] in ("rv", "call") and not d[3]]
            if len(ds) != 1:
                return False
            d = ds[0][2]
            if ds[0][1] == "rv":
                if d[0] == "use" and d[1][0] in ("c", "m"):
                    p = d[1][1]
                    continue
                if d[0] == "agg" and d[1][0] == "adt" and d[1][1].startswith("std::ops::Range") and d[2] and "RangeTo" not in d[1][1]:
                    direct.add("IV")
                    self._dep_op(d[2][0], (), direct, deps)
                    return True
                return False
            fd = d[1].get("fn")
            if not fd:
                return False
            c = canon(fd["p"])
            seg = lastseg(c)
            if seg in ("into_iter", "by_ref") and d[2] and d[2][0][0] in ("c", "m"):
                p = d[2][0][1]
                continue
            if seg == "new" and "RangeInclusive" in c:
                direct.add("IV")
                self._dep_op(d[2][0], (), direct, deps)
                return True
            return False
        return False

    def trivial_callee(self, fd):
        return False

    def _rv(self, r, fp, direct, deps):
        k = r[0]
        if k == "use":
            self._dep_op(r[1], fp, direct, deps)
        elif k == "ref":
            deps.append(((r[2][0], self._norm_proj(r[2][1]) + fp), ""))
        elif k == "union":
            # what a closure is called with: the element of an iterator, the content of an option
            for o in r[1]:
                f2 = fp
                if o[0] in ("c", "m"):
                    ty = self._ty_of(o[1]).lstrip("&").replace("mut ", "")
                    if ty.startswith(("std::option::Option", "std::result::Result")):
                        f2 = (("-" if r[2] in ("map_err", "inspect_err", "or_else", "unwrap_or_else") else "+", "0"),) + fp
                    elif self._range_elem(o, direct, deps):
                        continue
                self._dep_op(o, f2, direct, deps)
        elif k == "bin":
            op = r[1].replace("WithOverflow", "").replace("Unchecked", "")
            if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                direct.add("B")  # a truth value; its content is an atom fact
                return
            if fp and fp[0] == ("tuple", "1") and "WithOverflow" in r[1]:
                direct.add("B")
                return
            direct.add("O:" + op)
            self._dep_op(r[2], (), direct, deps)
            self._dep_op(r[3], (), direct, deps, "-" if op in NONCOMM else "")
        elif k == "un":
            if r[1] == "PtrMetadata":
                direct.add("L")
                self._dep_op(r[2], (), direct, deps)
                return
            if r[1] == "Not":
                # logical not of bools is an atom matter
                self._dep_op(r[2], fp, direct, deps)
                return
            direct.add("O:" + r[1])
            self._dep_op(r[2], fp, direct, deps)
        elif k == "cast":
            self._dep_op(r[2], fp, direct, deps)
            if r[2][0] in ("c", "m"):
                st = self._ty_of(r[2][1])
                a, b = NARROW.get(st), NARROW.get(r[3])
                if a and b and (b < a or (st[0] in "if") != (r[3][0] in "if") and False):
                    direct.add("cast:" + r[3])
                elif a and b and st[0] == "f" and r[3][0] != "f":
                    direct.add("cast:" + r[3])
        elif k == "discr":
            deps.append(((r[1][0], self._norm_proj(r[1][1])), ""))
        elif k == "agg":
            ak = r[1]
            if ak[0] == "tuple":
                if fp and fp[0][0] == "tuple":
                    i = int(fp[0][1])
                    if i < len(r[2]):
                        self._dep_op(r[2][i], fp[1:], direct, deps)
                    return
                for o in r[2]:
                    self._dep_op(o, (), direct, deps)
            elif ak[0] == "closure":
                if fp and fp[0][0] == "closure":
                    i = int(fp[0][1])
                    if i < len(r[2]):
                        self._dep_op(r[2][i], fp[1:], direct, deps)
                    return
                direct.add("closure")
            elif ak[0] == "adt":
                path, var, names = ak[1], ak[2], ak[3]
                std = path.startswith(("std::boxed", "std::mem"))
                if path.startswith(("std::option", "std::result", "std::ops::ControlFlow")):
                    bad = var in ("Err", "Break")
                    if var == "None":
                        if not fp:
                            direct.add("V:None")
                        return
                    if fp and fp[0][0] in "+-":
                        if (fp[0][0] == "-") == bad and r[2]:
                            self._dep_op(r[2][0], fp[1:], direct, deps)
                        return
                    if bad:
                        if fp:
                            return
                        direct.add("V:Err")
                    for o in r[2]:
                        self._dep_op(o, fp, direct, deps)
                    return
                if fp and fp[0][1] in names and fp[0][0].startswith(path):
                    i = names.index(fp[0][1])
                    if var and not fp[0][0].endswith("::" + var):
                        return
                    if i < len(r[2]):
                        self._dep_op(r[2][i], fp[1:], direct, deps)
                    return
                if std:
                    pass
                elif path == "std::ops::Range" or path.startswith("std::ops::Range"):
                    direct.add("range")
                else:
                    direct.add("V:" + short(path) + ("::" + var if var else "") if "::" in path else "V:" + path)
                for o in r[2]:
                    self._dep_op(o, (), direct, deps)
                self._fieldleaf(fp, direct, deps)
            else:
                for o in r[2]:
                    self._dep_op(o, (), direct, deps)
        elif k == "rep":
            self._dep_op(r[1], (), direct, deps)
        elif k == "tls":
            direct.add("TLS")

    def _ty_of(self, p):
        if not p[1]:
            return self.locals[p[0]]
        e = p[1][-1]
        if isinstance(e, list) and e[0] == "f":
            if e[1] == "tuple":
                m = re.match(r"^\((\w+), (\w+)\)$", self.locals[p[0]])
                if m:
                    return m.group(1 + int(e[2]))
            a = self.prog.adts.get(e[1])
            if a and a["kind"] == "struct":
                for v in a["variants"]:
                    for f in v[2]:
                        if f[0] == e[2]:
                            return f[1]
        return ""

    def _call(self, t, fp, direct, deps):
        f = t[1]
        fd = f.get("fn")
        if fd is None:
            direct.add("C:indirect")
            return
        c = canon(callee_key(fd))
        pth = canon(fd["p"])
        seg = lastseg(c)
        args = t[2]
        clr = t[6]
        if is_std(pth) or is_std(c):
            trait_local = fd.get("r") and not is_std(c)
            if seg in ("from", "into") and "::" not in c.split(" as ")[0].lstrip("<"):
                trait_local = False
            if trait_local and seg not in TRANSP1 and seg not in CMPM and seg not in OPM:
                direct.add("C:" + short(c))
                self._fieldleaf(fp, direct, deps)
                return
            if seg in CMPM and len(args) == 2:
                direct.add("B")
                return
            if seg in OPM and "ops" in pth:
                op = OPM[seg]
                direct.add("O:" + op)
                for i, a in enumerate(args):
                    self._dep_op(a, (), direct, deps, "-" if i == 1 and op in NONCOMM else "")
                return
            if clr and seg in ("map", "and_then", "then", "fold", "map_or", "map_or_else", "unwrap_or_else", "or_else", "flat_map", "filter_map", "find_map", "get_or_insert_with", "call_once", "call", "call_mut", "ok_or_else", "map_while", "scan", "try_fold", "reduce", "from_fn"):
                if seg in ("ok_or_else",):
                    if not fp or fp[0][0] != "-":
                        self._dep_op(args[0], fp, direct, deps)
                    if not fp or fp[0][0] == "-":
                        for lb, sg, cid in clr:
                            deps.append(((lb, fp[1:]), ""))
                            if not fp:
                                direct.add("V:Err")
                    return
                if seg in ("map", "and_then", "map_or", "map_or_else") and fp and fp[0][0] in "+-" and seg == "map":
                    if "terator" in c:
                        # a collected outcome is the one each element has
                        for lb, sg, cid in clr:
                            deps.append(((lb, fp), ""))
                    elif fp[0][0] == "+":
                        for lb, sg, cid in clr:
                            deps.append(((lb, fp[1:]), ""))
                    else:
                        self._dep_op(args[0], fp, direct, deps)
                    return
                if seg == "get_or_insert_with" and args[0][0] in ("c", "m"):
                    b = self.resolve_place([args[0][1][0], args[0][1][1] + ["*"]])
                    if 1 <= b[0] <= self.argc and b[1]:
                        # afterwards it is what the place holds
                        self._dep_op(args[0], fp, direct, deps)
                        return
                for lb, sg, cid in clr:
                    deps.append(((lb, fp), ""))
                if seg in ("fold", "map_or", "map_or_else", "unwrap_or_else", "or_else", "try_fold"):
                    for a in args:
                        if a[0] == "k" and "fn" in a[1]:
                            continue
                        if a[0] == "k" or "{closure@" not in self.locals[a[1][0]]:
                            if seg in ("fold", "try_fold", "map_or") and a is args[0]:
                                continue
                            self._dep_op(a, fp, direct, deps)
                return
            if seg in ("index", "index_mut") and len(args) == 2:
                self._dep_op(args[0], (), direct, deps)
                direct.add("[i]")
                self._dep_op(args[1], (), direct, deps)
                self._fieldleaf(fp, direct, deps)
                return
            if seg in ("get", "get_mut", "get_unchecked", "get_unchecked_mut") and len(args) == 2 and ("slice" in c or "vec" in c or "Vec" in c):
                self._dep_op(args[0], (), direct, deps)
                direct.add("[i]")
                self._dep_op(args[1], (), direct, deps)
                self._fieldleaf(fp, direct, deps)
                return
            if seg in ("first", "first_mut", "last", "last_mut") and len(args) == 1:
                self._dep_op(args[0], (), direct, deps)
                direct.add("[i]")
                direct.add("K:0" if seg.startswith("first") else "C:last")
                self._fieldleaf(fp, direct, deps)
                return
            if seg == "then_some" and len(args) == 2:
                self._dep_op(args[1], fp, direct, deps)
                return
            if seg == "is_multiple_of":
                direct.add("B")
                return
            if seg == "len" or seg == "count":
                direct.add("L")
                self._dep_op(args[0], (), direct, deps)
                return
            if seg in ("is_empty", "is_some", "is_none", "is_ok", "is_err", "contains", "contains_key", "any", "all", "is_some_and", "starts_with", "ends_with", "is_none_or", "is_ok_and"):
                direct.add("B")
                return
            if seg == "sum":
                direct.add("O:Add")
                direct.add("K:0")
                self._dep_op(args[0], (), direct, deps)
                return
            if seg in NEUTRAL_NEW and not args or seg in ("new_uninit", "box_assume_init_into_vec_unsafe", "or_default", "new_uninit_slice"):
                for a in args:
                    self._dep_op(a, fp, direct, deps)
                return
            if seg in ("new", "with_capacity", "pin", "from_vec") and len(args) >= 1 and (".".join(c.split("::")).find("Vec.") < 0):
                self._dep_op(args[0], fp, direct, deps)
                return
            if seg == "with_capacity":
                return
            if seg == "next" and args:
                # element of an iterator: a Range yields an induction value
                if args[0][0] in ("c", "m") and self._range_elem(args[0], direct, deps):
                    return
                self._dep_op(args[0], fp[1:] if fp and fp[0][0] in "+-" else fp, direct, deps)
                return
            if seg == "from_residual" and fp and fp[0][0] == "+":
                return
            if seg in ("unwrap", "expect", "unwrap_unchecked") and args:
                self._dep_op(args[0], (("+", "0"),) + fp, direct, deps)
                return
            if seg in ("unwrap_or", "unwrap_or_default") and args:
                self._dep_op(args[0], (("+", "0"),) + fp, direct, deps)
                for a in args[1:]:
                    self._dep_op(a, fp, direct, deps)
                return
            if seg in ("ok_or", "ok_or_else") and args and fp and fp[0][0] == "-":
                for a in args[1:]:
                    self._dep_op(a, fp[1:], direct, deps)
                for lb, sg, cid in clr:
                    deps.append(((lb, fp[1:]), ""))
                return
            if seg == "enumerate" and args and fp and fp[0][0] == "tuple":
                if fp[0][1] == "0":
                    direct.add("IV")
                    direct.add("K:0")
                else:
                    self._dep_op(args[0], fp[1:], direct, deps)
                return
            if seg == "zip" and len(args) == 2 and fp and fp[0][0] == "tuple":
                self._dep_op(args[int(fp[0][1])], fp[1:], direct, deps)
                return
            if seg in TRANSP1 and args and not (seg == "take" and len(args) == 2):
                self._dep_op(args[0], fp if seg not in ("zip", "enumerate") else (), direct, deps)
                if seg in TRANSPALL:
                    for a in args[1:]:
                        self._dep_op(a, fp, direct, deps)
                return
            if seg in TRANSPALL:
                for a in args:
                    self._dep_op(a, fp, direct, deps)
                return
            if seg in ("saturating_sub", "saturating_add", "checked_add", "checked_sub", "checked_mul", "checked_div", "checked_rem", "wrapping_add", "wrapping_sub", "wrapping_mul", "overflowing_add", "pow", "min", "max", "clamp", "div_ceil", "next_multiple_of", "abs", "rem_euclid", "div_euclid", "saturating_mul", "wrapping_neg", "checked_neg", "checked_pow", "unsigned_abs", "add", "sub", "offset", "byte_add", "cmp", "partial_cmp", "total_cmp", "then_with", "reverse", "then"):
                direct.add("O:" + seg)
                for i, a in enumerate(args):
                    self._dep_op(a, (), direct, deps, "-" if i == 1 and (seg in NONCOMM or seg in ("cmp", "partial_cmp", "total_cmp")) else "")
                for lb, sg, cid in clr:
                    deps.append(((lb, ()), ""))
                return
            if seg in ("or_insert", "or_insert_with", "or_default", "into_mut", "or_insert_entry", "insert_entry") and "ntry" in c and args:
                self._dep_op(args[0], fp, direct, deps)
                for a in args[1:]:
                    if a[0] == "k" and "fn" in a[1] or a[0] != "k" and "{closure@" in self.locals[a[1][0]]:
                        continue
                    self._dep_op(a, fp, direct, deps)
                for lb, sg, cid in clr:
                    deps.append(((lb, fp), ""))
                return
            direct.add("C:" + ("get" if seg in ("get_mut", "entry", "get_or_insert") else seg))
            for a in args:
                if a[0] in ("c", "m") and "{closure@" in self.locals[a[1][0]][:12]:
                    continue
                self._dep_op(a, (), direct, deps)
            self._fieldleaf(fp, direct, deps)
            return
        direct.add("C:" + short(c) + self._which(c, t))
        self._fieldleaf(fp, direct, deps)
