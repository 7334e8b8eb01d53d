"""Which functions have effects a caller could notice besides their result?  Bottom-up over the call graph."""
import re
from collections import defaultdict
from ax import canon, callee_key
from norm import is_std, lastseg, IGNORE_CALL

IOSEG = set("write_all sync_all sync_data set_len seek read_exact read_to_end flush fetch_add fetch_sub store swap compare_exchange send recv recv_timeout join spawn notify_all notify_one wait wait_timeout remove_file create_dir_all open create set_read_timeout set_write_timeout shutdown forget catch_unwind sleep lock write try_write write_arc upgradable_read read_from write_to exit elapsed now random gen_range gen".split())
IO = set("write_all sync_all sync_data set_len seek read_exact read_to_end remove_file create_dir_all".split())
NEUTRALM = set("next by_ref iter_mut as_mut deref_mut index_mut get_mut borrow_mut as_mut_slice peek next_back as_deref_mut size_hint drop_in_place".split())


class Purity:
    def __init__(self, prog):
        self.prog = prog
        self.impure = set()
        self.io = set()
        callers = defaultdict(set)
        for f in prog.fns.values():
            if self._direct(f):
                self.impure.add(f.id)
            if self._dio(f):
                self.io.add(f.id)
            for k in self._callees(f):
                callers[k].add(f.id)
            if f.kind == "Closure" and f.parent:
                for p in (f.parent, f.crate + "!" + f.parent):
                    callers[f.id].add(p)
        for s in (self.impure, self.io):
            todo = list(s)
            while todo:
                x = todo.pop()
                for c in callers.get(x, ()):
                    if c not in s and c in prog.fns:
                        s.add(c)
                        todo.append(c)
        byc = defaultdict(list)
        for f in prog.fns.values():
            byc[f.cid].append(f.id)
        self.pure = {c for c, ids in byc.items() if not any(i in self.impure for i in ids)}
        self.ioc = {c for c, ids in byc.items() if any(i in self.io for i in ids)}
        # unresolved trait calls: every implementation counts
        for item, ids in prog.by_item.items():
            if any(i in self.impure for i in ids):
                self.pure.discard(canon(item))
            elif ids:
                self.pure.add(canon(item))
            if any(i in self.io for i in ids):
                self.ioc.add(canon(item))

    def _callees(self, f):
        for b in f.bb:
            t = b["t"]
            if t[0] == "call" and t[1].get("fn"):
                fd = t[1]["fn"]
                k = fd.get("r") or fd.get("p")
                if k in self.prog.fns:
                    yield k
                elif f.crate + "!" + k in self.prog.fns:
                    yield f.crate + "!" + k
                elif not fd.get("r"):
                    yield from self.prog.by_item.get(fd.get("p"), [])

    def _dio(self, f):
        for b in f.bb:
            t = b["t"]
            if t[0] == "call" and t[1].get("fn"):
                c = canon(callee_key(t[1]["fn"]))
                if is_std(c) and lastseg(c) in IO:
                    return True
        return False

    def _direct(self, f):
        if f.kind not in ("Fn", "AssocFn", "Closure"):
            return False
        L = f.locals
        # references that may reach beyond this body: parameters and what comes from them or from guards
        ext = set(range(1, f.argc + 1))
        changed = True
        while changed:
            changed = False
            for b in f.bb:
                if b.get("u"):
                    continue
                for s in b["s"]:
                    if s[0] == "=" and not s[1][1] and s[1][0] not in ext and (L[s[1][0]].startswith(("&", "*")) or "&mut" in L[s[1][0]] or "&'" in L[s[1][0]]):
                        r = s[2]
                        src = None
                        if r[0] == "ref":
                            p = r[2]
                            if p[0] in ext and ("*" in p[1] or L[p[0]].startswith(("&", "*"))):
                                src = True
                        elif r[0] in ("use", "cast"):
                            o = r[1] if r[0] == "use" else r[2]
                            if o[0] in ("c", "m") and o[1][0] in ext:
                                src = True
                        if src:
                            ext.add(s[1][0])
                            changed = True
                t = b["t"]
                if t[0] == "call" and not t[3][1] and t[3][0] not in ext and (L[t[3][0]].startswith(("&", "*")) or "&mut" in L[t[3][0]] or "Guard" in L[t[3][0]]):
                    if any(a[0] in ("c", "m") and a[1][0] in ext for a in t[2]) or "Guard" in L[t[3][0]]:
                        ext.add(t[3][0])
                        changed = True
        for b in f.bb:
            if b.get("u"):
                continue
            for s in b["s"]:
                if s[0] == "=" and s[1][1]:
                    if "*" in s[1][1] and s[1][0] in ext:
                        return True
            t = b["t"]
            if t[0] == "call":
                fd = t[1].get("fn")
                if not fd:
                    return True
                c = canon(callee_key(fd))
                if IGNORE_CALL.search(c):
                    continue
                if not is_std(c):
                    continue
                seg = lastseg(c)
                if seg in IOSEG:
                    return True
                if seg in NEUTRALM:
                    if seg in ("deref_mut",) and t[2] and t[2][0][0] in ("c", "m"):
                        ty = L[t[2][0][1][0]]
                        if "Guard" in ty:
                            return True
                    continue
                for a in t[2]:
                    if a[0] in ("c", "m") and not a[1][1] and L[a[1][0]].startswith(("&mut", "*mut")) or a[0] in ("c", "m") and re.match(r"^&'?\w* ?mut ", L[a[1][0]]):
                        if a[1][0] in ext:
                            return True
        return False
