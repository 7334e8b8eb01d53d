"""Which fields a function reads and writes, itself and through everything it calls."""
from collections import defaultdict
from ax import canon, short, callee_key
from norm import is_std, lastseg

# shared state outside any field
IOSEG = {"write_all": "W", "sync_all": "W", "sync_data": "W", "set_len": "W", "seek": "W", "read_exact": "R", "read_to_end": "R", "remove_file": "W",
         "store": "W", "fetch_add": "W", "fetch_sub": "W", "swap": "W", "compare_exchange": "W", "send": "W", "notify_all": "W", "notify_one": "W"}
LOCKW = set("write lock write_arc lock_arc try_write try_lock".split())
PASS = set("deref_mut as_mut borrow_mut as_mut_slice".split())
RO = set("deref as_ref as_slice len is_empty get iter contains contains_key is_some is_none clone borrow as_deref first last to_vec cloned copied".split())


class Access:
    def __init__(self, prog):
        self.prog = prog
        own = {}
        self.sub = defaultdict(set)
        self.ret = {}  # what a returned &mut points into
        for k in range(3):
            n = len(self.ret)
            for f in prog.fns.values():
                if k == 0 or any(g in self.ret for g in self.sub.get(f.id, ())):
                    own[f.id] = self._own(f)
            if k and len(self.ret) == n:
                break
        self.R = {k: set(v[0]) for k, v in own.items()}
        self.W = {k: set(v[1]) for k, v in own.items()}
        callers = defaultdict(set)
        for k, s in self.sub.items():
            for x in s:
                callers[x].add(k)
        todo = list(self.R)
        while todo:
            x = todo.pop()
            for c in callers.get(x, ()):
                n = len(self.R[c]) + len(self.W[c])
                self.R[c] |= self.R[x]
                self.W[c] |= self.W[x]
                if len(self.R[c]) + len(self.W[c]) != n:
                    todo.append(c)
        self.byc = defaultdict(lambda: (set(), set()))
        for f in prog.fns.values():
            r, w = self.byc[f.cid]
            r |= self.R[f.id]
            w |= self.W[f.id]
        for item, ids in prog.by_item.items():
            r, w = self.byc[canon(item)]
            for i in ids:
                r |= self.R[i]
                w |= self.W[i]
        self.byc = dict(self.byc)

    @staticmethod
    def fields(p):
        return [f"{short(e[1])}.{e[2]}" for e in p[1] if isinstance(e, list) and e[0] == "f" and "::" in e[1] and not e[1].startswith(("std::", "core::", "alloc::"))]

    def _own(self, f):
        R, W = set(), set()
        refs = {}  # local -> fields it points into
        for b in f.bb:
            if b.get("u"):
                continue
            for s in b["s"]:
                if s[0] != "=":
                    continue
                w = self.fields(s[1])
                if w:
                    W.add(w[-1])
                    R.update(w[:-1])
                self._rv(s[2], R, W)
                r = s[2]
                if not s[1][1]:
                    src = None
                    if r[0] == "ref" and r[1]:
                        fs = self.fields(r[2])
                        src = {fs[-1]} if fs else refs.get(r[2][0]) if r[2][1] == ["*"] else None
                    elif r[0] in ("use", "cast"):
                        o = r[1] if r[0] == "use" else r[2]
                        src = refs.get(o[1][0]) if o[0] in ("c", "m") and not o[1][1] else None
                    if src:
                        refs.setdefault(s[1][0], set()).update(src)
                elif s[1][1] == ["*"]:
                    W |= refs.get(s[1][0], set())
                if r[0] == "agg" and r[1][0] == "closure":
                    for kk in (r[1][1], f.crate + "!" + r[1][1]):
                        if kk in self.prog.fns:
                            self.sub[f.id].add(kk)
            t = b["t"]
            if t[0] == "call":
                w = self.fields(t[3])
                if w:
                    W.add(w[-1])
                    R.update(w[:-1])
                for a in t[2]:
                    self._op(a, R)
                    if a[0] == "k" and "fn" in a[1]:
                        for g in self._targets(f, a[1]["fn"]):
                            self.sub[f.id].add(g)
                fd = t[1].get("fn")
                if fd and is_std(canon(callee_key(fd))) or not fd:
                    for a in t[2]:
                        if a[0] in ("c", "m") and not a[1][1] and a[1][0] in refs:
                            if fd and lastseg(canon(callee_key(fd))) in PASS:
                                refs.setdefault(t[3][0], set()).update(refs[a[1][0]])
                            else:
                                W |= refs[a[1][0]]
                elif fd:
                    for g in self._targets(f, fd):
                        if g in self.ret:
                            refs.setdefault(t[3][0], set()).update(self.ret[g])
                        if is_std(canon(self.prog.fns[g].self_ty or "")):
                            for a in t[2]:
                                if a[0] in ("c", "m") and not a[1][1] and a[1][0] in refs:
                                    W |= refs[a[1][0]]
                if fd:
                    for g in self._targets(f, fd):
                        self.sub[f.id].add(g)
                    c = canon(callee_key(fd))
                    seg = lastseg(c)
                    if is_std(c) and seg in IOSEG:
                        (W if IOSEG[seg] == "W" else R).add("#shared")
                    elif is_std(c) and seg in LOCKW and ("lock_api" in c or "sync::" in c):
                        W.add("#shared")
            elif t[0] == "sw":
                self._op(t[1], R)
        if f.locals and f.locals[0].startswith("&") and "mut" in f.locals[0][:12] and refs.get(0):
            self.ret[f.id] = refs[0]
        return R, W

    def _op(self, o, R):
        if o[0] in ("c", "m"):
            R.update(self.fields(o[1]))

    def _rv(self, r, R, W):
        k = r[0]
        if k in ("use", "rep"):
            self._op(r[1], R)
        elif k == "ref":
            fs = self.fields(r[2])
            if fs:
                R.update(fs)
        elif k == "cast":
            self._op(r[2], R)
        elif k == "bin":
            self._op(r[2], R)
            self._op(r[3], R)
        elif k == "un":
            self._op(r[2], R)
        elif k == "discr":
            R.update(self.fields(r[1]))
        elif k == "agg":
            for o in r[2]:
                self._op(o, R)

    def _targets(self, f, fd):
        P = self.prog
        k = fd.get("r") or fd.get("p")
        for kk in (k, f.crate + "!" + (k or "")):
            if kk in P.fns:
                return [kk]
        if not fd.get("r"):
            return list(P.by_item.get(fd.get("p"), []))
        return []


def of(prog):
    if not hasattr(prog, "_access"):
        prog._access = Access(prog)
    return prog._access


if __name__ == "__main__":
    import sys, ax
    P = ax.Prog.load(sys.argv[1])
    A = of(P)
    for n in sys.argv[2:]:
        for f in P.find_all(n):
            print(f.cid, "R", sorted(A.R[f.id])[:60], "W", sorted(A.W[f.id])[:60])
