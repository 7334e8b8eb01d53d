"""Which locks are held where: guard lifetimes per function, lock acquisitions through the call graph."""
import re
from collections import defaultdict, deque
from ax import canon, short, callee_key

HEAD = re.compile(r"(ArcRwLockReadGuard|ArcRwLockWriteGuard|ArcRwLockUpgradableReadGuard|RwLockReadGuard|RwLockWriteGuard|RwLockUpgradableReadGuard|MappedRwLockReadGuard|MappedRwLockWriteGuard|ArcMutexGuard|MutexGuard|MappedMutexGuard)<")
PRIM = set("read write lock try_read try_write try_lock read_arc write_arc lock_arc try_read_arc try_write_arc upgradable_read read_recursive try_read_for try_write_for try_lock_for try_read_recursive".split())


def targs(t, i):
    """top-level generic arguments of the list opening at t[i] == '<'"""
    d, cur, out = 0, "", []
    for j in range(i, len(t)):
        c = t[j]
        if c in "<([":
            d += 1
            if d == 1:
                continue
        elif c in ">)]" and t[j - 1] != "-":
            d -= 1
            if d == 0:
                out.append(cur.strip())
                return out
        elif c == "," and d == 1:
            out.append(cur.strip())
            cur = ""
            continue
        cur += c
    return out


_memo = {}


def guards(ty):
    """[(class, mode)] of the guards a value of this type carries by value"""
    r = _memo.get(ty)
    if r is None:
        r = []
        t = ty
        if not t.startswith(("&", "*")) and not t.startswith("for<"):
            for m in HEAD.finditer(t):
                # a guard behind a reference is somebody else's
                a = [x for x in targs(t, m.end() - 1) if not x.startswith("'")]
                if a:
                    cls = re.sub(r"'\w+ ?", "", a[-1])
                    r.append((simple(cls), "W" if "Write" in m.group(1) or "Mutex" in m.group(1) else "R"))
        _memo[ty] = r
    return r


def simple(t):
    return re.sub(r"\b(?:\w+::)+(\w+)", r"\1", t)


class Locks:
    def __init__(self, prog):
        self.prog = prog
        self.wrap()
        self.calls()
        self.summaries()
        self.edges = defaultdict(list)  # (held, acquired) -> witnesses
        self.sites = 0
        self.nheld = 0
        for f in prog.fns.values():
            if f.kind in ("Fn", "AssocFn", "Closure"):
                self.scan(f)

    def wrap(self):
        """structs that own a guard"""
        self.wrapper = {}
        for _ in range(3):
            for p, a in self.prog.adts.items():
                if p in self.wrapper:
                    continue
                for v in a["variants"]:
                    for fl in v[2]:
                        ty = fl[1] if isinstance(fl, list) and len(fl) > 1 else ""
                        g = self.tguards(ty) if isinstance(ty, str) else []
                        if g and "Vec<" not in ty and "HashMap<" not in ty:
                            self.wrapper[p] = g

    def tguards(self, ty):
        g = guards(ty)
        if g or ty.startswith(("&", "*")):
            return g
        for w, gg in getattr(self, "wrapper", {}).items():
            if w in ty and re.search(r"(?<![\w:])" + re.escape(w) + r"(?![\w:])", ty):
                return gg
        return []

    # ---------------------------------------------------------- call graph
    def targets(self, f, fd):
        P = self.prog
        k = fd.get("r") or fd.get("p")
        for kk in (k, f.crate + "!" + (k or "")):
            if kk in P.fns:
                return [P.fns[kk]]
        if not fd.get("r"):
            return [P.fns[i] for i in P.by_item.get(fd.get("p"), [])]
        return []

    def calls(self):
        P = self.prog
        self.out = defaultdict(set)
        self.drops = defaultdict(set)
        dropimpl = {}
        for f in P.fns.values():
            if f.item and f.item.endswith("Drop::drop") and f.self_ty:
                dropimpl[canon(f.self_ty).split("<")[0]] = f.id
        self.dropimpl = dropimpl
        for f in P.fns.values():
            for b in f.bb:
                if b.get("u"):
                    continue
                for s in b["s"]:
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure":
                        k = s[2][1][1]
                        for kk in (k, f.crate + "!" + k):
                            if kk in P.fns:
                                self.out[f.id].add(kk)
                t = b["t"]
                if t[0] == "call" and t[1].get("fn"):
                    for g in self.targets(f, t[1]["fn"]):
                        self.out[f.id].add(g.id)
                    for a in t[2]:
                        if a[0] == "k" and "fn" in a[1]:
                            for g in self.targets(f, a[1]["fn"]):
                                self.out[f.id].add(g.id)

    def acquisition(self, f, t):
        """classes this call itself acquires"""
        fd = t[1].get("fn")
        if not fd:
            return []
        c = canon(callee_key(fd))
        seg = c.rsplit("::", 1)[-1]
        if seg in PRIM and ("lock_api" in c or "sync::" in c):
            d = t[3]
            return guards(f.locals[d[0]]) if not d[1] else []
        return []

    def summaries(self):
        own = defaultdict(set)
        for f in self.prog.fns.values():
            for b in f.bb:
                if not b.get("u") and b["t"][0] == "call":
                    for g in self.acquisition(f, b["t"]):
                        own[f.id].add(g)
        self.own = own
        may = {i: set(s) for i, s in own.items()}
        rev = defaultdict(set)
        for a, bs in self.out.items():
            for b in bs:
                rev[b].add(a)
        todo = deque(may)
        while todo:
            x = todo.popleft()
            for y in rev[x]:
                s = may.setdefault(y, set())
                if not may[x] <= s:
                    s |= may[x]
                    todo.append(y)
        self.may = may

    # ---------------------------------------------------------- guard lifetimes
    def scan(self, f):
        loc = {i: self.tguards(t) for i, t in enumerate(f.locals)}
        loc = {i: g for i, g in loc.items() if g and i != 0}
        if not loc:
            return
        self.nheld += 1
        n = len(f.bb)
        IN = [None] * n
        IN[0] = frozenset(i for i in loc if 1 <= i <= f.argc)
        todo = [0]
        while todo:
            i = todo.pop()
            b = f.bb[i]
            if b.get("u"):
                continue
            H = self.stmts(f, b, set(IN[i]), loc)
            t = b["t"]
            out = set(H)
            for a in self.moved(t):
                out.discard(a)
            if t[0] == "drop" and not t[1][1]:
                out.discard(t[1][0])
            if t[0] == "call" and not t[3][1] and t[3][0] in loc:
                out.add(t[3][0])
            for s in self.succ(t):
                o = frozenset(out)
                if IN[s] is None:
                    IN[s] = o
                    todo.append(s)
                elif not o <= IN[s]:
                    IN[s] = IN[s] | o
                    todo.append(s)
        for i, b in enumerate(f.bb):
            if IN[i] is None or b.get("u"):
                continue
            H = self.stmts(f, b, set(IN[i]), loc)
            t = b["t"]
            if t[0] != "call" or not H:
                continue
            H -= set(self.moved(t))
            if not H:
                continue
            acq = {}
            for g in self.acquisition(f, t):
                acq[g] = None
            fd = t[1].get("fn")
            if fd:
                for g in self.targets(f, fd):
                    for x in self.may.get(g.id, ()):
                        acq.setdefault(x, g)
                for a in t[2]:
                    ty = f.locals[a[1][0]] if a[0] in ("c", "m") and not a[1][1] else ""
                    if "{closure@" in ty:
                        for k in self.closure_of(f, a[1][0]):
                            for x in self.may.get(k, ()):
                                acq.setdefault(x, self.prog.fns[k])
            self.sites += 1
            for h in H:
                for hc in loc[h]:
                    for (c, m), g in acq.items():
                        self.edges[(hc[0], c)].append((f, t[5], hc[1], m, g))

    def closure_of(self, f, l, seen=None):
        out = []
        for b in f.bb:
            for s in b["s"]:
                if s[0] == "=" and s[1][0] == l and not s[1][1]:
                    r = s[2]
                    if r[0] == "agg" and r[1][0] == "closure":
                        k = r[1][1]
                        out += [kk for kk in (k, f.crate + "!" + k) if kk in self.prog.fns]
        return out

    def stmts(self, f, b, H, loc):
        for s in b["s"]:
            if s[0] == "x":
                H.discard(s[1])
            if s[0] != "=":
                continue
            r = s[2]
            ops = [r[1]] if r[0] == "use" else r[2] if r[0] == "agg" else []
            mv = [o[1][0] for o in ops if o[0] == "m" and o[1][0] in H]
            if mv:
                for x in mv:
                    H.discard(x)
                if s[1][0] in loc and not s[1][1]:
                    H.add(s[1][0])
        return H

    @staticmethod
    def moved(t):
        if t[0] == "call":
            return [a[1][0] for a in t[2] if a[0] == "m" and not a[1][1]]
        return []

    @staticmethod
    def succ(t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "sw":
            return [x for _, x in t[3]] + [t[4]]
        if k == "drop":
            return [t[2]]
        if k == "assert":
            return [t[4]]
        if k == "call":
            return [t[4]] if t[4] >= 0 else []
        return []


def cycles(edges):
    """pairs of classes that can be taken in both orders"""
    adj = defaultdict(set)
    for a, b in edges:
        if a != b:
            adj[a].add(b)
    return adj
