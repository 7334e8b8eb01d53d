"""Compare two trees function by function: pairing, helper inlining, purity, and second looks."""
import ax
from ax import canon, short, callee_key
from extract import Policy, facts_for
from compare import compare, loosely, armed_effect
from purity import Purity
from loose import Loose, shape
from span import Span, gap

# a version in which this many statements were replaced was written anew: what follows from the wording of its
# conditions and values alone is then no evidence
ANEW = int(__import__("os").environ.get("ANEW", "12"))


def wording(d):
    if d.kind in ("result", "test-lost", "test-gained", "arith", "choice", "guard", "predicate"):
        return True
    return d.kind.startswith("args") and (d.msg.startswith(("construction of", "result", "answer of", "write of")) or "was evaluated on" in d.msg)


def rewritten(a, b, D):
    """do the two versions iterate in different manners?"""
    if a == b:
        return False
    if all(a[k] == b[k] for k in set(a) | set(b) if k not in ("take", "skip")):
        # part of a sequence is left out: only a new form of a test that was there before
        return any(d.kind == "test-lost" for d in D)
    return True


class Judge:
    def __init__(self, ref, cur):
        self.ref, self.cur = ref, cur
        self.ka, self.kb = ka, kb = ax.pair(ref, cur)
        self.ua = {ka[c].id for c in ka if c not in kb or ka[c].sig() != kb[c].sig()}
        self.ub = {kb[c].id for c in kb if c not in ka or kb[c].sig() != ka[c].sig()}
        self.pa, self.pb = Policy(ref, self.ua), Policy(cur, self.ub)
        self.pua, self.pub = Purity(ref), Purity(cur)
        known = {f.cid for f in ref.fns.values()} | {canon(i) for i in ref.by_item}
        self.pure = self.pua.pure | (self.pub.pure - known)
        self.io = self.pua.ioc | self.pub.ioc
        self.retried = 0
        self.sa, self.sb = Span(ref), Span(cur)
        self.loosened = []

    def functions(self):
        for c, fa in sorted(self.ka.items()):
            if fa.id in self.ua or c not in self.kb or "#prom" in c:
                continue  # a promoted constant is read where it is used
            yield c, fa, self.kb[c]

    def look(self, fa, fb, pa, pb):
        A, C = facts_for(self.ref, fa, pa), facts_for(self.cur, fb, pb)
        self.looks.append((A, C))
        return A, C, compare(short(fa.cid), A, C, fb.loc(), self.pure, self.io)

    def judge(self, fa, fb):
        """(reference facts, diffs)"""
        self.looks = []
        A, D = self._judge(fa, fb)
        self.lastloose = []
        if D:
            for a, c in self.looks:
                if rewritten(shape(a.nf), shape(c.nf), D):
                    D2 = loosely(short(fa.cid), Loose(a), Loose(c), fb.loc(), self.pure, self.io)
                    self.lastloose.append(D2)
                    if not D2:
                        self.loosened.append(short(fa.cid))
                        return A, []
            self.gap = self.distance(fa, fb)
            if self.gap >= ANEW:
                D = [d for d in D if not wording(d) and not (d.kind in ("write-lost", "effect-lost") and self.carried(d.key.split("|")[-1], [c for _, c in self.looks]))]
        return A, D

    def carried(self, what, cs):
        """is this write or call made by a function that the current version calls?"""
        todo = set().union(*(self._names(c) for c in cs))
        seen = set()
        for _ in range(3):
            seen |= todo
            nxt = set()
            for cid in todo:
                for i in self.cur.bycid.get(cid, ()):
                    f = self.cur.fns[i]
                    if f.kind not in ("Fn", "AssocFn"):
                        continue
                    F = facts_for(self.cur, f, self.pb)
                    if any(w["field"] == what for w in F.writes) or any(e["callee"] == what for e in F.effects):
                        return True
                    nxt |= self._names(F)
            todo = nxt - seen
        return False

    def distance(self, fa, fb):
        """statements replaced by others; where code moved into or out of a helper, also those that moved"""
        moved = any(set(a.nf.inlined) & self.ua or set(c.nf.inlined) & self.ub for a, c in self.looks[:1])
        n = gap(self.sa.body(fa), self.sb.body(fb), moved)
        for a, c in self.looks[:1]:
            n = max(n, gap(self.sa.whole(fa, a.nf.inlined), self.sb.whole(fb, c.nf.inlined), moved))
        return n

    def _judge(self, fa, fb):
        A, C, D = self.look(fa, fb, self.pa, self.pb)
        if not D:
            return A, D
        # a callee that is an expression in one tree and a loop in the other is judged on its own
        na, nc = self._names(A) | {self.ref.fns[i].cid for i in A.nf.inlined}, self._names(C) | {self.cur.fns[i].cid for i in C.nf.inlined}
        ops = {c for c in (self._names(A) & {self.cur.fns[i].cid for i in C.nf.inlined}) | (self._names(C) & {self.ref.fns[i].cid for i in A.nf.inlined}) if c in self.ka and c in self.kb}
        if ops:
            self.retried += 1
            _, _, D1 = self.look(fa, fb, Policy(self.ref, self.ua, ops), Policy(self.cur, self.ub, ops))
            if not D1:
                return A, D1
        # code moved between this function and one it calls: look again with those bodies in place
        xa, xb = set(self.ua), set(self.ub)
        tried = set()
        for _ in range(3):
            na, nc = self._names(A), self._names(C)
            d = {x for x in na ^ nc if x not in tried}
            if not d:
                break
            tried |= d
            grew = False
            for cid in d:
                for P, x, keys in ((self.ref, xa, self.ka), (self.cur, xb, self.kb)):
                    for i in P.bycid.get(cid, ()):
                        if P.fns[i].kind in ("Fn", "AssocFn") and i not in x:
                            x.add(i)
                            grew = True
            if not grew:
                break
            self.retried += 1
            A2, C2, D2 = self.look(fa, fb, Policy(self.ref, xa), Policy(self.cur, xb))
            if not D2:
                return A, []
            if len(D2) > 40:
                break
            A, C = A2, C2
        return A, D

    @staticmethod
    def _names(F):
        s = {e["full"] for e in F.effects if not e["std"] and "full" in e}
        return s
