"""How much of a function was written anew.

Two versions of a function are compared statement by statement, without their variables: a defect slips in with a
handful of changed statements, a function that was rewritten differs in most of them."""
import json
from collections import Counter, defaultdict


def _tok(x):
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
            return [_tok(y) for y in x[1]]
        return [_tok(y) for y in x]
    if isinstance(x, dict):
        return {k: v for k, v in x.items() if k in ("p", "v", "r")}
    return x


def tokens(f):
    c = Counter()
    for b in f.bb:
        for s in b["s"]:
            if s[0] == "=":
                c[json.dumps([_tok(s[1]), _tok(s[2])])] += 1
        t = b["t"]
        if t[0] == "call":
            c["call " + str((t[1].get("fn") or {}).get("p"))] += 1
        elif t[0] not in ("goto", "drop", "ret"):
            c[t[0]] += 1
    return c


class Span:
    def __init__(self, prog):
        self.prog = prog
        self.clo = defaultdict(list)
        self.memo = {}
        for f in prog.fns.values():
            if "::{closure" in f.cid:
                self.clo[f.cid.split("::{closure")[0]].append(f)

    def body(self, f):
        if f.id not in self.memo:
            c = tokens(f)
            for g in self.clo.get(f.cid, ()):
                c += tokens(g)
            self.memo[f.id] = c
        return self.memo[f.id]

    def whole(self, f, inlined):
        c = Counter(self.body(f))
        for i in inlined:
            g = self.prog.fns[i]
            if g.id != f.id and "::{closure" not in g.cid:
                c += self.body(g)
        return c


def gap(a, b, moved):
    lost, new = sum((a - b).values()), sum((b - a).values())
    return lost + new if moved else 2 * min(lost, new)
