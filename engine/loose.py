"""A coarser abstraction for functions whose loops were rewritten.

An index loop, an iterator chain and a while loop with a counter name their elements differently and test different
bounds; when the two versions of a function do not iterate in the same manner, positions, counters and bounds are
dropped from the facts on both sides and everything else must still agree."""
import re
from collections import Counter, defaultdict
from ax import canon, callee_key
from bdd import B as BD
from norm import is_std, lastseg
from compare import split_leaves, ls, _setre

DROP = re.compile(r"^-?(T:\d+|IV|\[i\]|I:.*|L|K:0|K:1|O:Add|O:Sub|O:min|O:max|closure|fn|range|C:get|C:last|C:split_at\w*|C:take|C:skip|C:remove|C:zip|C:position|C:pop\w*|C:drain|M:\w+|F:boxed::Box\.0)$")
ITERCLO = set("any all map filter filter_map flat_map find find_map position rposition for_each fold try_fold try_for_each take_while skip_while map_while inspect retain from_fn scan reduce max_by max_by_key min_by min_by_key sum partition".split())
ADAPT = set("take skip split_at split_first split_last zip enumerate windows chunks chunks_exact peekable step_by".split())


def early(nf):
    """(loops over an iterator, those of them that may be left before its end without failing)"""
    if hasattr(nf, "_early"):
        return nf._early
    heads = defaultdict(set)
    state = {nf.entry: 1}
    st = [(nf.entry, iter(nf.S[nf.entry]))]
    while st:
        x, it = st[-1]
        for y in it:
            if y not in state:
                state[y] = 1
                st.append((y, iter(nf.S[y])))
                break
            if state[y] == 1:
                heads[y].add(x)
        else:
            state[x] = 2
            st.pop()
    preds = defaultdict(set)
    for i in nf.reach:
        for y in nf.S[i]:
            preds[y].add(i)
    n = e = 0
    for h, tails in heads.items():
        body, todo = {h}, list(tails)
        while todo:
            x = todo.pop()
            if x not in body:
                body.add(x)
                todo += preds[x]
        # the exhausted iterator: straight from the header through `next` to the first branch
        x = h
        ends = None
        for _ in range(40):
            t = nf.B[x][1]
            tt = t[1] if t[0] == "rej" else t
            if tt[0] == "call" and tt[1].get("fn") and lastseg(canon(tt[1]["fn"]["p"])) in ("next", "next_back") and is_std(canon(tt[1]["fn"]["p"])):
                ends = x
            if ends is not None and len(nf.S[x]) > 1:
                break
            if len(nf.S[x]) != 1:
                ends = None
                break
            x = next(iter(nf.S[x]))
        if ends is None:
            continue
        n += 1
        if any(y not in body and y in nf.okset for z in body if z != x for y in nf.S[z]):
            e += 1
    nf._early = (n, e)
    return nf._early


def cyclic(nf):
    """blocks that may be reached again from themselves"""
    if hasattr(nf, "_cyclic"):
        return nf._cyclic
    idx, low, on, stack, out, n = {}, {}, set(), [], set(), 0
    for r in nf.reach:
        if r in idx:
            continue
        work = [(r, iter(nf.S[r]))]
        idx[r] = low[r] = n = n + 1
        stack.append(r)
        on.add(r)
        while work:
            x, it = work[-1]
            for y in it:
                if y not in idx:
                    idx[y] = low[y] = n = n + 1
                    stack.append(y)
                    on.add(y)
                    work.append((y, iter(nf.S[y])))
                    break
                if y in on:
                    low[x] = min(low[x], idx[y])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[x])
                if low[x] == idx[x]:
                    comp = []
                    while True:
                        y = stack.pop()
                        on.discard(y)
                        comp.append(y)
                        if y == x:
                            break
                    if len(comp) > 1 or x in nf.S[x]:
                        out |= set(comp)
    nf._cyclic = out
    return out


def shape(nf):
    """how a normal form iterates"""
    if hasattr(nf, "_shape"):
        return nf._shape
    c = Counter()
    state = {nf.entry: 1}
    st = [(nf.entry, iter(nf.S[nf.entry]))]
    heads = set()
    while st:
        x, it = st[-1]
        for y in it:
            if y not in state:
                state[y] = 1
                st.append((y, iter(nf.S[y])))
                break
            if state[y] == 1:
                heads.add(y)
        else:
            state[x] = 2
            st.pop()
    nx = 0
    for i in nf.reach:
        t = nf.B[i][1]
        if t[0] == "nd":
            recv = t[3]
            ty = nf._ty_of(recv[1]).lstrip("&").replace("mut ", "") if recv is not None and recv[0] in ("c", "m") else ""
            if t[2] in ITERCLO and not ty.startswith(("std::option::Option", "std::result::Result")):
                c["closure"] += 1
        tt = t[1] if t[0] == "rej" else t
        if tt[0] != "call" or not tt[1].get("fn"):
            continue
        p = canon(tt[1]["fn"]["p"])
        if not is_std(p):
            continue
        seg = lastseg(p)
        if seg in ("next", "next_back") and "terator" in p:
            nx += 1
            ty = ""
            a = tt[2][0] if tt[2] else None
            if a is not None and a[0] in ("c", "m"):
                ty = nf.locals[nf.resolve_place([a[1][0], a[1][1] + ["*"]])[0]]
            c["range" if "ops::Range" in ty else "iter"] += 1
        elif seg in ADAPT:
            c[seg] += 1
    c["while"] = len(heads) - nx
    nf._shape = c
    return c


def lset(s):
    return frozenset(x for x in s if not DROP.match(x))


_at = {}


def latom(a):
    r = _at.get(a, 0)
    if r == 0:
        r = _at[a] = _latom(a)
    return r


def _latom(a):
    sets = _setre.findall(a)
    raw = [split_leaves(x) for x in sets]
    if a.startswith(("Lt ", "Eq ", "Le ")):
        if any("IV" in x or "L" in x or "range" in x for x in raw) or len(raw) == 2 and set(raw[0]) == set(raw[1]):
            return None
        if all(not lset(x) for x in raw):
            return None
        if a.startswith("Lt ") and any(not lset(x) for x in raw):
            return None
        if a.startswith("Eq ") and any(x == ["K:0"] for x in raw) and any(y.lstrip("-") in ("O:Sub", "O:Div", "O:Rem", "O:Mul") for x in raw for y in x):
            return None
    if a.startswith("is ") and re.search(r"\bC:(get|pop|pop_front|pop_back|next|next_back|peek|first|last|find|position|split_first|split_last)\b", a):
        return None
    if a.startswith(("b is_empty", "b closure", "b {B}", "b any", "b all")):
        return None
    return _setre.sub(lambda m: ls(lset(split_leaves(m.group(1)))), a)


_memo = {}


def lrc(f):
    return BD.rename(f, latom, _memo)


def lval(s):
    o = set()
    for x in s:
        if x.startswith("b#") and x[2:].isdigit():
            f = lrc(int(x[2:]))
            x = "K:true" if f == 1 else "K:false" if f == 0 else f"b#{f}"
        o.add(x)
    return lset(o)


class _Cond:
    def __init__(self, c):
        self.c = c
        self.exits = {}

    def truth(self):
        return lrc(self.c.truth())


class Loose:
    def __init__(self, F):
        self.nf = F.nf
        self.cond = _Cond(F.cond)
        self.effects, self.writes = [], []
        for e in F.effects:
            e = dict(e, args=[lval(a) for a in e["args"]], rc=lrc(e["rc"]))
            if e["std"] and lastseg(e["callee"]) in ("pop", "pop_front", "pop_back", "drain", "clear") and e["args"]:
                e["callee"] = "Vec::consume"
                e["args"] = [frozenset(x for x in e["args"][0] if x.startswith("F:"))]
            self.effects.append(e)
        for w in F.writes:
            w = dict(w, val=lval(w["val"]), rc=lrc(w["rc"]))
            if w.get("taken"):
                self.effects.append(dict(callee="Vec::consume", std=True, full="std::vec::Vec::consume", args=[frozenset({"F:" + w["field"]})], rc=w["rc"], line=w["line"], blk=w["blk"], fn=w["fn"]))
            else:
                self.writes.append(w)
        self.cons = [dict(w, fields={k: lval(v) for k, v in w["fields"].items()}, rc=lrc(w["rc"])) for w in F.cons]
        self.rejects = [dict(r, rc=lrc(r["rc"])) for r in F.rejects]
        self.returns = [dict(r, val=lval(r["val"]), rc=lrc(r["rc"])) for r in F.returns]
        self.cbrets = [dict(r, val=lval(r["val"]), rc=lrc(r["rc"])) for r in F.cbrets]
        self.atoms = {b for b in (latom(a) for a in F.atoms) if b is not None}
        self.phis = []
