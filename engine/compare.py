"""Contract comparison: do the semantic facts confirmed on the reference tree still hold?"""
import re
from collections import defaultdict
from ax import canon, short, callee_key
from bdd import B as BD

LOOPSOME = re.compile(r"^is (?:Some|Ok) \{.*C:(pop|pop_front|pop_back|next|next_back|drain|take|iter|peek|\w+::iter_\w+)\b")
OPTIS = re.compile(r"^is (?:Some|Ok|None|Err) ")


def cl(s):
    """canonical leaf set for comparison: how a value is iterated or handed over is not what it is"""
    o = set()
    for x in s:
        y = x[1:] if x.startswith("-") else x
        if y in ("closure",) or y.startswith("FN:"):
            o.add("fn")
            continue
        if y in ("B", "K:true", "K:false", "range") or y == "K:1" and "IV" in s:
            continue
        if y.startswith("M:") or y in ("V:None", "F:boxed::Box.0"):
            continue
        o.add(x)
    if not o:
        o = {x for x in s if x != "range" and not x.startswith("M:")}
        if "B" in o or "K:true" in o and "K:false" in o:
            o = {"B"}
    return frozenset(o)


_setre = re.compile(r"\{([^{}]*)\}")
_cla = {}


def cla(a):
    """the same for the leaf sets inside an atom"""
    r = _cla.get(a)
    if r is None:
        r = _cla[a] = _setre.sub(lambda m: ls(cl(split_leaves(m.group(1)))), a)
    return r


def split_leaves(t):
    # leaves may contain blanks only inside string constants
    out, cur, q = [], "", False
    for ch in t:
        if ch == '"':
            q = not q
        if ch == " " and not q:
            if cur:
                out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur:
        out.append(cur)
    return out


from norm import NF, is_std, lastseg  # noqa: E402
from extract import Facts, Policy, ls, fmtc  # noqa: E402
import cond as _cond  # noqa: E402

# std effects that are never local bookkeeping
IOSTD = set("write_all sync_all sync_data set_len seek read_exact flush fetch_add fetch_sub store swap compare_exchange send recv join spawn notify_all notify_one wait remove_file catch_unwind set_read_timeout shutdown forget hash".split())
COLSTD = set("insert remove clear truncate retain append push_front take replace swap_remove sort sort_by sort_unstable sort_by_key dedup reverse fill copy_from_slice copy_within split_off consume pop pop_front pop_back drain".split())


def armed_effect(e):
    if e["callee"].startswith("local "):
        return False
    if not e["std"]:
        return e["callee"] != "indirect"
    seg = lastseg(e["callee"])
    if seg in IOSTD:
        return True
    if seg in COLSTD:
        return bool(e["args"]) and any(x.startswith(("F:", "P")) for x in e["args"][0])
    return False


LOOSE = False


def same(f, g):
    if not LOOSE:
        return _cond.same(f, g)
    # loops were rewritten: only a test that now counts the other way round is a difference
    a, b = BD.polar(f), BD.polar(g)
    for x in a:
        n = ("-" if x[0] == "+" else "+") + x[1:]
        if n in b and x not in b and n not in a:
            return False
    return True


def either(F):
    """answers with `None` and answers with an option that is empty are the same answer"""
    rs = F.returns
    if not any(r["val"] == {"V:None"} for r in rs) or not F.nf.locals[0].startswith(("std::option::Option", "std::result::Result<std::option::Option")):
        return rs
    out = list(rs)
    none = [r for r in rs if r["val"] == {"V:None"}]
    for r in rs:
        v = r["val"]
        if not v or any(x.startswith(("V:", "b#")) for x in v):
            continue
        f = BD.var("is Some {" + " ".join(sorted(cl(v))) + "}")
        # empty whenever this is what is answered: say so; answered `None` while this is empty: the same
        g = BD.AND(r["rc"], BD.NOT(f))
        if g not in (0, r["rc"]):
            out.append(dict(none[0], rc=g))
        for n in none:
            h = BD.AND(n["rc"], BD.NOT(f))
            if h == n["rc"]:
                out.append(dict(r, rc=h))
    return out


def loosely(*a):
    global LOOSE
    LOOSE = True
    try:
        return compare(*a)
    finally:
        LOOSE = False


def kept(ws, f):
    return any("F:" + f in w["val"] for w in ws)


def fresh(ws, f):
    return frozenset().union(*[cl(w["val"]) for w in ws]) - {"F:" + f, "P1", "V:None"}


FATE = dict(ret="reported to the caller", tested="handled on the spot", panic="fatal", ignored="ignored")


class Diff:
    def __init__(self, kind, fn, msg, line, key):
        self.kind, self.fn, self.msg, self.line, self.key = kind, fn, msg, line, key

    def __repr__(self):
        return f"{self.kind}: {self.msg}"


def weak(kind, key, text):
    """differences that rewriting a loop can bring about by itself"""
    what = key.split("|")[0]
    if kind in ("result", "test-lost", "test-gained"):
        return True
    if kind.startswith("args"):
        return text.startswith(("construction of", "result", "answer of")) or "was evaluated on" in text or what.startswith("Vec::") or what.split("::")[-1] in COLSTD
    return False


def untouched(es, C):
    """is a collection these calls changed left alone by the other version?"""
    for e in es:
        fs = {x for x in e["args"][0] if x.startswith("F:")}
        if fs and not any(fs & x["args"][0] for x in C.effects if x["args"] and (armed_effect(x) or lastseg(x["callee"]) in Facts.HANDOUT and lastseg(x["callee"]) not in LOCKS)) and not any("F:" + w["field"] in fs or any("@" + y in w["val"] for y in fs) for w in C.writes):
            return True
    return False


LOCKS = set("write lock write_arc lock_arc borrow_mut next next_back".split())


def OR(fs):
    r = 0
    for f in fs:
        r = BD.OR(r, f)
    return r


def group(items, keyf):
    g = defaultdict(list)
    for x in items:
        g[keyf(x)].append(x)
    return g


def show(k):
    return ", ".join(ls(x) for x in k)


def sites(bs, cs, keyf, why, same=same):
    """compare two site lists of one kind; yields (kind, text, line).  keyf -> tuple of leaf sets"""
    bg, cg = group(bs, keyf), group(cs, keyf)
    lost = [k for k in bg if k not in cg]
    gained = [k for k in cg if k not in bg]
    if lost or gained:
        nb, nc = len(bs), len(cs)
        if nb != nc:
            # sites merged or split: what reaches each position, and when, must still agree
            if positions(bg) == positions(cg) and same(OR(x["rc"] for x in bs), OR(x["rc"] for x in cs)):
                # each value that reaches a position does so when it did
                for i in range(max(map(len, bg), default=0)):
                    pb, pc = group([(k[i], x) for k in bg if len(k) > i for x in bg[k]], lambda y: y[0]), group([(k[i], x) for k in cg if len(k) > i for x in cg[k]], lambda y: y[0])
                    if len(pb) > 1 and set(pb) == set(pc):
                        for v in pb:
                            f, g = OR(x["rc"] for _, x in pb[v]), OR(x["rc"] for _, x in pc[v])
                            if not same(f, g):
                                yield "guard", f"{why} with {ls(v)}: happens under other conditions than before: {gdiff(f, g)}", pc[v][0][1]["line"]
                return
        # the sites that agree cancel out
        lb, lc = [x for k in lost for x in bg[k]], [x for k in gained for x in cg[k]]
        if lost and gained:
            yield "args", f"{why} no longer with ({' / '.join(show(k) for k in lost)}); now ({' / '.join(show(k) for k in gained)})", lc[0]["line"]
        elif lost:
            rest = OR(x["rc"] for x in cs)
            yield "args-", f"{why} no longer with ({' / '.join(show(k) for k in lost)})", cs[0]["line"]
        else:
            yield "args+", f"{why} additionally with ({' / '.join(show(k) for k in gained)})", lc[0]["line"]
    bad = []
    for k in bg:
        if k in cg:
            f, g = OR(x["rc"] for x in bg[k]), OR(x["rc"] for x in cg[k])
            if not same(f, g):
                bad.append((k, f, g, cg[k][0]["line"]))
    for k, f, g, line in bad:
        yield "guard", f"{why}: happens under other conditions than before: {gdiff(f, g)}", line


def positions(g):
    out = defaultdict(set)
    for k in g:
        for i, s in enumerate(k):
            out[i] |= s - {"V:None"}
    return dict(out)


def gdiff(f, g):
    a, b = BD.AND(f, BD.NOT(g)), BD.AND(g, BD.NOT(f))
    t = []
    if a:
        t.append("no longer when [" + " & ".join(BD.cube(a)) + "]")
    if b:
        t.append("now also when [" + " & ".join(BD.cube(b)) + "]")
    return "; ".join(t)


class Ctx:
    """what is known about the callees of both trees"""

    def __init__(self, pure=frozenset(), keepres=frozenset()):
        self.pure = pure  # canonical ids of functions without effects


def ekey(e):
    return tuple(cl(a) for a in e["args"])


def compare(name, B, C, loc, pure=frozenset(), io=frozenset()):
    """B, C: Facts (reference, current). returns list of Diff"""
    out = []

    def add(kind, msg, line, key):
        if LOOSE and weak(kind, key, msg):
            return
        out.append(Diff(kind, name, msg, line, f"{name}|{kind}|{key}"))

    # where the call is refused anyway, nothing else is decided
    fail = BD.OR(OR(r["rc"] for r in B.rejects if r["rc"] != 1), OR(r["rc"] for r in C.rejects if r["rc"] != 1))
    care = BD.NOT(fail)

    def same2(f, g):
        return same(f, g) or fail > 1 and not LOOSE and _cond.same(BD.AND(f, care), BD.AND(g, care))

    def after(F, xs):
        # refusals that these sites do not lead up to
        rs = [r for r in F.rejects if r["rc"] != 1]
        if not rs:
            return 0
        reach = acyclic(F.nf)
        return OR(r["rc"] for r in rs if "blk" not in r or not any(reach.get(x["blk"], 0) >> r["blk"] & 1 and BD.AND(x["rc"], r["rc"]) for x in xs))

    def seq(bs, cs):
        cache = []

        def f3(f, g):
            if same(f, g):
                return True
            if fail in (0, 1) or LOOSE:
                return False
            if not cache:
                cache.append(BD.NOT(BD.AND(after(B, bs), after(C, cs))))
            return _cond.same(BD.AND(f, cache[0]), BD.AND(g, cache[0]))

        return f3

    def run(bs, cs, keyf, why, key, same=same2):
        for kind, text, line in sites(bs, cs, keyf, why, same):
            add(kind, text, line, f"{key}|{text[-160:]}")

    # ---- effects
    be = group([e for e in B.effects if armed_effect(e)], lambda e: e["callee"])
    ce = group([e for e in C.effects if armed_effect(e)], lambda e: e["callee"])
    for callee, es in be.items():
        cs = ce.get(callee)
        p = es[0].get("full") in pure and not all(unitfail(B.nf, e) for e in es)
        if not cs:
            if not p:
                if LOOSE and lastseg(callee) in COLSTD and not untouched(es, C):
                    continue
                add("effect-lost", f"no longer performs `{callee}` (reference: {len(es)} site(s), under {fmtc(es[0]['rc'])})", 0, callee)
            continue
        fb, fc = {e.get("fate") for e in es} - {None, "passed"}, {e.get("fate") for e in cs} - {None, "passed"}
        for x in fc - fb:
            if fb and not (x == "tested" and len(B.rejects) < len(C.rejects)):
                add("failure", f"a failure of `{callee}` used to be {'/'.join(FATE[y] for y in sorted(fb))}; now it is {FATE[x]}", next(e["line"] for e in cs if e.get("fate") == x), callee)
        if p:
            bk, ck = {ekey(e) for e in es}, {ekey(e) for e in cs}
            if bk != ck and positions(bk) != positions(ck):
                add("args", f"`{callee}` was evaluated on ({' / '.join(show(k) for k in bk - ck)}); now ({' / '.join(show(k) for k in ck - bk)})", cs[0]["line"], callee)
            elif bk != ck and len(es) == len(cs) and len(bk) == len(ck):
                add("args", f"`{callee}` was evaluated on ({' / '.join(show(k) for k in bk - ck)}); now ({' / '.join(show(k) for k in ck - bk)})", cs[0]["line"], callee)
            continue
        run(es, cs, ekey, f"`{callee}`", callee, seq(es, cs))
    for callee, cs in ce.items():
        if callee not in be and not cs[0]["std"] and cs[0].get("full") not in pure:
            add("effect-gained", f"now also performs `{callee}` under {fmtc(cs[0]['rc'])}", cs[0]["line"], callee)
    # ---- smaller and larger
    mm = lambda F: {(lastseg(e["callee"]), frozenset(cl(a) for a in e["args"])) for e in F.effects if e["std"] and lastseg(e["callee"]) in ("min", "max") and len(e["args"]) == 2}
    bm, cm = mm(B), mm(C)
    for s, k in sorted(bm - cm, key=str):
        o = "max" if s == "min" else "min"
        if (o, k) in cm - bm:
            add("flip", f"used to take the {s} of {show(sorted(k, key=sorted))}; now the {o}", 0, f"{s}|{show(sorted(k, key=sorted))}")
    # ---- writes
    bw = group(B.writes, lambda w: w["field"])
    cw = group(C.writes, lambda w: w["field"])
    wk = lambda w: (cl(w["val"]),)
    for f, ws in bw.items():
        cs = cw.get(f)
        if not cs:
            add("write-lost", f"no longer writes `{f}`", 0, f)
            continue
        if kept(ws, f) != kept(cs, f) and fresh(ws, f) == fresh(cs, f):
            continue  # writing back what is there is not writing
        run(ws, cs, wk, f"write of `{f}`", f, seq(ws, cs))
    for f, cs in cw.items():
        if f not in bw and f != "[]":
            add("write-gained", f"now also writes `{f}` := {ls(cs[0]['val'])} under {fmtc(cs[0]['rc'])}", cs[0]["line"], f)
    # ---- constructions
    bk = group(B.cons, lambda c: f"{c['adt']}::{c['variant']}")
    ck = group(C.cons, lambda c: f"{c['adt']}::{c['variant']}")
    for k, bs in bk.items():
        cs = ck.get(k)
        if not cs:
            add("construct-lost", f"no longer builds `{k}`", 0, k)
            continue
        run(bs, cs, lambda c: tuple(cl(c["fields"][n]) for n in sorted(c["fields"])), f"construction of `{k}`", k)
    # ---- answers of callbacks
    bb, cb = group(B.cbrets, lambda r: r["callee"]), group(C.cbrets, lambda r: r["callee"])
    for k, bs in bb.items():
        if k in cb:
            run(bs, cb[k], wk, f"answer of the callback given to `{k}`", "cb " + k)
    # ---- rejects
    rk = lambda r: ls(cl(r["err"]))
    br, cr = group(B.rejects, rk), group(C.rejects, rk)
    built, known = set(bk) & set(ck), set(bk) | set(ck)

    # an error value swapped in for another one is the same fact as its construction
    def swapped(xs):
        vs = [{y[2:] for y in x["err"] if y.startswith("V:")} & known for x in xs]
        return all(v and v <= built for v in vs)

    for k, bs in br.items():
        cs = cr.get(k)
        if not cs and swapped(bs):
            continue
        if not cs:
            add("reject-lost", f"no longer rejects with {k}", 0, k)
            continue
        f, g = OR(x["rc"] for x in bs), OR(x["rc"] for x in cs)
        if not same(f, g):
            # which of several refusals comes first does not matter
            oth = OR(x["rc"] for kk in br for x in br[kk] if kk != k)
            oth = BD.OR(oth, OR(x["rc"] for kk in cr for x in cr[kk] if kk != k))
            if not same(BD.AND(f, BD.NOT(oth)), BD.AND(g, BD.NOT(oth))):
                add("guard", f"rejection {k}: other conditions than before: {gdiff(f, g)}", cs[0]["line"], "reject " + k)
    for k, cs in cr.items():
        if k not in br and not swapped(cs):
            add("reject-gained", f"new rejection {k} under {fmtc(cs[0]['rc'])}", cs[0]["line"], k)
    # ---- results
    if B.nf.locals[0] == "bool" and C.nf.locals[0] == "bool":
        f, g = B.cond.truth(), C.cond.truth()
        if not same(f, g):
            add("predicate", f"the answer changed: {gdiff(f, g)}", 0, "bool")
    else:
        bv = set().union(*[cl(r["val"]) for r in B.returns]) if B.returns else set()
        cv = set().union(*[cl(r["val"]) for r in C.returns]) if C.returns else set()
        bv, cv = bv - {"V:None"}, cv - {"V:None"}
        if bv != cv:
            add("result", f"the result no longer depends on {ls(bv - cv)}; now also on {ls(cv - bv)}", 0, "ret")
        else:
            run(either(B), either(C), wk, "result", "ret")
    # ---- atoms
    ba, ca = {cla(a) for a in B.atoms}, {cla(a) for a in C.atoms}
    pa, pc = {isplace(a) for a in ba}, {isplace(a) for a in ca}
    for a in sorted(ba - ca):
        if OPTIS.match(a) or isplace(a) in pc:
            continue
        add("test-lost", f"the test `{a}` is gone", 0, a)
    for a in sorted(ca - ba):
        if OPTIS.match(a) or isplace(a) in pa:
            continue
        add("test-gained", f"new test `{a}`", 0, a)
    # ---- choices between values, and what leaves a loop: never the other way round
    bp, cp = signs(B.phis), signs(C.phis)
    for k, sg in bp.items():
        o = cp.get(k)
        if o and len(sg) == 1 and len(o) == 1 and sg != o:
            add("flip", f"{ls(k[0])} used to be chosen when {next(iter(sg))}[{k[1]}]; now when {next(iter(o))}", 0, f"{ls(k[0])}|{k[1]}")
    for a, sg in B.cond.exits.items():
        o = C.cond.exits.get(a)
        if o and len(sg) == 1 and len(o) == 1 and sg != o and not LOOPSOME.match(a):
            add("flip", f"the loop used to end on {next(iter(sg))}[{a}]; now on {next(iter(o))}", 0, f"exit|{a}")
    # ---- again and again, or once
    from loose import cyclic, shape

    for callee, es in be.items():
        cs = ce.get(callee)
        if cs and not any(e["std"] for e in es) and not recursive(C.nf):
            x, y = {e["blk"] in cyclic(B.nf) for e in es}, {e["blk"] in cyclic(C.nf) for e in cs}
            if True in x and True not in y and not (LOOSE and shape(C.nf)["closure"]):
                add("once", f"`{callee}` used to be repeated; now it happens once", cs[0]["line"], callee)
            elif True in y and True not in x and not LOOSE:
                add("repeat", f"`{callee}` used to happen once; now it is repeated", cs[0]["line"], callee)
    if not LOOSE:
        import arith as _arith
        import order as _order
        import stale as _stale
        from loose import shape, early

        ss = shape(B.nf) == shape(C.nf)
        if ss:
            (n, x), (m, y) = early(B.nf), early(C.nf)
            if n == m and x != y:
                add("early", f"{x} of {n} loops could be left before their end without failing; now {y}", 0, "loops")
            # ---- what goes into collections built here
            if builders(B.nf) == builders(C.nf):
                loc = lambda F: group([e for e in F.effects if e["callee"].startswith("local ") and len(e["args"]) > 1], lambda e: (e["callee"], e.get("of", "")))
                bl, cl_ = loc(B), loc(C)
                if set(bl) != set(cl_):
                    bl, cl_ = ({(k, ""): sum((v for (kk, _), v in g.items() if kk == k), []) for k in sorted({kk for kk, _ in g})} for g in (bl, cl_))
                for (callee, ty), es in bl.items():
                    cs = cl_.get((callee, ty))
                    if not cs:
                        if sum(map(len, bl.values())) > sum(map(len, cl_.values())):
                            add("effect-lost", f"no longer performs `{callee}` (reference: {len(es)} site(s), under {fmtc(es[0]['rc'])})", 0, callee)
                        continue
                    run(es, cs, lambda e: tuple(cl(a) for a in e["args"][1:]), f"`{callee}`", callee, seq(es, cs))
            # ---- how often it happens on one way through
            for callee, es in be.items():
                cs = ce.get(callee)
                if cs and es[0]["std"] and len(es) > 1 and lastseg(callee) in COLSTD:
                    bg, cg = group(es, lambda e: cl(e["args"][0])), group(cs, lambda e: cl(e["args"][0]))
                    for k in bg:
                        if len(bg[k]) > 1 and len(cg.get(k, ())) > 0:
                            f, g = common(times(B, bg[k]), times(C, cg[k]))
                            for n in sorted(set(f) | set(g)):
                                if n > 1 and not same2(f.get(n, 0), g.get(n, 0)):
                                    add("count", f"`{callee}` on {ls(k)} happens {n} times on one way through under other conditions than before: {gdiff(f.get(n, 0), g.get(n, 0))}", cs[0]["line"], f"{callee}|{ls(k)}")
                                    break
                if cs and not es[0]["std"] and es[0].get("full") not in pure:
                    n, m = longest(B.nf, {e["blk"] for e in es if forgotten(B, e)}), longest(C.nf, {e["blk"] for e in cs if forgotten(C, e)})
                    if n != m and n and m:
                        add("count", f"`{callee}` used to happen up to {n} times on one way through, now {m}", cs[0]["line"], callee)
                    elif len(es) > 1 and len(cs) > 1 and all(forgotten(B, e) for e in es) and all(forgotten(C, e) for e in cs):
                        f, g = common(times(B, es), times(C, cs))
                        for k in sorted(set(f) | set(g)):
                            if k > 1 and not same2(f.get(k, 0), g.get(k, 0)):
                                add("count", f"`{callee}` happens {k} times on one way through under other conditions than before: {gdiff(f.get(k, 0), g.get(k, 0))}", cs[0]["line"], callee)
                                break
            # ---- choices between values
            bq, cq = group(B.phis, lambda x: cl(x[0])), group(C.phis, lambda x: cl(x[0]))
            if set(bq) == set(cq) and {k: len(v) for k, v in bq.items()} == {k: len(v) for k, v in cq.items()}:
                for k in bq:
                    f, g = OR(x[1] for x in bq[k]), OR(x[1] for x in cq[k])
                    if k - {"V:None"} and not same2(f, g):
                        add("choice", f"{ls(k)} is chosen under other conditions than before: {gdiff(f, g)}", 0, ls(k))
        # ---- arithmetic
        if ss:
            for x, y, line, k in _arith.compare_arith(B, C):
                add("arith", f"{'a test on ' if k[0] else ''}`{x[:200]}` used to be computed; now `{y[:200]}`", line, f"{x[:120]}")
        # ---- order of effects
        for x, y in _order.compare_order(B, C, pure, io, ss):
            add("order", f"`{x[0]}` ({show(x[1])}) used to come before `{y[0]}` ({show(y[1])}); now it comes after", 0, f"{x[0]}<{y[0]}")
        # ---- values from before or after a change
        if not LOOSE:
            for (use, f), a, b in _stale.compare_stale(B, C, pure, io):
                w = {"pre": "before", "post": "after"}
                add("stale", f"`{use[0] if use[0] != 'test' else 'test on ' + ls(use[1])}` used to go by `{f}` as it was {w[a]} this function changes it; now as it is {w[b]}", 0, f"{use[0]}|{f}")
        # ---- the thing itself or its changed copy
        import touched as _touched
        for (callee, k), lost, got in _touched.compare_touched(B, C):
            add("touched", f"argument {k} of `{callee}` used to have gone through {sorted(lost) or 'less'} by then" + (f"; now through {sorted(got)}" if got else ""), 0, f"{callee}|{k}")
        # ---- checked and changed under one lock
        import atomic as _atomic
        for cls, (x, y) in _atomic.compare_atomic(B, C):
            add("atomic", f"`{x.lstrip('?=')}` and then `{y.lstrip('?=')}` used to happen under one acquisition of the lock on {cls}; now the lock is released between them", 0, f"{cls}|{x}|{y}")
    return out


def recursive(nf):
    me = nf.root.cid
    for i in nf.reach:
        t = nf.B[i][1]
        t = t[1] if t[0] == "rej" else t
        if t[0] == "call" and t[1].get("fn") and canon(callee_key(t[1]["fn"])) == me:
            return True
    return False


def unitfail(nf, e):
    """a check: all it does is fail, and the failure is reported"""
    return e.get("fate") == "ret" and "dest" in e and nf.locals[e["dest"][0]].startswith("std::result::Result<(), ")


def forgotten(F, e):
    """the call is made for what it does, not for its result"""
    if "dest" not in e or e["dest"][1]:
        return False
    if not hasattr(F, "_U"):
        F._U = F._uses()
    return not F._U.get(e["dest"][0]) or e.get("fate") == "ret" and unitfail(F.nf, e)


BUILD = set("collect to_vec into_vec from_iter concat unzip partition from from_elem with_capacity split_off".split())


def builders(nf):
    c = defaultdict(int)
    for i in nf.reach:
        t = nf.B[i][1]
        t = t[1] if t[0] == "rej" else t
        if t[0] == "call" and t[1].get("fn"):
            p = canon(t[1]["fn"]["p"])
            if is_std(p) and lastseg(p) in BUILD:
                c[lastseg(p)] += 1
    return dict(c)


def times(F, es):
    h = defaultdict(int)
    for e in es:
        h[e["blk"]] += 1
    return F.cond.times(h)


def common(f, g):
    """counts under conditions both sides speak about, where each has tests of its own"""
    a = frozenset().union(*[BD.support(x) for x in f.values()])
    b = frozenset().union(*[BD.support(x) for x in g.values()])
    if not (a - b and b - a):
        return f, g

    def over(h, vs):
        out = {}
        for k, x in h.items():
            for v in vs & BD.support(x):
                x = BD.exists(x, v)
            out[k] = x
        return out

    return over(f, a - b), over(g, b - a)


def longest(nf, blks):
    """most blocks of a set on one acyclic way through"""
    S = nf.S
    state, back, best = {}, set(), {}
    st = [(nf.entry, iter(S[nf.entry]))]
    state[nf.entry] = 1
    while st:
        x, it = st[-1]
        for y in it:
            if y not in state:
                state[y] = 1
                st.append((y, iter(S[y])))
                break
            if state[y] == 1:
                back.add((x, y))
        else:
            state[x] = 2
            best[x] = (x in blks) + max((best[y] for y in S[x] if (x, y) not in back), default=0)
            st.pop()
    return best[nf.entry]


def isplace(a):
    """what a variant test is about"""
    return a.split(" ", 2)[2] if a.startswith("is ") else a


def signs(phis):
    out = defaultdict(set)
    for s, rc in phis:
        s = cl(s)
        if not s:
            continue
        for a in BD.polar(rc):
            out[(s, a[1:])].add(a[0])
    return out


def acyclic(nf):
    """block -> bitset of blocks reachable without going round a loop"""
    if hasattr(nf, "_acyc"):
        return nf._acyc
    S = nf.S
    state, post, back = {}, [], set()
    st = [(nf.entry, iter(S[nf.entry]))]
    state[nf.entry] = 1
    while st:
        x, it = st[-1]
        for y in it:
            if y not in state:
                state[y] = 1
                st.append((y, iter(S[y])))
                break
            if state[y] == 1:
                back.add((x, y))
        else:
            state[x] = 2
            post.append(x)
            st.pop()
    r = {}
    for x in post:
        m = 0
        for y in S[x]:
            if (x, y) not in back:
                m |= r[y] | (1 << y)
        r[x] = m
    nf._acyc, nf._back = r, back
    return r


from purity import IO  # noqa: E402
