"""Events of a function on its objects, and in which order they come.

Two events may not change places when one writes what the other reads or writes (fields reached through the call
graph) and both concern the same object, or when both change state that others can see (locks, atomics, disk)."""
import re
from collections import defaultdict
from ax import canon, short
from norm import is_std, lastseg
from compare import armed_effect, IOSTD, COLSTD, cl, acyclic
import access

MUTCOL = set("push push_back push_front extend extend_from_slice insert remove clear truncate retain append pop pop_front pop_back drain sort sort_by sort_unstable sort_by_key reverse swap_remove split_off dedup fill copy_from_slice resize write_all".split())


def objs(nf, o):
    """(local, path) the operand refers to"""
    if o[0] not in ("c", "m"):
        return None
    ty = nf._ty_of(o[1])
    p = o[1]
    for _ in range(12):
        q = nf.resolve_place([p[0], p[1] + ["*"]]) if nf._ty_of(p).startswith(("&", "*")) else nf.resolve_place(p)
        if not q[1]:
            ds = [d for d in nf.D.get(q[0], []) if d[1] in ("rv", "call") and not d[3]]
            if any(d[3] for d in nf.D.get(q[0], [])):
                break
            if len(ds) == 1 and ds[0][1] == "rv" and ds[0][2][0] in ("use", "cast"):
                oo = ds[0][2][1] if ds[0][2][0] == "use" else ds[0][2][2]
                if oo[0] in ("c", "m"):
                    p = oo[1]
                    continue
            if len(ds) == 1 and ds[0][1] == "rv" and ds[0][2][0] == "ref":
                p = ds[0][2][2]
                if not nf._ty_of(p).startswith(("&", "*")):
                    q = nf.resolve_place(p)
                    break
                continue
        break
    path = tuple(f"{short(a)}.{b}" for a, b in nf._norm_proj(q[1]) if a not in ("[]", "[c]", "+", "-", "closure"))
    return (q[0], path)


def related(a, b):
    for x in a:
        for y in b:
            if x[0] == y[0]:
                n = min(len(x[1]), len(y[1]))
                if x[1][:n] == y[1][:n]:
                    return True
    return False


class Ev:
    __slots__ = ("blk", "pos", "key", "objs", "R", "W", "arg0", "local", "io", "own", "fate")


def events(F, pure, io, ref=None):
    if hasattr(F, "_events"):
        return F._events
    nf = F.nf
    A = access.of(nf.prog)
    known = access.of(ref).byc if ref else {}
    out = []
    for e in F.effects:
        if "ops" not in e:
            continue
        std, seg = e["std"], lastseg(e["callee"])
        v = Ev()
        v.local = v.io = False
        v.own, v.fate = None, e.get("fate")
        if std:
            if e["callee"].startswith("local "):
                if seg not in MUTCOL and seg != "append":
                    continue
                v.local, v.R, v.W = True, set(), {"#obj"}
            elif seg in IOSTD:
                v.R, v.W = set(), {"#shared"}
                v.io = seg in access.IOSEG and seg not in ("store", "fetch_add", "fetch_sub", "swap")
            elif armed_effect(e) and seg in COLSTD:
                o = objs(nf, e["ops"][0])
                v.local = bool(o)
                v.R, v.W = {"#shared"} if o and "Guard<" in nf.locals[o[0]] else set(), {o[1][-1]} if o and o[1] else {x[2:] for x in e["args"][0] if x.startswith("F:")}
            else:
                continue
        else:
            if not armed_effect(e):
                continue
            rw = known.get(e["full"]) or A.byc.get(e["full"])
            if rw is None:
                v.R, v.W = set(), {"#shared"}
            else:
                v.R, v.W = rw
            v.io = e["full"] in io
            if e["full"] in pure and not v.R:
                continue
        v.blk, v.pos = e["blk"], 1 << 20
        v.key = (e["callee"], tuple(cl(a) for a in e["args"]))
        os = [objs(nf, o) for o in (e["ops"][:1] if std else e["ops"])]
        v.objs = frozenset(o for o in os if o is not None)
        v.arg0 = cl(e["args"][0]) if e["args"] else frozenset()
        out.append(v)
    for w in F.writes:
        if "place" not in w:
            continue
        v = Ev()
        v.blk, v.pos = w["blk"], w["pos"]
        v.key = ("write of " + w["field"], (cl(w["val"]),))
        p = w["place"]
        v.objs = frozenset({(p[0], ())}) if p[0] > nf.argc else frozenset({(p[0], tuple(f"{short(a)}.{b}" for a, b in nf._norm_proj(p[1]) if a not in ("[]", "[c]", "+", "-", "closure")))})
        v.arg0 = frozenset()
        v.fate = None
        v.own = w["field"].rsplit(".", 1)[0] + "." if p[0] > nf.argc else None
        v.R, v.W, v.local, v.io = set(), {w["field"]}, False, False
        out.append(v)
    F._events = out
    return out


def conflict(x, y):
    if x.key[0] == y.key[0] and x.key[0].endswith(("Map::insert", "Set::insert")):
        return False
    if (x.local or y.local) and related(x.objs, y.objs):
        return True
    if x.own and related(x.objs, y.objs) and not any(f.startswith(x.own) for f in y.R | y.W) or y.own and related(x.objs, y.objs) and not any(f.startswith(y.own) for f in x.R | x.W):
        return True
    if x.io and y.io:
        return True
    if x.arg0 and x.arg0 == y.arg0 and "ret" in (x.fate, y.fate) and x.W and y.W:
        return True
    c = (x.W & y.W) | (x.W & y.R) | (x.R & y.W)
    if not c:
        return False
    if "#shared" in x.W and "#shared" in y.W or "#shared" in c and "Condvar::" in x.key[0] + y.key[0]:
        return True
    if c == {"#shared"}:
        return False
    return bool(x.arg0 and x.arg0 == y.arg0) or related(x.objs, y.objs)


def pairs(F, pure, io, want=None, ref=None):
    es = events(F, pure, io, ref)
    if len(es) < 2 or len(es) > 400:
        return {}, {}
    reach = acyclic(F.nf)
    g = defaultdict(list)
    for e in es:
        g[e.key].append(e)

    def before(p, q):
        if p.blk == q.blk:
            return p.pos < q.pos
        return reach[p.blk] >> q.blk & 1

    out = {}
    ks = list(g)
    for a in range(len(ks)):
        for b in range(a + 1, len(ks)):
            x, y = ks[a], ks[b]
            if want is not None:
                if (x, y) not in want and (y, x) not in want:
                    continue
            elif not any(conflict(p, q) for p in g[x] for q in g[y]):
                continue
            xy = any(before(p, q) for p in g[x] for q in g[y])
            yx = any(before(q, p) for p in g[x] for q in g[y])
            if xy and not yx:
                out[(x, y)] = 1
            elif yx and not xy:
                out[(y, x)] = 1
    return out, preds(F, es, want is None)


def preds(F, es, strict):
    """key -> keys of the events on a common object that can come right before"""
    nf = F.nf
    acyclic(nf)
    roots = defaultdict(list)
    for e in es:
        for o in e.objs:
            roots[o[0]].append(e)
    out = defaultdict(set)
    for r, evs in roots.items():
        if len(evs) < 2:
            continue
        per = defaultdict(list)
        for e in evs:
            per[e.blk].append(e)
        for b in per:
            per[b].sort(key=lambda e: e.pos)
        IN = defaultdict(set)
        OUT = {}
        todo = list(nf.reach)
        byk = {}
        while todo:
            b = todo.pop()
            s = set(IN[b])
            for e in per.get(b, ()):
                s = {id(e)}
                byk[id(e)] = e
            if OUT.get(b) == s:
                continue
            OUT[b] = s
            for c in nf.S[b]:
                if (b, c) in nf._back:
                    continue
                if not s <= IN[c]:
                    IN[c] |= s
                    todo.append(c)
        for b, l in per.items():
            s = IN[b]
            for e in l:
                for p in s:
                    q = byk[p]
                    if q.key != e.key and (not strict or conflict(q, e)):
                        out[e.key].add(q.key)
                s = {id(e)}
    return out


def compare_order(B, C, pure, io, same_shape):
    bo, bp = pairs(B, pure, io)
    co, cp = pairs(C, pure, io, bo, B.nf.prog)
    for x, y in bo:
        if (y, x) in co:
            yield x, y
    if not same_shape:
        return
    for y, xs in bp.items():
        for x in xs:
            if y in cp.get(x, ()) and y not in bp.get(x, ()) and (y, x) not in co:
                yield x, y
