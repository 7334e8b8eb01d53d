"""Program model: loads MIR facts, builds normal forms (inlined CFGs), provenance leaf sets, guards."""
import json, os, re, sys
from collections import defaultdict

sys.setrecursionlimit(100000)

_GEN = re.compile(r"::<")


def strip_generics(p):
    """drop every ::<...> and <...> argument list and lifetimes, but keep `<T as Trait>` heads."""
    out = []
    i = 0
    n = len(p)
    while i < n:
        c = p[i]
        if c == "<":
            # generic args (preceded by identifier or ::) vs. qualified-self head
            prev = out[-1] if out else ""
            if prev and (prev.isalnum() or prev == "_" or prev == ":"):
                # keep `::<impl X for Y>` segments (inherent/trait impls in other modules)
                if p.startswith("<impl ", i):
                    out.append(c)
                    i += 1
                    continue
                d = 0
                while i < n:
                    if p[i] == "<":
                        d += 1
                    elif p[i] == ">" and p[i - 1] != "-":
                        d -= 1
                        if d == 0:
                            break
                    i += 1
                i += 1
                # remove dangling "::"
                if len(out) >= 2 and out[-1] == ":" and out[-2] == ":":
                    if i >= n or p[i : i + 2] == "::" or not (p[i].isalnum() or p[i] == "_"):
                        out.pop()
                        out.pop()
                continue
        out.append(c)
        i += 1
    s = "".join(out)
    s = re.sub(r"'[a-z_]+ ?", "", s)
    s = s.replace("&", "").replace("mut ", "")
    return s


_canon_cache = {}


def canon(p):
    r = _canon_cache.get(p)
    if r is None:
        r = strip_generics(p)
        r = r.replace("::{closure#", "::{closure#")
        _canon_cache[p] = r
    return r


def short(p):
    """Type::name or last path segment pair, for messages."""
    m = re.match(r"^<(.+) as (.+)>::(\w+)$", p)
    if m:
        return m.group(1).split("::")[-1] + "::" + m.group(3)
    parts = p.split("::")
    return "::".join(parts[-2:])


class Fn:
    __slots__ = ("id", "cid", "d", "kind", "file", "line", "end", "argc", "locals", "vars", "bb", "crate", "parent", "self_ty", "trait", "item", "in_trait", "mac", "pub", "key")

    def __init__(self, d, crate):
        self.d = d
        self.id = d["id"]
        self.cid = canon(self.id)
        self.kind = d["kind"]
        self.file = d["file"]
        self.line = d["line"]
        self.end = d.get("end", 0)
        self.argc = d["argc"]
        self.locals = d["locals"]
        self.vars = d["vars"]
        self.bb = d["bb"]
        self.crate = crate
        self.parent = d.get("parent")
        self.self_ty = d.get("self")
        self.trait = d.get("trait")
        self.item = d.get("item")
        self.in_trait = d.get("in_trait")
        self.mac = d.get("mac", 0)
        self.pub = d.get("pub", 0)

    def sig(self):
        return tuple(self.locals[: self.argc + 1])

    def loc(self, line=None):
        f = self.file
        i = f.find("crates/")
        if i >= 0:
            f = f[i:]
        elif self.crate == "axmosdb-lib":
            f = "crates/axmos-db/" + f
        return f"{f}:{line or self.line}"


class Prog:
    """all functions of one tree"""

    def __init__(self, records):
        self.fns = {}
        self.adts = {}
        self.by_item = defaultdict(list)  # trait item -> impl fns
        self.closures = defaultdict(list)
        for crate, d in records:
            if "adt" in d:
                self.adts.setdefault(d["adt"], d)
                continue
            f = Fn(d, crate)
            key = f.id
            if crate != "axmosdb-lib":
                # binaries/macros: qualify so ids never clash with the library
                key = crate + "!" + f.id
            if key in self.fns:
                k = 2
                while f"{key}#{k}" in self.fns:
                    k += 1
                key = f"{key}#{k}"
            f.id = key
            self.fns[key] = f
            if f.item:
                self.by_item[f.item].append(key)
            if f.kind == "Closure":
                self.closures[f.parent].append(key)
        self.bycid = defaultdict(list)
        for k, f in self.fns.items():
            f.cid = canon(k)
            self.bycid[f.cid].append(k)

    @staticmethod
    def load(dirname):
        recs = []
        for fn in sorted(os.listdir(dirname)):
            if fn.endswith(".jsonl"):
                c = fn[:-6]
                with open(os.path.join(dirname, fn)) as fh:
                    for l in fh:
                        recs.append((c, json.loads(l)))
        return Prog(recs)

    def find(self, suffix):
        """unique function whose canonical id ends with the suffix at a path boundary"""
        r = self.find_all(suffix)
        if len(r) == 1:
            return r[0]
        if not r:
            return None
        ex = [f for f in r if f.cid == suffix]
        return ex[0] if ex else r[0]

    def find_all(self, suffix):
        out = []
        for c, ks in self.bycid.items():
            if c == suffix or (c.endswith(suffix) and c[: -len(suffix)][-1:] in (":", " ", "!", "<")):
                out += [self.fns[k] for k in ks]
        return out

    def variant_name(self, adt, discr):
        a = self.adts.get(adt)
        if a:
            for v in a["variants"]:
                if v[1] == discr:
                    return v[0]
        return f"#{discr}"

    def ctor(self, path):
        """(adt, variant, field names) when path names a tuple constructor"""
        path = canon(path)
        if path in ("std::option::Option::Some", "std::result::Result::Ok", "std::result::Result::Err"):
            h, v = path.rsplit("::", 1)
            return h, v, ["0"]
        a = self.adts.get(path)
        if a and a["kind"] == "struct":
            return path, "", [f[0] for f in a["variants"][0][2]]
        if "::" in path:
            h, v = path.rsplit("::", 1)
            a = self.adts.get(h)
            if a and a["kind"] == "enum":
                for x in a["variants"]:
                    if x[0] == v:
                        fs = [f[0] if isinstance(f, list) else f for f in x[2]]
                        return h, v, fs
        return None

    def variants(self, adt):
        a = self.adts.get(adt)
        return [v[0] for v in a["variants"]] if a else []


def pair(A, B):
    """functions of two trees under common keys (canonical path where unique, full path otherwise)"""
    from collections import Counter

    def fns(P):
        return [f for f in P.fns.values() if f.kind in ("Fn", "AssocFn")]

    ca, cb = Counter(f.cid for f in fns(A)), Counter(f.cid for f in fns(B))
    out = []
    for P in (A, B):
        d = {}
        for f in fns(P):
            f.key = f.cid if ca[f.cid] <= 1 and cb[f.cid] <= 1 else re.sub(r"'[a-z_]\w*", "'_", f.id)
            d[f.key] = f
        out.append(d)
    return out


def callee_key(fd):
    """(resolved id, unresolved path) of a callee dict"""
    return fd.get("r") or fd.get("p")
