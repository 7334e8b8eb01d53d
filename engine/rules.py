"""Rules about the whole program which need no reference tree: who may lock what while holding what, what must be in the
log before what, what may not happen inside a transaction. A site is named after the function of the public structure
it is reached from (`owner`), so that moving code into a helper does not rename it."""
import re
from collections import defaultdict
from ax import canon, short, callee_key
from locks import Locks


class Result:
    def __init__(self):
        self.instances, self.sites, self.violations = 0, [], []

    def ok(self, site):
        self.instances += 1
        if site not in self.sites:
            self.sites.append(site)

    def bad(self, key, msg, loc):
        self.instances += 1
        self.violations.append((key, msg, loc))


class World:
    """call graph of the tree with closures attributed to the function that makes them"""

    def __init__(self, prog, known):
        self.prog, self.known = prog, known
        self.L = Locks(prog)
        self.out = self.L.out
        self.rev = defaultdict(set)
        for a, bs in self.out.items():
            for b in bs:
                self.rev[b].add(a)
        self._reach = {}

    def fns(self, suffix):
        return [f for f in self.prog.find_all(suffix) if f.kind in ("Fn", "AssocFn")]

    def home(self, f):
        """the function a closure is written in"""
        while f.kind == "Closure" and f.parent:
            g = next((self.prog.fns[k] for k in (f.parent, f.crate + "!" + f.parent) if k in self.prog.fns), None)
            if g is None:
                break
            f = g
        return f

    def reach(self, i):
        r = self._reach.get(i)
        if r is None:
            r, todo = set(), [i]
            while todo:
                x = todo.pop()
                if x not in r:
                    r.add(x)
                    todo += self.out.get(x, ())
            self._reach[i] = r
        return r

    def reaches(self, f, names):
        """does this function call one of these, however deep?"""
        t = {g.id for n in names for g in self.fns(n)}
        return bool(self.reach(f.id) & t)

    def reaching(self, names):
        """functions that call one of these, however deep"""
        r, todo = set(), [g.id for n in names for g in self.fns(n)]
        while todo:
            x = todo.pop()
            if x not in r:
                r.add(x)
                todo += self.rev.get(x, ())
        return r

    def callers(self, names):
        out = {}
        for n in names:
            for g in self.fns(n):
                for c in self.rev.get(g.id, ()):
                    h = self.home(self.prog.fns[c])
                    out[h.id] = h
        return list(out.values())

    def owners(self, f, seen=None):
        """the nearest functions of the reference that this one is part of"""
        seen = seen or set()
        f = self.home(f)
        if f.cid in self.known:
            return [f]
        out = []
        for c in sorted(self.rev.get(f.id, ())):
            if c not in seen:
                out += self.owners(self.prog.fns[c], seen | {f.id, c})
        return out or [f]

    # ------------------------------------------------------------ order within a function
    def unpreceded(self, f, target, before):
        """lines of the calls to `target` (ids) that a path from the entry of f reaches without passing a call that may reach `before` (ids)"""
        n = len(f.bb)
        seen, todo, hits = set(), [0], []
        while todo:
            i = todo.pop()
            if i in seen or f.bb[i].get("u"):
                continue
            seen.add(i)
            t = f.bb[i]["t"]
            if t[0] == "call":
                ids = set()
                if t[1].get("fn"):
                    ids |= {g.id for g in self.L.targets(f, t[1]["fn"])}
                for a in t[2]:
                    if a[0] in ("c", "m") and not a[1][1] and "{closure@" in f.locals[a[1][0]]:
                        ids |= set(self.L.closure_of(f, a[1][0]))
                    elif a[0] == "k" and "fn" in a[1]:
                        ids |= {g.id for g in self.L.targets(f, a[1]["fn"])}
                if ids & target:
                    hits.append(t[5])
                    continue
                if any(self.reach(x) & before for x in ids):
                    continue
            todo += self.L.succ(t)
        return hits


    def through(self, f, target):
        """target, and the closures of f that get there"""
        return target | {k for k in self.out.get(f.id, ()) if self.prog.fns[k].kind == "Closure" and target & self.reach(k)}

    def blame(self, f, target, before, seen=()):
        """the functions of the reference in which a path gets to target without before; a helper answers for its callers"""
        lines = self.unpreceded(f, self.through(f, target), before)
        if not lines:
            return []
        if f.cid in self.known:
            return [(f, lines[0])]
        cs = {self.home(self.prog.fns[c]).id for c in self.rev.get(f.id, ())} - {f.id} - set(seen)
        if not cs:
            return [(f, lines[0])]
        out = []
        for c in sorted(cs):
            out += self.blame(self.prog.fns[c], {f.id}, before, seen + (f.id,))
        return out


def excluded(f):
    return "::tests::" in f.cid or "/tests/" in f.file or f.file.endswith("tests.rs")


# ------------------------------------------------------------------------------------------------ C14
def lock_order(w):
    """no two locks are taken in both orders, and no lock is taken again by a thread that holds it"""
    R = Result()
    E = {}
    for (a, b), ws in w.L.edges.items():
        ws = [x for x in ws if not excluded(x[0])]
        if ws:
            E[(a, b)] = ws
    R.nheld = w.L.nheld
    page = "P"  # page latches: taken from the root down and from left to right
    adj = defaultdict(set)
    for a, b in E:
        if a != b:
            adj[a].add(b)
    for (a, b), ws in sorted(E.items()):
        f, line = ws[0][0], ws[0][1]
        if a == b:
            if a == page:
                R.ok(f"page latch under page latch in {len(ws)} calls")
                continue
            for o in w.owners(f):
                R.bad(f"{a}|again|{short(o.cid)}", f"the lock on {a} is taken while this thread holds it", f.loc(line))
            continue
        back, todo = set(), [b]
        while todo:
            x = todo.pop()
            if x not in back:
                back.add(x)
                todo += adj[x]
        if a in back and {a, b} != {page, "Pager"}:
            for o in w.owners(f):
                R.bad(f"{a}>{b}|{short(o.cid)}", f"the lock on {b} is taken under the lock on {a}, and elsewhere the other way round", f.loc(line))
        else:
            R.ok(f"{a} before {b}, {len(ws)} calls, e.g. {short(f.cid)} ({f.loc(line)})")
    return R


# ------------------------------------------------------------------------------------------------ logging
TREE = ["Btree::insert", "Btree::upsert", "Btree::update", "Btree::remove", "Btree::remove_tuple"]
CATALOG = ["Catalog::store_relation", "Catalog::remove_relation", "Catalog::update_relation"]
LOGS = ["TransactionLogger::log_insert", "TransactionLogger::log_update", "TransactionLogger::log_delete", "TransactionLogger::log_create",
        "TransactionLogger::log_drop", "TransactionLogger::log_alter"]


def executors(w, *files):
    return [f for f in w.prog.fns.values() if f.kind in ("Fn", "AssocFn") and not excluded(f) and f.file.endswith(files)]


def logged(w):
    """a statement that changes a table or the catalog logs the change"""
    R = Result()
    mut = w.reaching(TREE + CATALOG)
    log = w.reaching(LOGS)
    logs = {g.id for n in LOGS for g in w.fns(n)}
    tree = {g.id for n in TREE + CATALOG for g in w.fns(n)}
    mine = {f.id: f for f in executors(w, "runtime/dml.rs", "runtime/ddl.rs")}

    def calls(f):
        """what f and its closures call"""
        out, todo = set(), [f.id]
        while todo:
            for g in w.out.get(todo.pop(), ()):
                if g not in out:
                    out.add(g)
                    if w.prog.fns[g].kind == "Closure":
                        todo.append(g)
        return out

    def logging(f):
        c = calls(f)
        return bool(c & logs) or any(g in mine and g in log and g not in mut for g in c)

    def covered(f, seen=()):
        if logging(f):
            return True
        cs = [w.home(w.prog.fns[c]) for c in w.rev.get(f.id, ())]
        cs = [c for c in cs if c.id != f.id and c.id not in seen]
        return bool(cs) and all(c.id in mine and covered(c, seen + (f.id,)) for c in cs)

    for f in mine.values():
        if not calls(f) & tree:
            continue
        if covered(f):
            R.ok(f"{short(f.cid)} ({f.loc()})")
        else:
            for o in w.owners(f):
                R.bad(short(o.cid), f"{short(f.cid)} changes a table or the catalog and leaves no record in the log", f.loc())
    return R


def abort_record(w):
    """the end of a rolled-back transaction is logged as such"""
    R = Result()
    for f in w.fns("TransactionLogger::log_abort"):
        kinds = set()
        for i in w.reach(f.id):
            g = w.prog.fns[i]
            for b in g.bb:
                t = b["t"]
                if t[0] == "call" and t[1].get("fn") and canon(callee_key(t[1]["fn"])).endswith("TransactionLogger::log_operation"):
                    kinds |= {x.rsplit("::", 1)[-1] for x in t[1]["fn"].get("g", []) if x.startswith("io::logger::")}
        if "Commit" in kinds:
            R.bad(short(f.cid), f"the record of a rolled-back transaction is of kind {sorted(kinds)}", f.loc())
        else:
            R.ok(f"{short(f.cid)} logs {sorted(kinds)}")
    return R


def commit_logged(w):
    """the commit record is pushed to the log before the coordinator counts the transaction as committed"""
    R = Result()
    target = {g.id for g in w.fns("TransactionContext::commit_transaction")}
    rec = {g.id for g in w.fns("TransactionLogger::log_commit")}
    stm = w.reaching(["QueryRunner::prepare_and_run", "QueryRunner::prepare_and_explain", "MultiQueryRunner::execute_all"])
    if not target or not rec:
        return R

    def fine(f, body, seen=()):
        lines = w.unpreceded(body, target, rec)
        if not lines:
            return None
        # a helper is called when the record is there already
        if f.cid in w.known:
            return body.loc(lines[0])
        for c in w.rev.get(f.id, ()):
            if c in seen:
                continue
            g = w.prog.fns[c]
            if w.unpreceded(g, {f.id}, rec):
                return body.loc(lines[0])
        return None

    for f in w.callers(["TransactionContext::commit_transaction"]):
        if excluded(f):
            continue
        bodies = [f] + [w.prog.fns[k] for k in w.out.get(f.id, ()) if w.prog.fns[k].kind == "Closure" and w.home(w.prog.fns[k]).id == f.id]
        if f.id not in stm and not any("log_commit" in w.prog.fns[x].cid or "Session" in f.cid for x in w.out.get(f.id, ())):
            continue  # maintenance: nothing of it is in the log
        for b in bodies:
            if target & set(w.out.get(b.id, ())):
                l = fine(f, b)
                if l:
                    for o in w.owners(f):
                        R.bad(short(o.cid), "the transaction is committed before the commit record is in the log", l)
                else:
                    R.ok(f"{short(f.cid)} ({b.loc()})")
    return R


def log_before_page(w):
    """no page goes to the data file before the log records that describe its changes"""
    R = Result()
    wr = w.fns("Pager::write_block")
    target = {g.id for g in wr}
    force = {g.id for n in ("Pager::flush_wal", "WriteAheadLog::flush", "WriteAheadLog::perform_flush", "WriteAheadLog as io::disk::FileOperations>::flush") for g in w.fns(n)}
    force |= {g.id for g in w.prog.fns.values() if "WriteAheadLog" in g.cid and g.cid.endswith("::flush")}
    force |= {g.id for g in w.prog.fns.values() if "Pager" in g.cid and g.cid.endswith("::create")}  # a new file: nothing was logged yet

    def forced(f, target, seen=()):
        lines = w.unpreceded(f, w.through(f, target), force)
        if not lines:
            return None
        cs = {w.home(w.prog.fns[c]).id for c in w.rev.get(f.id, ())} - {f.id} - set(seen)
        if cs and len(seen) < 2 and all(forced(w.prog.fns[c], {f.id}, seen + (f.id,)) is None for c in cs):
            return None
        return lines[0]

    for f in w.callers(["Pager::write_block"]):
        if excluded(f):
            continue
        if forced(f, target) is None:
            R.ok(f"{short(f.cid)} ({f.loc()})")
            continue
        for o, line in w.blame(f, target, force):
            R.bad(short(o.cid), "a page is written to the data file, and nothing forces the log before it", o.loc(line))
    return R


# ------------------------------------------------------------------------------------------------ transactions
def write_set(w):
    """a change to a row enters the write set that conflicts are detected from"""
    R = Result()
    rec = w.reaching(["TransactionCoordinator::record_write"])
    for f in executors(w, "runtime/dml.rs"):
        if not any(f.cid.endswith("DmlExecutor::" + n) for n in ("insert", "update", "delete")):
            continue
        if f.id in rec:
            R.ok(f"{short(f.cid)} ({f.loc()})")
        else:
            R.bad(short(f.cid), "the changed row is not put into the write set of the transaction", f.loc())
    return R


def free_in_transaction(w):
    """pages of a relation are not given back while the transaction that drops it can still roll back"""
    R = Result()
    for f in w.callers(["Btree::dealloc"]):
        if excluded(f):
            continue
        ddl = any(x.file.endswith("runtime/ddl.rs") for x in (w.prog.fns[i] for i in w.reaching([f.cid])))
        if ddl:
            for o in w.owners(f):
                R.bad(short(o.cid), "DROP gives the pages back at once, a rollback restores a relation that has lost them", f.loc())
        else:
            R.ok(short(f.cid))
    return R


def narrow_counter(w):
    """a counter of one byte that grows with use is not advanced unchecked"""
    R = Result()
    for f in w.prog.fns.values():
        if excluded(f) or f.crate != "axmosdb-lib" or not f.file.endswith(("storage/tuple.rs", "storage/page.rs", "storage/cell.rs", "storage/wal.rs")):
            continue
        for b in f.bb:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] in ("bin", "cbin", "binop") and "Add" in str(s[2][1]) and f.locals[s[1][0]] == "(u8, bool)":
                    for o in w.owners(f):
                        R.bad(short(o.cid), "a counter of type u8 is incremented without a check", f.loc(s[-1] if isinstance(s[-1], int) else None))
    if not R.violations:
        R.ok("no unchecked addition on u8")
    return R


def undo_backwards(w):
    """the operations of a transaction are undone last first"""
    R = Result()
    for f in w.fns("WalRecuperator::run_undo"):
        names = set()
        for i in w.reach(f.id):
            g = w.prog.fns[i]
            if i == f.id or g.file == f.file or g.file.endswith("io/wal.rs"):
                for b in g.bb:
                    if b["t"][0] == "call" and b["t"][1].get("fn"):
                        names.add(canon(callee_key(b["t"][1]["fn"])).rsplit("::", 1)[-1])
        if names & {"rev", "next_back", "rfold", "rfind", "pop", "sort_by_key", "sort_by", "sort_unstable_by", "reverse", "into_sorted_vec"}:
            R.ok(short(f.cid))
        else:
            R.bad(short(f.cid), "the log records of an unfinished transaction are undone in the order they were written", f.loc())
    return R


class Rule:
    floor = 0

    def __init__(self, fn, pids):
        self.fn, self.pids, self.name, self.doc = fn, pids.split(), fn.__name__.replace("_", "-"), fn.__doc__

    def run(self, world):
        return self.fn(world)


RULES = [
    Rule(lock_order, "C14 C16"),
    Rule(logged, "C01 C02 C15"),
    Rule(abort_record, "C02"),
    Rule(commit_logged, "C01"),
    Rule(log_before_page, "C02 C08"),
    Rule(write_set, "C04"),
    Rule(free_in_transaction, "C03 C15"),
    Rule(narrow_counter, "C16 C18"),
    Rule(undo_backwards, "C02"),
]


def for_property(pid):
    return [r for r in RULES if pid in r.pids]


MECHANISM = {
    "C01": "commit record before the commit mark, log force at commit, log block layout, redo of committed records, checkpoint order (log, pages, header, truncate)",
    "C02": "which transactions redo and undo select, what each undo step restores, record contents (before and after images), order of records, write-back",
    "C03": "rollback and drop of a session, failed statements, abort marks, visibility of versions by creator and deleter, DDL undo, validation before the first write",
    "C04": "snapshot construction, is_visible and its callers, begin, commit and abort of a transaction, conflict detection, every reader's filter",
    "C05": "lexer, precedence, binder, evaluator, three-valued logic, every operator (scan, filter, join, aggregate, sort, distinct, limit), DML row counts",
    "C06": "optimizer rules, cost and plan choice, index ranges and residual predicates, index scan, index maintenance in every DML path and in CREATE INDEX",
    "C07": "constraint validator, unique index probes, NOT NULL checks, index maintenance, key comparison",
    "C08": "recovery phases, log scan and its stop conditions, header reading, checkpoint order, open sequence",
    "C09": "page zero fields, header synchronisation, catalog encoding, id counters, aborted bitmap, open with a configuration",
    "C10": "search, insert, split, balance, merge, separators, sibling links, cells and overflow chains, page slot arithmetic, comparators",
    "C11": "free list, allocation, deallocation of trees, overflow chains and cells, head and tail in the header",
    "C12": "cache insertion, eviction, pins, write-back, capacity, page and cell size arithmetic, pool size, use of every configuration value",
    "C13": "vacuum's choice of versions, horizon, removal from table and indexes, page reclamation, transaction bookkeeping",
    "C14": "locks and latches: acquisition order, release, worker loop and channels, result delivery, transaction table updates",
    "C15": "DDL executors, catalog updates, schema changes, column defaults, name lookup, DDL logging",
    "C16": "parser recursion and loops, error arms, arithmetic checks, index bounds, unwrap conditions, worker panic containment",
    "C17": "log append, block rotation, force, reopen, truncation, reader, record header encoding",
    "C18": "tuple layout, delta encoding, version chain walk, null bitmap, trimming, xmin/xmax checks",
    "C19": "PartialEq, Ord, Hash and casts of every type, key comparators, serialisation, sort and hash users",
    "C20": "frame reading and writing, length limits, encoders and decoders of every message variant, server loop",
}


def explain(pid):
    rs = for_property(pid)
    t = (f"Behavioural contracts of the functions this property runs through ({MECHANISM[pid]}): for every function, each guarded answer, refusal, effect, "
         "argument, order between effects and loop invariant that was confirmed on the reference tree is an obligation re-derived from the MIR of the current tree.")
    if rs:
        t += " Whole-program rules: " + "; ".join(f"{r.name} ({' '.join(r.doc.split())})" for r in rs) + "."
    return t
