"""Decide one property on /repo's current tree.  usage: check.py C01 [--tier quick|thorough]"""
import hashlib, json, lzma, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import facts, ax, scope  # noqa: E402
from ax import canon, short  # noqa: E402
from judge import Judge  # noqa: E402
from compare import fmtc  # noqa: E402

REFDIR = os.path.join(VERIF, "reference")


def load_reference():
    recs = []
    for fn in sorted(os.listdir(REFDIR)):
        if fn.endswith(".jsonl.xz"):
            with lzma.open(os.path.join(REFDIR, fn), "rt") as fh:
                for l in fh:
                    recs.append((fn[: -len(".jsonl.xz")], json.loads(l)))
    return ax.Prog(recs)


def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def contracts(pid, ref, cur, tier, stats):
    """behavioural contracts: facts confirmed on the reference tree must still hold"""
    J = Judge(ref, cur)
    sel = {f.id for f in scope.select(ref, pid)}
    if tier == "thorough":
        for _ in range(3):
            add = set()
            for i in sel:
                for b in ref.fns[i].bb:
                    t = b["t"]
                    if t[0] == "call" and t[1].get("fn"):
                        g = ref.fns.get(t[1]["fn"].get("r") or t[1]["fn"].get("p"))
                        if g is not None and g.kind in ("Fn", "AssocFn") and g.cid.rsplit("::", 1)[-1] not in scope.SKIP_FN:
                            add.add(g.id)
            sel |= add
    out = []
    for i in sorted(J.ua & sel):
        fa = ref.fns[i]
        # gone: its body is judged inside its callers; a body nobody calls by name has no such place
        if fa.item and fa.item.endswith("Drop::drop"):
            out.append((f"{short(fa.cid)}|gone", f"{short(fa.cid)}: the destructor that the reference tree relied on is gone", fa.loc(), "missing"))
    for cid, fa, fb in J.functions():
        if fa.id not in sel:
            continue
        stats["functions"] += 1
        A, D = J.judge(fa, fb)
        n = len(A.effects) + len(A.writes) + len(A.cons) + len(A.rejects) + len(A.returns) + len(A.atoms)
        stats["facts"] += n
        stats["effects"] += len(A.effects)
        stats["guards"] += len(A.atoms)
        if n and len(stats["samples"]) < 4 and A.effects and A.atoms:
            e = A.effects[len(A.effects) // 2]
            stats["samples"].append(f"{short(fa.cid)} ({fb.loc()}): performs {e['callee']} under [{fmtc(e['rc'])[:200]}]")
        for d in D:
            out.append((d.key, f"{short(fa.cid)}: {d.msg}", fb.loc(d.line or None), d.kind))
    stats["second_looks"] = J.retried
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    fdir, h = facts.ensure()
    cur = ax.Prog.load(fdir)
    ref = load_reference()
    stats = dict(functions=0, identical=0, facts=0, effects=0, guards=0, samples=[])
    found = []  # (key, text, loc, kind)
    import rules

    rstats = []
    world = rules.World(cur, {f.cid for f in ref.fns.values()})
    for r in rules.for_property(pid):
        res = r.run(world)
        rstats.append(dict(rule=r.name, instances=res.instances, sites=res.sites[:6]))
        for k, msg, loc in res.violations:
            found.append((f"{r.name}|{k}", f"rule {r.name}: {msg}", loc, "rule"))
        if res.instances < r.floor:
            found.append((f"{r.name}|floor", f"rule {r.name}: matched {res.instances} instance(s), {r.floor} were confirmed by hand; an anchor it relies on is gone", "", "rule"))
    nrule = len(found)
    found += contracts(pid, ref, cur, tier, stats)
    kn = known()
    listed = {f["key"]: f for f in kn["findings"] if f["property"] == pid}
    viol, hits = [], []
    names = {short(f.cid) for f in cur.fns.values()}

    def gone(key):
        return key.split("|")[-1] not in names

    def gone_hit(key):
        return any(f[0] == key for f in found)

    for f in found:
        # the function a finding is listed under may have been renamed or folded into its callers
        k = f[0] if f[0] in listed else f[3] == "rule" and next((x for x in listed if x.split("|")[0] == f[0].split("|")[0] and not gone_hit(x) and gone(x)), None)
        if k:
            hits.append((k,) + f[1:])
        else:
            viol.append(f)
    for k in dict.fromkeys(f[0] for f in hits):
        print(f"KNOWN-FINDING: property={pid} {listed[k]['what']}")
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    rep = os.path.join("evidence", "replay", f"{pid}.txt")
    cov = dict(
        explanation=rules.explain(pid),
        rules=rstats,
        rule_instances=sum(r["instances"] for r in rstats),
        functions_compared=stats["functions"],
        contract_facts=stats["facts"],
        contract_effects=stats["effects"],
        contract_conditions=stats["guards"],
        second_looks=stats["second_looks"],
        samples=stats["samples"] + [f"{r['rule']}: {s}" for r in rstats for s in r["sites"][:1]][:8],
        tree=h,
        functions_in_program=len(cur.fns),
    )
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other", coverage=cov,
              assumptions=["the reference facts under /verif/reference were confirmed by reading the tree", "rustc's MIR is a faithful rendering of the sources"],
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print(f"{pid} [{tier}]: {len(rstats)} rules with {cov['rule_instances']} instances, {stats['functions']} functions, {stats['facts']} facts, {len(hits)} known, {len(viol)} violation(s) in {ev['wall_s']}s")
    if viol:
        with open(os.path.join(VERIF, rep), "w") as fh:
            for k, msg, loc, kind in viol:
                fh.write(f"{loc}  {msg}\n    key: {k}\n")
        for k, msg, loc, kind in viol[:25]:
            print(f"  {loc}: [{kind}] {msg[:600]}")
        print(f"VIOLATION property={pid} replay={rep}")
        return 1
    if os.path.exists(os.path.join(VERIF, rep)):
        os.unlink(os.path.join(VERIF, rep))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except facts.BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(3)
