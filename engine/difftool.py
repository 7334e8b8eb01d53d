"""difftool.py REFDIR CURDIR [filter] : every difference between two fact sets (development aid)"""
import sys, ax, time
from collections import Counter
from ax import canon, short
from judge import Judge

SKIP = ("fmt", "explain")


def main(da, db, filt=None):
    A, B = ax.Prog.load(da), ax.Prog.load(db)
    t0 = time.time()
    J = Judge(A, B)
    print("only in ref", [short(canon(x)) for x in J.ua][:20], "only in cur", [short(canon(x)) for x in J.ub][:20])
    cnt = Counter()
    nf = bad = 0
    for c, fa, fb in J.functions():
        if fa.kind not in ("Fn", "AssocFn") or (filt and filt not in c) or c.split("::")[-1] in SKIP:
            continue
        t = time.time()
        _, D = J.judge(fa, fb)
        nf += 1
        if time.time() - t > 3:
            print("slow", c, round(time.time() - t, 1))
        if D:
            bad += 1
            print("##", c, fb.loc(), "gap", J.gap)
            for d in D:
                cnt[d.kind] += 1
                print("   ", d.kind, d.msg[:600])
            for L in J.lastloose:
                print("    loose:")
                for d in L:
                    print("       ", d.kind, d.msg[:500])
    print(nf, "functions,", bad, "differ,", cnt, f"{time.time()-t0:.1f}s")


if __name__ == "__main__":
    main(*sys.argv[1:])
