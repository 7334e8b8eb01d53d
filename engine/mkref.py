"""Freeze the facts of the current /repo tree as the reference (run by hand after each confirmed change)."""
import facts, os, lzma, glob
d, h = facts.ensure()
out = os.path.join(facts.VERIF, "reference")
for f in glob.glob(out + "/*"): os.unlink(f)
for c in facts.CRATES:
    with open(os.path.join(d, c + ".jsonl"), "rb") as i, lzma.open(os.path.join(out, c + ".jsonl.xz"), "wb", preset=9) as o:
        o.write(i.read())
print(h)
