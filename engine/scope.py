"""Which functions each property depends on: the files it is anchored in plus the ones its mechanism runs through.
An entry is FILE or FILE:REGEX (on the function's canonical path); a leading '-' excludes."""

A = "crates/axmos-db/src/"

SCOPE = {
    "C01": """io/wal.rs storage/wal.rs io/logger.rs io/pager.rs io/recovery.rs runtime/context.rs lib.rs tcp/session.rs io/cache.rs io/disk/mod.rs io/disk/unix.rs
        multithreading/frames.rs multithreading/coordinator.rs storage/page.rs runtime/dml.rs runtime/ddl.rs multithreading/runner.rs runtime/mod.rs schema/catalog.rs""",
    "C02": """io/recovery.rs io/wal.rs storage/wal.rs io/logger.rs runtime/context.rs tcp/session.rs multithreading/coordinator.rs io/pager.rs io/cache.rs storage/page.rs lib.rs
        storage/tuple.rs runtime/dml.rs runtime/ddl.rs multithreading/frames.rs io/disk/mod.rs io/disk/unix.rs schema/catalog.rs""",
    "C03": """tcp/session.rs runtime/context.rs multithreading/coordinator.rs storage/tuple.rs runtime/dml.rs runtime/mod.rs lib.rs runtime/ddl.rs schema/catalog.rs runtime/validator.rs
        runtime/ops/insert.rs runtime/ops/update.rs runtime/ops/delete.rs runtime/ops/seq_scan.rs runtime/ops/index_scan.rs storage/page.rs multithreading/runner.rs runtime/builder.rs io/pager.rs""",
    "C04": """multithreading/coordinator.rs storage/tuple.rs runtime/context.rs runtime/dml.rs runtime/ops/seq_scan.rs runtime/ops/index_scan.rs tcp/session.rs lib.rs schema/catalog.rs
        runtime/validator.rs runtime/builder.rs runtime/ops/update.rs runtime/ops/delete.rs runtime/mod.rs io/pager.rs storage/page.rs""",
    "C05": """sql/parser/mod.rs sql/parser/lexer.rs sql/parser/ast.rs sql/binder/binder.rs sql/binder/analyzer.rs sql/binder/bounds.rs sql/binder/mod.rs runtime/eval.rs runtime/ops/
        runtime/dml.rs runtime/builder.rs runtime/mod.rs sql/planner/plan.rs sql/planner/logical.rs sql/planner/physical.rs sql/planner/rules.rs types/ schema/base.rs""",
    "C06": """sql/planner/ schema/stats.rs schema/catalog.rs runtime/ops/ runtime/dml.rs runtime/ddl.rs runtime/builder.rs runtime/eval.rs schema/base.rs tree/bplustree.rs tree/cell_ops.rs sql/binder/bounds.rs
        lib.rs storage/tuple.rs multithreading/coordinator.rs""",
    "C07": """runtime/validator.rs runtime/dml.rs runtime/ddl.rs schema/base.rs storage/tuple.rs schema/catalog.rs runtime/ops/insert.rs runtime/ops/update.rs runtime/mod.rs tree/cell_ops.rs
        multithreading/coordinator.rs sql/binder/binder.rs sql/binder/analyzer.rs tree/bplustree.rs types/ runtime/ops/delete.rs runtime/context.rs storage/page.rs lib.rs tcp/session.rs""",
    "C08": """lib.rs io/recovery.rs io/wal.rs storage/wal.rs io/logger.rs io/pager.rs runtime/ddl.rs runtime/dml.rs schema/catalog.rs storage/page.rs io/cache.rs io/disk/mod.rs io/disk/unix.rs
        runtime/context.rs multithreading/frames.rs multithreading/coordinator.rs tree/bplustree.rs tcp/session.rs""",
    "C09": """io/pager.rs storage/page.rs lib.rs multithreading/coordinator.rs schema/catalog.rs schema/base.rs schema/stats.rs schema/mod.rs io/cache.rs io/disk/mod.rs io/disk/unix.rs io/wal.rs
        multithreading/frames.rs common/mod.rs storage/core/buffer.rs storage/tuple.rs runtime/context.rs types/blob.rs types/varint.rs io/recovery.rs storage/wal.rs storage/cell.rs tree/bplustree.rs runtime/ddl.rs""",
    "C10": """tree/bplustree.rs tree/cell_ops.rs tree/accessor.rs storage/cell.rs storage/core/buffer.rs storage/core/traits.rs storage/page.rs io/pager.rs types/varint.rs multithreading/frames.rs io/cache.rs""",
    "C11": """io/pager.rs tree/bplustree.rs tree/cell_ops.rs tree/accessor.rs storage/page.rs schema/catalog.rs io/cache.rs storage/cell.rs storage/core/buffer.rs multithreading/frames.rs
        runtime/ddl.rs storage/tuple.rs lib.rs""",
    "C12": """common/mod.rs io/cache.rs io/pager.rs storage/page.rs tree/bplustree.rs tree/cell_ops.rs tree/accessor.rs multithreading/threadpool.rs multithreading/runner.rs multithreading/frames.rs storage/core/buffer.rs
        storage/cell.rs io/disk/mod.rs io/disk/unix.rs lib.rs io/wal.rs storage/wal.rs""",
    "C13": """lib.rs schema/catalog.rs storage/tuple.rs multithreading/coordinator.rs storage/page.rs tree/bplustree.rs tree/cell_ops.rs io/pager.rs io/cache.rs storage/core/buffer.rs runtime/ddl.rs runtime/context.rs tree/accessor.rs storage/cell.rs tcp/session.rs runtime/dml.rs schema/base.rs""",
    "C14": """multithreading/ tree/accessor.rs tree/bplustree.rs io/pager.rs io/cache.rs schema/catalog.rs runtime/context.rs lib.rs tcp/session.rs io/wal.rs runtime/dml.rs io/logger.rs tcp/mod.rs bin/axmos_server.rs storage/page.rs storage/tuple.rs runtime/ddl.rs""",
    "C15": """runtime/ddl.rs schema/catalog.rs schema/base.rs schema/mod.rs sql/binder/binder.rs sql/binder/analyzer.rs storage/tuple.rs runtime/mod.rs runtime/context.rs tree/bplustree.rs
        tcp/session.rs lib.rs io/recovery.rs multithreading/coordinator.rs sql/parser/mod.rs runtime/dml.rs runtime/builder.rs runtime/validator.rs storage/page.rs""",
    "C16": """sql/parser/ sql/binder/ sql/planner/ runtime/ types/ multithreading/threadpool.rs multithreading/runner.rs multithreading/coordinator.rs storage/tuple.rs lib.rs tcp/session.rs
        schema/base.rs schema/catalog.rs tree/bplustree.rs tree/cell_ops.rs tree/accessor.rs storage/core/buffer.rs""",
    "C17": """io/wal.rs storage/wal.rs storage/core/buffer.rs io/logger.rs io/pager.rs io/disk/mod.rs io/disk/unix.rs runtime/context.rs""",
    "C18": """storage/tuple.rs multithreading/coordinator.rs types/ storage/core/buffer.rs axmos-derive schema/base.rs storage/page.rs""",
    "C19": """types/ tree/cell_ops.rs runtime/ops/sort.rs runtime/ops/distinct.rs runtime/ops/aggregate.rs runtime/ops/join.rs runtime/eval.rs axmos-derive storage/tuple.rs""",
    "C20": """tcp/ bin/axmos_server.rs axmos-client runtime/mod.rs""",
}

SKIP_FN = {"fmt", "explain", "name", "description", "source"}


def select(prog, pid):
    ents = SCOPE[pid].split()
    out = []
    for f in prog.fns.values():
        if f.kind not in ("Fn", "AssocFn") or "#prom" in f.cid:
            continue
        if f.cid.rsplit("::", 1)[-1] in SKIP_FN and not (f.cid.endswith("Display>::fmt") and "/types/" in f.file) or "exporter" in f.file:
            continue
        if (f.item or "").endswith(("Clone::clone", "Debug::fmt")) or (f.item or "").endswith("Display::fmt") and "/types/" not in f.file:
            continue
        p = f.loc().rsplit(":", 1)[0]
        for e in ents:
            if e.startswith("axmos-"):
                hit = p.startswith("crates/" + e + "/")
            elif e.endswith("/"):
                hit = p.startswith(A + e)
            else:
                hit = p == A + e
            if hit:
                out.append(f)
                break
    return out
