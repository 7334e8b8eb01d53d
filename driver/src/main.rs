// Dumps the type-checked, resolved MIR of every local body of a crate as JSON lines.
// Used as RUSTC_WORKSPACE_WRAPPER; output goes to $AXFACTS_OUT/<crate>-<kind>.jsonl
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;

extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, String>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(format!("{}", t))
    }
    fn span(&self, sp: Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        (f, lo.line)
    }
    fn line(&self, sp: Span) -> usize {
        self.span(sp).1
    }
    fn note_adt(&mut self, t: Ty<'tcx>) {
        if let ty::Adt(def, _) = t.kind() {
            let p = self.path(def.did());
            if self.adts.contains_key(&p) {
                return;
            }
            self.adts.insert(p.clone(), String::new());
            let mut s = String::new();
            let kind = if def.is_enum() {
                "enum"
            } else if def.is_union() {
                "union"
            } else {
                "struct"
            };
            let _ = write!(s, "{{\"adt\":{},\"kind\":\"{}\",\"local\":{},\"variants\":[", js(&p), kind, def.did().is_local());
            if def.is_enum() {
                for (n, (i, d)) in def.discriminants(self.tcx).enumerate() {
                    let v = def.variant(i);
                    if n > 0 {
                        s.push(',');
                    }
                    let _ = write!(s, "[{},\"{}\",[", js(v.name.as_str()), d.val);
                    for (k, f) in v.fields.iter().enumerate() {
                        if k > 0 {
                            s.push(',');
                        }
                        s.push_str(&js(f.name.as_str()));
                    }
                    s.push_str("]]");
                }
            } else {
                for (n, v) in def.variants().iter().enumerate() {
                    if n > 0 {
                        s.push(',');
                    }
                    let _ = write!(s, "[{},\"{}\",[", js(v.name.as_str()), n);
                    for (k, f) in v.fields.iter().enumerate() {
                        if k > 0 {
                            s.push(',');
                        }
                        let ft = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        let _ = write!(s, "[{},{}]", js(f.name.as_str()), js(&self.ty(ft)));
                    }
                    s.push_str("]]");
                }
            }
            s.push_str("]}");
            self.adts.insert(p, s);
        }
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut s = String::new();
        let _ = write!(s, "[{},[", p.local.as_u32());
        for (i, (base, el)) in p.iter_projections().enumerate() {
            if i > 0 {
                s.push(',');
            }
            match el {
                ProjectionElem::Deref => s.push_str("\"*\""),
                ProjectionElem::Field(f, _) => {
                    let pt = base.ty(body, self.tcx);
                    self.note_adt(pt.ty);
                    let (owner, name) = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = match pt.variant_index {
                                Some(v) => def.variant(v),
                                None => {
                                    if def.is_enum() {
                                        def.variant(rustc_abi::VariantIdx::from_u32(0))
                                    } else {
                                        def.non_enum_variant()
                                    }
                                }
                            };
                            let mut o = self.path(def.did());
                            if def.is_enum() {
                                o.push_str("::");
                                o.push_str(v.name.as_str());
                            }
                            (o, v.fields[f].name.to_string())
                        }
                        ty::Closure(..) => ("closure".to_string(), format!("{}", f.as_u32())),
                        _ => ("tuple".to_string(), format!("{}", f.as_u32())),
                    };
                    let _ = write!(s, "[\"f\",{},{}]", js(&owner), js(&name));
                }
                ProjectionElem::Downcast(n, _) => {
                    let nm = n.map(|x| x.to_string()).unwrap_or_default();
                    let _ = write!(s, "[\"d\",{}]", js(&nm));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(s, "[\"i\",{}]", l.as_u32());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(s, "[\"ci\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(s, "[\"ss\",{},{},{}]", from, to, from_end);
                }
                _ => s.push_str("\"?\""),
            }
        }
        s.push_str("]]");
        s
    }
    fn callee(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut s = String::new();
        let _ = write!(s, "{{\"p\":{}", js(&self.path(did)));
        if let Some(assoc) = tcx.opt_associated_item(did) {
            let cont = assoc.container_id(tcx);
            match tcx.def_kind(cont) {
                DefKind::Trait => {
                    let _ = write!(s, ",\"tr\":{}", js(&self.path(cont)));
                    if !args.is_empty() {
                        if let Some(t) = args[0].as_type() {
                            let _ = write!(s, ",\"self\":{}", js(&self.ty(t)));
                        }
                    }
                    let er = tcx.erase_and_anonymize_regions(args);
                    if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, did, er) {
                        let rd = inst.def_id();
                        if rd != did {
                            let _ = write!(s, ",\"r\":{}", js(&self.path(rd)));
                        } else if !matches!(inst.def, ty::InstanceKind::Virtual(..)) {
                            s.push_str(",\"dflt\":1");
                        }
                        // derived-from-impl self type
                        if let ty::InstanceKind::Virtual(..) = inst.def {
                            s.push_str(",\"dyn\":1");
                        }
                    }
                }
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(cont).instantiate_identity().skip_norm_wip();
                    let _ = write!(s, ",\"impl\":{}", js(&self.ty(st)));
                }
                _ => {}
            }
        }
        let mut ga = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                ga.push(js(&self.ty(t)));
                if let ty::Closure(cd, _) = t.kind() {
                    let _ = write!(s, ",\"cl\":{}", js(&self.path(*cd)));
                }
            } else if let Some(c) = a.as_const() {
                ga.push(js(&with_no_trimmed_paths!(format!("{}", c))));
            }
        }
        if !ga.is_empty() {
            let _ = write!(s, ",\"g\":[{}]", ga.join(","));
        }
        s.push('}');
        s
    }
    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let t = c.const_.ty();
        let tcx = self.tcx;
        match t.kind() {
            ty::FnDef(did, args) => {
                let callee = self.callee(*did, args.no_bound_vars().unwrap_or(args.skip_binder()), env);
                return format!("{{\"fn\":{}}}", callee);
            }
            _ => {}
        }
        let mut s = String::new();
        let _ = write!(s, "{{\"t\":{}", js(&self.ty(t)));
        if let Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() {
                let _ = write!(s, ",\"n\":{}", js(&self.path(u.def)));
            } else {
                let _ = write!(s, ",\"prom\":[{},{}]", js(&self.path(u.def)), u.promoted.unwrap().as_u32());
            }
        }
        let mut done = false;
        if t.is_integral() || t.is_bool() || t.is_char() {
            if let Some(si) = c.const_.try_eval_scalar_int(tcx, env) {
                let v = if t.is_signed() {
                    format!("{}", si.to_int(si.size()))
                } else {
                    format!("{}", si.to_uint(si.size()))
                };
                let _ = write!(s, ",\"v\":{}", js(&v));
                done = true;
            }
        }
        if !done {
            let txt = with_no_trimmed_paths!(format!("{}", c.const_));
            let txt: String = txt.chars().take(300).collect();
            let _ = write!(s, ",\"s\":{}", js(&txt));
        }
        s.push('}');
        s
    }
    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(body, p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(c, env)),
            #[allow(unreachable_patterns)]
            _ => "[\"k\",{\"t\":\"bool\",\"s\":\"rtcheck\"}]".to_string(),
        }
    }
    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(body, o, env)),
            Rvalue::Repeat(o, n) => format!(
                "[\"rep\",{},{}]",
                self.operand(body, o, env),
                js(&with_no_trimmed_paths!(format!("{}", n)))
            ),
            Rvalue::Ref(_, k, p) => format!(
                "[\"ref\",{},{}]",
                if matches!(k, BorrowKind::Mut { .. }) { 1 } else { 0 },
                self.place(body, p)
            ),
            Rvalue::RawPtr(k, p) => format!(
                "[\"ref\",{},{}]",
                if matches!(k, RawPtrKind::Mut) { 1 } else { 0 },
                self.place(body, p)
            ),
            Rvalue::Cast(k, o, t) => format!(
                "[\"cast\",{},{},{}]",
                js(&format!("{:?}", k)),
                self.operand(body, o, env),
                js(&self.ty(*t))
            ),
            Rvalue::BinaryOp(op, ab) => format!(
                "[\"bin\",\"{:?}\",{},{}]",
                op,
                self.operand(body, &ab.0, env),
                self.operand(body, &ab.1, env)
            ),
            Rvalue::UnaryOp(op, a) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(body, a, env)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                self.note_adt(t);
                let tn = match t.kind() {
                    ty::Adt(d, _) => self.path(d.did()),
                    _ => self.ty(t),
                };
                format!("[\"discr\",{},{}]", self.place(body, p), js(&tn))
            }
            Rvalue::Aggregate(k, ops) => {
                let kk = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(did, v, _, _, fld) => {
                        let def = self.tcx.adt_def(*did);
                        let t = self.tcx.type_of(*did).instantiate_identity().skip_norm_wip();
                        self.note_adt(t);
                        let vd = def.variant(*v);
                        let mut fs = vec![];
                        match fld {
                            Some(f) => fs.push(js(vd.fields[*f].name.as_str())),
                            None => {
                                for f in vd.fields.iter() {
                                    fs.push(js(f.name.as_str()))
                                }
                            }
                        }
                        format!(
                            "[\"adt\",{},{},[{}]]",
                            js(&self.path(*did)),
                            js(if def.is_enum() { vd.name.as_str() } else { "" }),
                            fs.join(",")
                        )
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", js(&self.path(*d))),
                    other => format!("[\"other\",{}]", js(&format!("{:?}", other))),
                };
                let o: Vec<String> = ops.iter().map(|o| self.operand(body, o, env)).collect();
                format!("[\"agg\",{},[{}]]", kk, o.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(body, p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", js(&self.path(*d))),
            #[allow(unreachable_patterns)]
            other => format!("[\"other\",{}]", js(&format!("{:?}", other))),
        }
    }
    fn body_json(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let mut s = String::new();
        let _ = write!(s, "\"argc\":{},\"locals\":[", body.arg_count);
        for (i, l) in body.local_decls.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            self.note_adt(l.ty.peel_refs());
            s.push_str(&js(&self.ty(l.ty)));
        }
        s.push_str("],\"vars\":[");
        let mut first = true;
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if !first {
                    s.push(',');
                }
                first = false;
                let _ = write!(s, "[{},{}]", js(v.name.as_str()), self.place(body, p));
            }
        }
        s.push_str("],\"bb\":[");
        for (i, bb) in body.basic_blocks.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            s.push_str("{");
            if bb.is_cleanup {
                s.push_str("\"u\":1,");
            }
            s.push_str("\"s\":[");
            let mut first = true;
            for st in &bb.statements {
                let t = match &st.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        format!(
                            "[\"=\",{},{},{}]",
                            self.place(body, p),
                            self.rvalue(body, r, env),
                            self.line(st.source_info.span)
                        )
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => format!(
                        "[\"sd\",{},{}]",
                        self.place(body, place),
                        variant_index.as_u32()
                    ),
                    StatementKind::StorageDead(l) => format!("[\"x\",{}]", l.as_u32()),
                    _ => continue,
                };
                if !first {
                    s.push(',');
                }
                first = false;
                s.push_str(&t);
            }
            s.push_str("],\"t\":");
            let term = bb.terminator();
            let ln = self.line(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(body, self.tcx);
                    let mut arms = vec![];
                    for (v, b) in targets.iter() {
                        arms.push(format!("[\"{}\",{}]", v, b.as_u32()));
                    }
                    format!(
                        "[\"sw\",{},{},[{}],{},{}]",
                        self.operand(body, discr, env),
                        js(&self.ty(dt)),
                        arms.join(","),
                        targets.otherwise().as_u32(),
                        ln
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(body, self.tcx).ty;
                    format!(
                        "[\"drop\",{},{},{}]",
                        self.place(body, place),
                        target.as_u32(),
                        js(&self.ty(t))
                    )
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func {
                        Operand::Constant(c) => self.konst(c, env),
                        o => format!("{{\"ind\":{}}}", self.operand(body, o, env)),
                    };
                    let a: Vec<String> = args.iter().map(|a| self.operand(body, &a.node, env)).collect();
                    format!(
                        "[\"call\",{},[{}],{},{},{}]",
                        f,
                        a.join(","),
                        self.place(body, destination),
                        target.map(|b| b.as_u32() as i64).unwrap_or(-1),
                        ln
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertKind::OverflowNeg(..) => "overflow:Neg".to_string(),
                        AssertKind::DivisionByZero(..) => "div0".to_string(),
                        AssertKind::RemainderByZero(..) => "rem0".to_string(),
                        _ => "other".to_string(),
                    };
                    format!(
                        "[\"assert\",{},{},\"{}\",{},{}]",
                        self.operand(body, cond, env),
                        expected,
                        kind,
                        target.as_u32(),
                        ln
                    )
                }
                TerminatorKind::Unreachable => "[\"unreach\"]".to_string(),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".to_string(),
                other => format!("[\"other\",{}]", js(&format!("{:?}", other))),
            };
            s.push_str(&t);
            s.push('}');
        }
        s.push(']');
        s
    }
}

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let kind = if tcx.entry_fn(()).is_some() { "bin" } else { "lib" };
        let mut cx = Cx { tcx, adts: BTreeMap::new() };
        let mut lines: Vec<String> = vec![];
        for ld in tcx.hir_body_owners() {
            let did = ld.to_def_id();
            let dk = tcx.def_kind(did);
            let mut bodies: Vec<(String, &Body<'tcx>)> = vec![];
            match dk {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    let b = tcx.optimized_mir(did);
                    bodies.push((String::new(), b));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    if tcx.generics_of(did).own_requires_monomorphization() && false {
                        continue;
                    }
                    let b = tcx.mir_for_ctfe(did);
                    bodies.push((String::new(), b));
                }
                _ => continue,
            }
            let promoted = tcx.promoted_mir(did);
            for (i, p) in promoted.iter_enumerated() {
                bodies.push((format!("#prom{}", i.as_u32()), p));
            }
            let env = TypingEnv::post_analysis(tcx, did);
            for (suffix, b) in bodies {
                let mut s = String::new();
                let (file, line) = cx.span(tcx.def_span(did));
                let _ = write!(
                    s,
                    "{{\"id\":{},\"kind\":{},\"file\":{},\"line\":{}",
                    js(&format!("{}{}", cx.path(did), suffix)),
                    js(&format!("{:?}", dk)),
                    js(&file),
                    line
                );
                let hi = tcx.sess.source_map().lookup_char_pos(tcx.hir_span_with_body(tcx.local_def_id_to_hir_id(ld)).hi()).line;
                let _ = write!(s, ",\"end\":{}", hi);
                if tcx.def_span(did).from_expansion() {
                    s.push_str(",\"mac\":1");
                }
                if dk == DefKind::Closure {
                    let _ = write!(s, ",\"parent\":{}", js(&cx.path(tcx.typeck_root_def_id(did))));
                }
                if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
                    let vis = tcx.visibility(did);
                    let _ = write!(s, ",\"pub\":{}", if vis.is_public() { 1 } else { 0 });
                    if let Some(assoc) = tcx.opt_associated_item(did) {
                        let cont = assoc.container_id(tcx);
                        match tcx.def_kind(cont) {
                            DefKind::Impl { of_trait } => {
                                let st = tcx.type_of(cont).instantiate_identity().skip_norm_wip();
                                cx.note_adt(st);
                                let _ = write!(s, ",\"self\":{}", js(&cx.ty(st)));
                                if of_trait {
                                    let tr = tcx.impl_trait_ref(cont).instantiate_identity().skip_norm_wip();
                                    let _ = write!(s, ",\"trait\":{},\"traitref\":{}", js(&cx.path(tr.def_id)), js(&with_no_trimmed_paths!(format!("{}", tr))));
                                    if let Some(ti) = assoc.trait_item_def_id() {
                                        let _ = write!(s, ",\"item\":{}", js(&cx.path(ti)));
                                    }
                                }
                            }
                            DefKind::Trait => {
                                let _ = write!(s, ",\"in_trait\":{}", js(&cx.path(cont)));
                            }
                            _ => {}
                        }
                    }
                }
                s.push(',');
                s.push_str(&cx.body_json(b, env));
                s.push('}');
                lines.push(s);
            }
        }
        let f = format!("{}/{}-{}.jsonl", self.out, krate, kind);
        let tmp = format!("{}.tmp{}", f, std::process::id());
        let mut w = std::io::BufWriter::new(std::fs::File::create(&tmp).unwrap());
        for (_, a) in &cx.adts {
            if !a.is_empty() {
                writeln!(w, "{}", a).unwrap();
            }
        }
        for l in &lines {
            writeln!(w, "{}", l).unwrap();
        }
        w.flush().unwrap();
        drop(w);
        std::fs::rename(&tmp, &f).unwrap();
        Compilation::Continue
    }
}

struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let out = std::env::var("AXFACTS_OUT").ok();
    let is_crate = args.iter().any(|a| a == "--crate-name") && !args.iter().any(|a| a == "--print" || a.starts_with("--print="));
    let build_script = args.iter().any(|a| a.starts_with("build_script"));
    match out {
        Some(out) if is_crate && !build_script => {
            args.push("-Zmir-opt-level=0".into());
            args.push("-Coverflow-checks=on".into());
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
        }
        _ => rustc_driver::compiler_entrypoint(&args, &mut Plain),
    }
}
