#![feature(rustc_private)]
// MIR fact extractor: run as RUSTC_WRAPPER. For workspace crates (names in
// MIRFACTS_CRATES) it compiles with the real flags and dumps every body as JSON
// to MIRFACTS_OUT/<crate>.json; for every other crate it execs rustc unchanged.
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, print::with_no_trimmed_paths, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::fmt::Write as _;

struct J(String);
fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
impl J {
    fn obj(parts: Vec<(&str, String)>) -> String {
        let mut s = String::from("{");
        for (i, (k, v)) in parts.into_iter().enumerate() {
            if i > 0 { s.push(','); }
            s.push_str(&esc(k));
            s.push(':');
            s.push_str(&v);
        }
        s.push('}');
        s
    }
    fn arr(parts: Vec<String>) -> String {
        format!("[{}]", parts.join(","))
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    ext: VecDeque<DefId>,
    seen: BTreeSet<String>,
    adts: BTreeMap<String, String>,
}

fn key(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}

fn span_json(tcx: TyCtxt<'_>, sp: Span) -> String {
    let sp = sp.source_callsite();
    let loc = tcx.sess.source_map().lookup_char_pos(sp.lo());
    let f = format!("{}", loc.file.name.prefer_local_unconditionally());
    J::arr(vec![esc(&f), loc.line.to_string()])
}

impl<'tcx> Cx<'tcx> {
    fn tystr(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(t.to_string())
    }
    fn note_adt(&mut self, t: Ty<'tcx>) {
        if let ty::Adt(def, _) = t.kind() {
            let k = key(self.tcx, def.did());
            if self.adts.contains_key(&k) { return; }
            let mut vs = vec![];
            for (vi, v) in def.variants().iter_enumerated() {
                let discr = if def.is_enum() {
                    format!("{}", def.discriminant_for_variant(self.tcx, vi).val)
                } else { "0".into() };
                let fs = v.fields.iter().map(|f| {
                    let ft = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    J::arr(vec![esc(f.name.as_str()), esc(&self.tystr(ft))])
                }).collect();
                vs.push(J::obj(vec![("name", esc(v.name.as_str())), ("discr", esc(&discr)), ("fields", J::arr(fs))]));
            }
            let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
            let v = J::obj(vec![("kind", esc(kind)), ("variants", J::arr(vs)), ("name", esc(&with_no_trimmed_paths!(self.tcx.def_path_str(def.did()))))]);
            self.adts.insert(k, v);
        }
    }
    fn ty_json(&mut self, t: Ty<'tcx>) -> String {
        self.note_adt(t);
        let mut inner = t;
        let mut refs = 0;
        while let ty::Ref(_, x, _) = inner.kind() { inner = *x; refs += 1; }
        self.note_adt(inner);
        let mut parts = vec![("s", esc(&self.tystr(t)))];
        if refs > 0 { parts.push(("refs", refs.to_string())); }
        match inner.kind() {
            ty::Adt(def, args) => {
                parts.push(("adt", esc(&key(self.tcx, def.did()))));
                let ts: Vec<Ty<'tcx>> = args.types().collect();
                parts.push(("args", J::arr(ts.iter().map(|x| esc(&self.tystr(*x))).collect())));
            }
            ty::Closure(d, _) => parts.push(("closure", esc(&key(self.tcx, *d)))),
            ty::FnDef(d, _) => parts.push(("fndef", esc(&key(self.tcx, *d)))),
            ty::Dynamic(..) => parts.push(("dyn", "true".into())),
            ty::Uint(_) | ty::Bool | ty::Char => parts.push(("prim", esc("unsigned"))),
            ty::Int(_) => parts.push(("prim", esc("signed"))),
            ty::Tuple(_) => parts.push(("tuple", "true".into())),
            _ => {}
        }
        J::obj(parts)
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut projs = vec![];
        let mut pty = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::arr(vec![esc("deref")]),
                ProjectionElem::Field(f, _) => {
                    let (name, adt) = match pty.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = match pty.variant_index { Some(v) => def.variant(v), None => if def.is_enum() { def.variant(rustc_abi::VariantIdx::from_u32(0)) } else { def.non_enum_variant() } };
                            (v.fields[f].name.to_string(), key(tcx, def.did()))
                        }
                        _ => (f.as_usize().to_string(), String::new()),
                    };
                    J::arr(vec![esc("field"), f.as_usize().to_string(), esc(&name), esc(&adt)])
                }
                ProjectionElem::Downcast(n, v) => J::arr(vec![esc("downcast"), v.as_usize().to_string(), esc(&n.map(|x| x.to_string()).unwrap_or_default())]),
                ProjectionElem::Index(l) => J::arr(vec![esc("index"), l.as_usize().to_string()]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::arr(vec![esc("cindex"), offset.to_string(), from_end.to_string()]),
                ProjectionElem::Subslice { from, to, from_end } => J::arr(vec![esc("subslice"), from.to_string(), to.to_string(), from_end.to_string()]),
                _ => J::arr(vec![esc("cast")]),
            };
            projs.push(j);
            pty = pty.projection_ty(tcx, e);
        }
        J::obj(vec![("l", p.local.as_usize().to_string()), ("p", J::arr(projs))])
    }
    fn fn_json(&mut self, body_did: Option<DefId>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> Vec<(&'static str, String)> {
        let tcx = self.tcx;
        let mut v = vec![
            ("fn", esc(&key(tcx, d))),
            ("path", esc(&with_no_trimmed_paths!(tcx.def_path_str(d)))),
            ("full", esc(&with_no_trimmed_paths!(tcx.def_path_str_with_args(d, args)))),
            ("targs", J::arr(args.types().map(|x| esc(&self.tystr(x))).collect())),
        ];
        if let Some(assoc) = tcx.opt_associated_item(d) {
            let c = assoc.container_id(tcx);
            v.push(("assoc", esc(&with_no_trimmed_paths!(tcx.def_path_str(c)))));
            if matches!(tcx.def_kind(c), DefKind::Trait) {
                v.push(("trait", esc(&key(tcx, c))));
                if let Some(st) = args.types().next() {
                    v.push(("self", self.ty_json(st)));
                }
            } else if matches!(tcx.def_kind(c), DefKind::Impl { .. }) {
                let st = tcx.type_of(c).instantiate_identity().skip_norm_wip();
                v.push(("self", self.ty_json(st)));
            }
        }
        v.push(("name", esc(&tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())));
        if let Some(bd) = body_did {
            let env = TypingEnv::post_analysis(tcx, bd);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
                let rd = inst.def_id();
                v.push(("res", esc(&key(tcx, rd))));
                v.push(("reskind", esc(match inst.def { ty::InstanceKind::Item(_) => "item", ty::InstanceKind::Virtual(..) => "virtual", ty::InstanceKind::Intrinsic(_) => "intrinsic", _ => "other" })));
                v.push(("respath", esc(&with_no_trimmed_paths!(tcx.def_path_str(rd)))));
                self.ext.push_back(rd);
            }
        }
        self.ext.push_back(d);
        v
    }
    fn constant(&mut self, did: DefId, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut v = vec![("c", esc(&with_no_trimmed_paths!(format!("{}", c.const_)))), ("ty", self.ty_json(t))];
        match t.kind() {
            ty::FnDef(d, args) => {
                let f = self.fn_json(Some(did), *d, args.no_bound_vars().unwrap_or_else(|| tcx.mk_args(&[])));
                v.push(("fndef", J::obj(f)));
            }
            _ => {}
        }
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                v.push(("promoted", J::arr(vec![esc(&key(tcx, u.def)), p.as_usize().to_string()])));
            } else {
                v.push(("named", esc(&key(tcx, u.def))));
                self.ext.push_back(u.def);
            }
        }
        let env = TypingEnv::post_analysis(tcx, did);
        if t.is_integral() || t.is_bool() || t.is_char() {
            if let Some(b) = c.const_.try_eval_bits(tcx, env) {
                let mut s = b.to_string();
                if t.is_signed() {
                    if let Some(sz) = c.const_.try_eval_scalar_int(tcx, env) {
                        s = sz.to_int(sz.size()).to_string();
                    }
                }
                v.push(("int", esc(&s)));
            }
        }
        if let ty::Ref(_, inner, _) = t.kind() {
            if inner.is_str() {
                if let Ok(val) = c.const_.eval(tcx, env, c.span) {
                    if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                        v.push(("str", esc(&String::from_utf8_lossy(b))));
                    }
                }
            }
        }
        J::obj(v)
    }
    fn operand(&mut self, did: DefId, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => J::obj(vec![("cp", self.place(body, p))]),
            Operand::Move(p) => J::obj(vec![("mv", self.place(body, p))]),
            Operand::Constant(c) => J::obj(vec![("k", self.constant(did, c))]),
            _ => J::obj(vec![("o", esc(&format!("{:?}", o)))]),
        }
    }
    fn rvalue(&mut self, did: DefId, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => J::arr(vec![esc("use"), self.operand(did, body, o)]),
            Rvalue::Repeat(o, n) => J::arr(vec![esc("repeat"), self.operand(did, body, o), esc(&format!("{}", n))]),
            Rvalue::Ref(_, bk, p) => J::arr(vec![esc("ref"), esc(if matches!(bk, BorrowKind::Mut { .. }) { "mut" } else { "shr" }), self.place(body, p)]),
            Rvalue::RawPtr(_, p) => J::arr(vec![esc("ref"), esc("raw"), self.place(body, p)]),
            Rvalue::Cast(k, o, t) => J::arr(vec![esc("cast"), esc(&format!("{:?}", k)), self.operand(did, body, o), self.ty_json(*t)]),
            Rvalue::BinaryOp(op, b) => J::arr(vec![esc("bin"), esc(&format!("{:?}", op)), self.operand(did, body, &b.0), self.operand(did, body, &b.1)]),
            Rvalue::UnaryOp(op, o) => J::arr(vec![esc("un"), esc(&format!("{:?}", op)), self.operand(did, body, o)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                J::arr(vec![esc("discr"), self.place(body, p), self.ty_json(t)])
            }
            Rvalue::Aggregate(k, ops) => {
                let kind = match &**k {
                    AggregateKind::Array(_) => J::arr(vec![esc("array")]),
                    AggregateKind::Tuple => J::arr(vec![esc("tuple")]),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        let t = r.ty(body, self.tcx);
                        self.note_adt(t);
                        J::arr(vec![esc("adt"), esc(&key(self.tcx, *d)), vi.as_usize().to_string(), esc(def.variant(*vi).name.as_str()), J::arr(def.variant(*vi).fields.iter().map(|f| esc(f.name.as_str())).collect())])
                    }
                    AggregateKind::Closure(d, _) => J::arr(vec![esc("closure"), esc(&key(self.tcx, *d))]),
                    other => J::arr(vec![esc("other"), esc(&format!("{:?}", other))]),
                };
                let os = ops.iter().map(|o| self.operand(did, body, o)).collect();
                J::arr(vec![esc("agg"), kind, J::arr(os)])
            }
            Rvalue::CopyForDeref(p) => J::arr(vec![esc("use"), J::obj(vec![("cp", self.place(body, p))])]),
            other => J::arr(vec![esc("other"), esc(&format!("{:?}", other))]),
        }
    }
    fn body_json(&mut self, did: DefId, body: &Body<'tcx>) -> Vec<(&'static str, String)> {
        let tcx = self.tcx;
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        let mut upvars = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                } else {
                    upvars.push(J::arr(vec![esc(v.name.as_str()), self.place(body, p)]));
                }
            }
        }
        let locals: Vec<String> = body.local_decls.iter_enumerated().map(|(l, d)| {
            let mut v = vec![("ty", self.ty_json(d.ty))];
            if let Some(n) = names.get(&l.as_usize()) { v.push(("n", esc(n))); }
            J::obj(v)
        }).collect();
        let mut blocks = vec![];
        for (_bb, b) in body.basic_blocks.iter_enumerated() {
            if b.is_cleanup { blocks.push("null".to_string()); continue; }
            let mut st = vec![];
            for s in &b.statements {
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let (p, r) = &**x;
                        st.push(J::arr(vec![self.place(body, p), self.rvalue(did, body, r), span_json(tcx, s.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::arr(vec![self.place(body, place), J::arr(vec![esc("setdiscr"), variant_index.as_usize().to_string()]), span_json(tcx, s.source_info.span)]));
                    }
                    _ => {}
                }
            }
            let t = b.terminator();
            let sp = ("sp", span_json(tcx, t.source_info.span));
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::obj(vec![("t", esc("goto")), ("to", target.as_usize().to_string()), sp]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(body, tcx);
                    let ts = targets.iter().map(|(v, b)| J::arr(vec![esc(&v.to_string()), b.as_usize().to_string()])).collect();
                    J::obj(vec![("t", esc("switch")), ("d", self.operand(did, body, discr)), ("ty", self.ty_json(ty)), ("ts", J::arr(ts)), ("else", targets.otherwise().as_usize().to_string()), sp])
                }
                TerminatorKind::Return => J::obj(vec![("t", esc("return")), sp]),
                TerminatorKind::Unreachable => J::obj(vec![("t", esc("unreachable")), sp]),
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = place.ty(body, tcx).ty;
                    J::obj(vec![("t", esc("drop")), ("p", self.place(body, place)), ("ty", self.ty_json(ty)), ("to", target.as_usize().to_string()), sp])
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = match func {
                        Operand::Constant(c) => match c.const_.ty().kind() {
                            ty::FnDef(d, ga) => J::obj(self.fn_json(Some(did), *d, ga.no_bound_vars().unwrap_or_else(|| tcx.mk_args(&[])))),
                            _ => J::obj(vec![("fnptr", self.operand(did, body, func))]),
                        },
                        _ => J::obj(vec![("fnptr", self.operand(did, body, func))]),
                    };
                    let a = args.iter().map(|x| self.operand(did, body, &x.node)).collect();
                    let at = args.iter().map(|x| { let t = x.node.ty(body, tcx); self.ty_json(t) }).collect();
                    J::obj(vec![("t", esc("call")), ("f", f), ("a", J::arr(a)), ("at", J::arr(at)), ("d", self.place(body, destination)), ("dt", { let t = destination.ty(body, tcx).ty; self.ty_json(t) }), ("to", target.map(|x| x.as_usize().to_string()).unwrap_or("null".into())), ("sp", span_json(tcx, *fn_span))])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg { AssertKind::BoundsCheck { .. } => "bounds", AssertKind::Overflow(..) => "overflow", AssertKind::DivisionByZero(_) => "div", AssertKind::RemainderByZero(_) => "rem", _ => "other" };
                    J::obj(vec![("t", esc("assert")), ("c", self.operand(did, body, cond)), ("e", expected.to_string()), ("m", esc(m)), ("to", target.as_usize().to_string()), sp])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::obj(vec![("t", esc("goto")), ("to", real_target.as_usize().to_string()), sp]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::obj(vec![("t", esc("goto")), ("to", real_target.as_usize().to_string()), sp]),
                _ => J::obj(vec![("t", esc("stop")), sp]),
            };
            blocks.push(J::obj(vec![("s", J::arr(st)), ("t", term)]));
        }
        vec![("argc", body.arg_count.to_string()), ("locals", J::arr(locals)), ("upv", J::arr(upvars)), ("blocks", J::arr(blocks)), ("sp", span_json(tcx, body.span))]
    }
    fn dump(&mut self, did: DefId) -> Option<String> {
        let tcx = self.tcx;
        let k = key(tcx, did);
        if !self.seen.insert(k.clone()) { return None; }
        let kind = tcx.def_kind(did);
        let body: &Body<'tcx> = match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                if !tcx.is_mir_available(did) { return None; }
                if tcx.coroutine_kind(did).is_some() { return None; }
                tcx.optimized_mir(did)
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst | DefKind::Static { .. } => {
                if !did.is_local() { return None; }
                tcx.mir_for_ctfe(did)
            }
            _ => return None,
        };
        let mut v = vec![("key", esc(&k)), ("path", esc(&with_no_trimmed_paths!(tcx.def_path_str(did)))), ("kind", esc(&format!("{:?}", kind))), ("local", did.is_local().to_string())];
        v.push(("name", esc(&tcx.opt_item_name(did).map(|x| x.to_string()).unwrap_or_default())));
        if let Some(assoc) = tcx.opt_associated_item(did) {
            let c = assoc.container_id(tcx);
            if matches!(tcx.def_kind(c), DefKind::Impl { .. }) {
                let st = tcx.type_of(c).instantiate_identity().skip_norm_wip();
                v.push(("self", self.ty_json(st)));
                if let Some(tr) = tcx.impl_opt_trait_ref(c) {
                    v.push(("trait", esc(&key(tcx, tr.skip_binder().def_id))));
                }
            } else {
                v.push(("intrait", esc(&key(tcx, c))));
            }
        }
        if did.is_local() && matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            v.push(("vis", esc(&format!("{:?}", tcx.visibility(did)))));
            v.push(("eff_pub", tcx.effective_visibilities(()).is_reachable(did.expect_local()).to_string()));
        }
        v.push(("parent", esc(&key(tcx, tcx.parent(did)))));
        v.extend(self.body_json(did, body));
        let mut ps = vec![];
        if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            for p in tcx.promoted_mir(did).iter() {
                ps.push(J::obj(self.body_json(did, p)));
            }
        }
        v.push(("promoted", J::arr(ps)));
        Some(J::obj(v))
    }
}

fn want_ext(tcx: TyCtxt<'_>, d: DefId) -> bool {
    let c = tcx.crate_name(d.krate);
    let c = c.as_str();
    if c != "core" && c != "alloc" && c != "std" { return false; }
    let p = tcx.def_path(d).to_string_no_crate_verbose();
    ["::option", "::result", "::bool", "::cmp", "::mem", "::tuple", "::convert"].iter().any(|m| p.starts_with(m))
}

struct Cb { out: String }
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let mut cx = Cx { tcx, ext: VecDeque::new(), seen: BTreeSet::new(), adts: BTreeMap::new() };
        let mut bodies = vec![];
        for l in tcx.mir_keys(()).iter() {
            if let Some(b) = cx.dump(l.to_def_id()) { bodies.push(b); }
        }
        while let Some(d) = cx.ext.pop_front() {
            if d.is_local() || !want_ext(tcx, d) { continue; }
            if let Some(b) = cx.dump(d) { bodies.push(b); }
        }
        // items: structs, traits, impls
        let mut impls = vec![];
        for (tr, is) in tcx.all_local_trait_impls(()).iter() {
            for i in is {
                let st = tcx.type_of(i.to_def_id()).instantiate_identity().skip_norm_wip();
                impls.push(J::arr(vec![esc(&key(tcx, *tr)), cx.ty_json(st)]));
            }
        }
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(id.to_def_id()), DefKind::Struct | DefKind::Enum) {
                let t = tcx.type_of(id.to_def_id()).instantiate_identity().skip_norm_wip();
                cx.note_adt(t);
            }
        }
        let adts = cx.adts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
        let s = format!("{{\"crate\":{},\"bodies\":[\n{}\n],\"impls\":{},\"adts\":{{{}}}}}", esc(&name), bodies.join(",\n"), J::arr(impls), adts);
        std::fs::write(format!("{}/{}.json", self.out, name), s).unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv[1] is the rustc path
    let rustc = args.remove(1);
    let mut name = String::new();
    let mut is_build_script = false;
    for i in 0..args.len() {
        if args[i] == "--crate-name" { name = args[i + 1].clone(); }
    }
    if name.starts_with("build_script") { is_build_script = true; }
    let crates = std::env::var("MIRFACTS_CRATES").unwrap_or_default();
    let is_ws = !is_build_script && !name.is_empty() && crates.split(',').any(|c| c == name);
    if !is_ws {
        // solana_client 1.18 does not type-check under this nightly (never-type
        // fallback) and no analysed crate uses it: compile it as an empty crate.
        if name == "solana_client" {
            if let Ok(e) = std::env::var("MIRFACTS_EMPTY") {
                for a in args.iter_mut() {
                    if a.ends_with("src/lib.rs") { *a = e.clone(); }
                }
            }
        }
        use std::os::unix::process::CommandExt;
        let err = std::process::Command::new(rustc).args(&args[1..]).exec();
        panic!("exec failed: {err}");
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zinline-mir=no".into());
    args.push("-Zalways-encode-mir".into());
    args.push("-Cdebug-assertions=off".into());
    args.push("-Coverflow-checks=on".into());
    let out = std::env::var("MIRFACTS_OUT").expect("MIRFACTS_OUT");
    let mut cb = Cb { out };
    rustc_driver::compiler_entrypoint(&args, &mut cb);
}
