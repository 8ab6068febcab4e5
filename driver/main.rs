// MIR extractor: runs the nightly compiler front end on the crate and writes, as JSON,
// the MIR of every body together with resolved callees, type definitions and impls.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_type_ir;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                write!(o, "\\u{:04x}", c as u32).unwrap();
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    format!("[{}]", it.into_iter().collect::<Vec<_>>().join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: HashSet<DefId>,
    adt_todo: Vec<DefId>,
    const_bodies: Vec<DefId>,
    const_seen: HashSet<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let p = self.tcx.def_path_str(d);
        if d.is_local() {
            format!("crate::{}", p)
        } else {
            p
        }
    }
    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = a
            .iter()
            .filter_map(|x| {
                if let Some(t) = x.as_type() {
                    Some(self.ty(t))
                } else {
                    x.as_const().map(|c| format!("{{\"k\":\"const\",\"s\":{}}}", q(&format!("{:?}", c))))
                }
            })
            .collect();
        arr(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> String {
        use rustc_type_ir::TyKind::*;
        match t.kind() {
            Bool => "{\"k\":\"bool\"}".into(),
            Char => "{\"k\":\"char\"}".into(),
            Int(i) => format!("{{\"k\":\"int\",\"n\":{}}}", q(i.name_str())),
            Uint(i) => format!("{{\"k\":\"int\",\"n\":{}}}", q(i.name_str())),
            Float(_) => "{\"k\":\"float\"}".into(),
            Str => "{\"k\":\"str\"}".into(),
            Never => "{\"k\":\"never\"}".into(),
            Adt(d, a) => {
                let did = d.did();
                if self.adts.insert(did) {
                    self.adt_todo.push(did);
                }
                let p = self.path(did);
                let a = self.args(a);
                format!("{{\"k\":\"adt\",\"p\":{},\"a\":{}}}", q(&p), a)
            }
            Array(e, n) => {
                let e = self.ty(*e);
                let n = n.try_to_target_usize(self.tcx);
                format!("{{\"k\":\"array\",\"e\":{},\"n\":{}}}", e, n.map(|x| x.to_string()).unwrap_or("null".into()))
            }
            Slice(e) => {
                let e = self.ty(*e);
                format!("{{\"k\":\"slice\",\"e\":{}}}", e)
            }
            RawPtr(e, _) => {
                let e = self.ty(*e);
                format!("{{\"k\":\"ptr\",\"e\":{}}}", e)
            }
            Ref(_, e, m) => {
                let e = self.ty(*e);
                format!("{{\"k\":\"ref\",\"e\":{},\"m\":{}}}", e, m.is_mut())
            }
            FnDef(d, a) => {
                let did = *d;
                let a = a.skip_binder();
                let p = self.path(did);
                let a = self.args(a);
                format!("{{\"k\":\"fndef\",\"p\":{},\"a\":{}}}", q(&p), a)
            }
            FnPtr(..) => "{\"k\":\"fnptr\"}".into(),
            Closure(d, a) => {
                let did = *d;
                let p = self.path(did);
                let kind = format!("{:?}", a.as_closure().kind_ty());
                format!("{{\"k\":\"closure\",\"p\":{},\"ck\":{}}}", q(&p), q(&kind))
            }
            Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x)).collect();
                format!("{{\"k\":\"tuple\",\"a\":{}}}", arr(v))
            }
            Param(p) => format!("{{\"k\":\"param\",\"n\":{}}}", q(p.name.as_str())),
            Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{}}}", q(&format!("{:?}", t))),
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", q(&format!("{:?}", t))),
        }
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![p.local.as_usize().to_string()];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"d\"]".into(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_usize(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, v) => format!("[\"v\",{}]", v.as_usize()),
                _ => "[\"?\"]".into(),
            });
        }
        arr(v)
    }

    fn operand(&mut self, o: &Operand<'tcx>, te: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(p)),
            Operand::Constant(c) => {
                let s = self.konst(&c.const_, te);
                format!("[\"const\",{}]", s)
            }
            _ => "[\"rtcheck\"]".into(),
        }
    }

    fn bytes(&self, id: interpret::AllocId, off: u64, len: Option<u64>) -> Option<String> {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let tot = a.len() as u64;
                let end = len.map(|l| off + l).unwrap_or(tot).min(tot);
                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..end as usize);
                Some(arr(b.iter().map(|x| x.to_string())))
            }
            _ => None,
        }
    }

    fn konst(&mut self, c: &Const<'tcx>, te: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let ts = self.ty(t);
        if let ty::FnDef(d, a) = t.kind() {
            return self.fndef(*d, a.skip_binder(), te);
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                return format!("{{\"k\":\"promoted\",\"of\":{},\"i\":{},\"t\":{}}}", q(&self.path(u.def)), p.as_usize(), ts);
            }
        }
        let mut item = String::new();
        if let Const::Unevaluated(u, _) = c {
            item = format!(",\"item\":{}", q(&self.path(u.def)));
            let prim = matches!(t.kind(), ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_));
            if u.def.is_local() && !prim {
                if self.const_seen.insert(u.def) {
                    self.const_bodies.push(u.def);
                }
                return format!("{{\"k\":\"item\",\"t\":{}{}}}", ts, item);
            }
        }
        let v = match c.eval(tcx, te, rustc_span::DUMMY_SP) {
            Ok(v) => v,
            Err(_) => return format!("{{\"k\":\"opaque\",\"t\":{},\"s\":{}{}}}", ts, q(&format!("{:?}", c)), item),
        };
        match v {
            ConstValue::ZeroSized => format!("{{\"k\":\"zst\",\"t\":{}{}}}", ts, item),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let size = i.size();
                let val = match t.kind() {
                    ty::Int(_) => i.to_int(size).to_string(),
                    _ => i.to_uint(size).to_string(),
                };
                format!("{{\"k\":\"int\",\"v\":{},\"t\":{}{}}}", val, ts, item)
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                let b = self.bytes(prov.alloc_id(), off.bytes(), None);
                match b {
                    Some(b) => format!("{{\"k\":\"bytes\",\"b\":{},\"t\":{}{}}}", b, ts, item),
                    None => format!("{{\"k\":\"opaque\",\"t\":{}{}}}", ts, item),
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                let b = self.bytes(alloc_id, 0, Some(meta)).unwrap_or("[]".into());
                format!("{{\"k\":\"bytes\",\"b\":{},\"t\":{}{}}}", b, ts, item)
            }
            ConstValue::Indirect { alloc_id, offset } => {
                let b = self.bytes(alloc_id, offset.bytes(), None).unwrap_or("[]".into());
                format!("{{\"k\":\"mem\",\"b\":{},\"t\":{}{}}}", b, ts, item)
            }
        }
    }

    fn fndef(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>, te: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let p = self.path(d);
        let aj = self.args(a);
        let mut extra = String::new();
        if let Some(tr) = tcx.trait_of_assoc(d) {
            extra += &format!(",\"trait\":{},\"m\":{}", q(&self.path(tr)), q(tcx.item_name(d).as_str()));
            if a.types().next().is_some() {
                let st = self.ty(a.type_at(0));
                extra += &format!(",\"self\":{}", st);
            }
        } else if let Some(im) = tcx.inherent_impl_of_assoc(d) {
            let st = self.ty(tcx.type_of(im).instantiate(tcx, a).skip_norm_wip());
            extra += &format!(",\"m\":{},\"self\":{}", q(tcx.item_name(d).as_str()), st);
        }
        let a2 = tcx.erase_and_anonymize_regions(a);
        if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, te, d, a2) {
            let rd = inst.def_id();
            if rd != d {
                let k = format!("{:?}", inst.def);
                let k = k.split('(').next().unwrap_or("").to_string();
                extra += &format!(",\"r\":{},\"rk\":{}", q(&self.path(rd)), q(&k));
            }
        }
        let loc = d.is_local();
        format!("{{\"k\":\"fn\",\"p\":{},\"a\":{},\"local\":{}{}}}", q(&p), aj, loc, extra)
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, te: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, te)),
            Rvalue::Repeat(o, n) => {
                let o = self.operand(o, te);
                let n = n.try_to_target_usize(self.tcx);
                format!("[\"repeat\",{},{}]", o, n.map(|x| x.to_string()).unwrap_or("null".into()))
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let o = self.operand(o, te);
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{}]", q(&format!("{:?}", k)), o, t)
            }
            Rvalue::BinaryOp(op, b) => {
                let x = self.operand(&b.0, te);
                let y = self.operand(&b.1, te);
                format!("[\"bin\",{},{},{}]", q(&format!("{:?}", op)), x, y)
            }
            Rvalue::UnaryOp(op, o) => {
                let x = self.operand(o, te);
                format!("[\"un\",{},{}]", q(&format!("{:?}", op)), x)
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o, te)).collect();
                let k = match &**k {
                    AggregateKind::Array(_) => "{\"k\":\"array\"}".to_string(),
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".to_string(),
                    AggregateKind::Adt(d, v, a, _, _) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, a).skip_norm_wip();
                        let ts = self.ty(t);
                        format!("{{\"k\":\"adt\",\"p\":{},\"v\":{},\"t\":{}}}", q(&self.path(*d)), v.as_usize(), ts)
                    }
                    AggregateKind::Closure(d, _) => format!("{{\"k\":\"closure\",\"p\":{}}}", q(&self.path(*d))),
                    o => format!("{{\"k\":\"other\",\"s\":{}}}", q(&format!("{:?}", o))),
                };
                format!("[\"agg\",{},{}]", k, arr(v))
            }
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", q(&self.path(*d))),
            o => format!("[\"other\",{}]", q(&format!("{:?}", o))),
        }
    }

    fn body(&mut self, path: &str, b: &Body<'tcx>, te: TypingEnv<'tcx>, meta: &str) -> String {
        let sm = self.tcx.sess.source_map();
        let locals: Vec<String> = b.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        let mut upnames: BTreeMap<usize, String> = BTreeMap::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                } else if p.local.as_usize() == 1 {
                    for e in p.projection.iter() {
                        if let ProjectionElem::Field(f, _) = e {
                            upnames.insert(f.as_usize(), v.name.to_string());
                            break;
                        }
                    }
                }
            }
        }
        let line = |sp: rustc_span::Span| -> usize { sm.lookup_char_pos(sp.source_callsite().lo()).line };
        let mut blocks = Vec::new();
        for bb in b.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push("null".to_string());
                continue;
            }
            let mut ss = Vec::new();
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rvalue(&a.1, te);
                        ss.push(format!("[\"=\",{},{},{}]", p, r, line(s.source_info.span)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        ss.push(format!("[\"sd\",{},{}]", p, variant_index.as_usize()));
                    }
                    StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{}]", l.as_usize())),
                    StatementKind::Intrinsic(i) => ss.push(format!("[\"intr\",{}]", q(&format!("{:?}", i)))),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = line(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr, te);
                    let ty = discr.ty(&b.local_decls, self.tcx);
                    let signed = matches!(ty.kind(), ty::Int(_));
                    let size = self.tcx.layout_of(te.as_query_input(ty)).map(|l| l.size).ok();
                    let v: Vec<String> = targets
                        .iter()
                        .map(|(x, bb)| {
                            let x = if signed && size.is_some() {
                                size.unwrap().sign_extend(x).to_string()
                            } else {
                                x.to_string()
                            };
                            format!("[{},{}]", x, bb.as_usize())
                        })
                        .collect();
                    let tys = self.ty(ty);
                    format!("[\"switch\",{},{},{},{}]", d, arr(v), targets.otherwise().as_usize(), tys)
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(place), target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, te);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, te)).collect();
                    let d = self.place(destination);
                    format!(
                        "[\"call\",{},{},{},{}]",
                        f,
                        arr(a),
                        d,
                        target.map(|x| x.as_usize().to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, te);
                    let m = format!("{:?}", msg);
                    format!("[\"assert\",{},{},{},{}]", c, expected, q(&m), target.as_usize())
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                o => format!("[\"other\",{}]", q(&format!("{:?}", o))),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"l\":{}}}", arr(ss), tj, ln));
        }
        let loc = sm.lookup_char_pos(b.span.lo());
        let end = sm.lookup_char_pos(b.span.hi());
        let file = format!("{}", loc.file.name.prefer_local_unconditionally());
        let nm: Vec<String> = names.iter().map(|(k, v)| format!("\"{}\":{}", k, q(v))).collect();
        let un: Vec<String> = upnames.iter().map(|(k, v)| format!("\"{}\":{}", k, q(v))).collect();
        format!(
            "{{\"path\":{},\"argc\":{},\"locals\":{},\"names\":{{{}}},\"upnames\":{{{}}},\"blocks\":{},\"file\":{},\"line\":{},\"endline\":{}{}}}",
            q(path),
            b.arg_count,
            arr(locals),
            nm.join(","),
            un.join(","),
            arr(blocks),
            q(&file),
            loc.line,
            end.line,
            meta
        )
    }
}

struct Dump {
    out: String,
}

impl Callbacks for Dump {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx { tcx, adts: HashSet::new(), adt_todo: vec![], const_bodies: vec![], const_seen: HashSet::new() };
        let mut bodies = Vec::new();
        for &ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            if !is_fn {
                if matches!(kind, DefKind::Static { .. } | DefKind::Const { .. }) && cx.const_seen.insert(d) {
                    cx.const_bodies.push(d);
                }
                continue;
            }
            let te = TypingEnv::post_analysis(tcx, d);
            let mut meta = format!(",\"kind\":{}", q(&format!("{:?}", kind)));
            if kind != DefKind::Closure {
                let vis = tcx.visibility(d).is_public();
                meta += &format!(",\"pub\":{},\"name\":{}", vis, q(tcx.item_name(d).as_str()));
                let imp = tcx.trait_impl_of_assoc(d).or(tcx.inherent_impl_of_assoc(d));
                if let Some(im) = imp {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    let sts = cx.ty(st);
                    meta += &format!(",\"self\":{}", sts);
                    if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        let a = cx.args(tr.args);
                        meta += &format!(",\"trait\":{},\"targs\":{}", q(&cx.path(tr.def_id)), a);
                    }
                } else if let Some(tr) = tcx.trait_of_assoc(d) {
                    meta += &format!(",\"intrait\":{}", q(&cx.path(tr)));
                }
            }
            let b = tcx.optimized_mir(d);
            let p = cx.path(d);
            let proms = tcx.promoted_mir(d);
            let pv: Vec<String> = proms
                .iter_enumerated()
                .map(|(i, pb)| cx.body(&format!("{}#p{}", p, i.as_usize()), pb, te, ""))
                .collect();
            meta += &format!(",\"promoted\":{}", arr(pv));
            bodies.push(cx.body(&p, b, te, &meta));
        }
        let mut i = 0;
        let mut consts = Vec::new();
        while i < cx.const_bodies.len() {
            let d = cx.const_bodies[i];
            i += 1;
            let te = TypingEnv::post_analysis(tcx, d);
            let b = tcx.mir_for_ctfe(d);
            let p = cx.path(d);
            let proms = tcx.promoted_mir(d);
            let pv: Vec<String> = proms
                .iter_enumerated()
                .map(|(i, pb)| cx.body(&format!("{}#p{}", p, i.as_usize()), pb, te, ""))
                .collect();
            let meta = format!(",\"kind\":\"const\",\"promoted\":{}", arr(pv));
            consts.push(cx.body(&p, b, te, &meta));
        }
        let mut adts = Vec::new();
        let mut n = 0;
        while n < cx.adt_todo.len() {
            let d = cx.adt_todo[n];
            n += 1;
            let def = tcx.adt_def(d);
            // describe crate types and the small std enums/structs by their fields
            let local = d.is_local();
            let p = cx.path(d);
            let mut vs = Vec::new();
            if local || def.is_enum() || p.starts_with("std::ops::Range") || p.starts_with("core::ops::Range") {
                for (vi, v) in def.variants().iter_enumerated() {
                    let fs: Vec<String> = v
                        .fields
                        .iter()
                        .map(|f| {
                            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            format!("[{},{}]", q(f.name.as_str()), cx.ty(t))
                        })
                        .collect();
                    let dv = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
                    vs.push(format!("{{\"n\":{},\"f\":{},\"d\":{}}}", q(v.name.as_str()), arr(fs), dv));
                }
            }
            let gens: Vec<String> =
                tcx.generics_of(d).own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. })).map(|p| q(p.name.as_str())).collect();
            adts.push(format!(
                "{}:{{\"enum\":{},\"local\":{},\"gens\":{},\"v\":{}}}",
                q(&p),
                def.is_enum(),
                local,
                arr(gens),
                arr(vs)
            ));
        }
        let s = format!("{{\"bodies\":{},\"consts\":{},\"adts\":{{{}}}}}", arr(bodies), arr(consts), adts.join(","));
        std::fs::write(&self.out, s).unwrap();
        Compilation::Stop
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    let out = args.remove(1);
    let _ = rustc_driver::catch_with_exit_code(|| {
        rustc_driver::compiler_entrypoint(&args, &mut Dump { out });
    });
}
