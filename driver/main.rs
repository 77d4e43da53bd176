// MIR dumper: a rustc driver that writes the resolved MIR of every body of a workspace crate as JSON.
// Used as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`; the analysis itself is /verif/sa/*.py.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::DefId;
use rustc_span::Span;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: Vec<DefId>,
    adtseen: HashSet<DefId>,
}

impl<'tcx> D<'tcx> {
    fn key(&self, id: DefId) -> String {
        let c = self.tcx.crate_name(id.krate);
        format!("{}{}", c, self.tcx.def_path(id).to_string_no_crate_verbose())
    }
    fn path(&self, id: DefId) -> String {
        let _g = ();
        rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(id))
    }
    fn args(&mut self, id: DefId, args: GenericArgsRef<'tcx>) -> String {
        // named generic args (types and consts)
        let tcx = self.tcx;
        let mut names: Vec<String> = vec![];
        let mut g = tcx.generics_of(id);
        let mut chain = vec![g];
        while let Some(p) = g.parent {
            g = tcx.generics_of(p);
            chain.push(g);
        }
        for g in chain.iter().rev() {
            for p in g.own_params.iter() {
                names.push(p.name.to_string());
            }
        }
        let mut out = vec![];
        for (i, a) in args.iter().enumerate() {
            let n = names.get(i).cloned().unwrap_or_default();
            match a.kind() {
                GenericArgKind::Type(t) => {
                    let t = self.ty(t);
                    out.push(format!("[{},{}]", esc(&n), t));
                }
                GenericArgKind::Const(c) => {
                    let s = self.tyconst(c);
                    out.push(format!("[{},{}]", esc(&n), s));
                }
                _ => {}
            }
        }
        list(out)
    }
    fn tyconst(&mut self, c: ty::Const<'tcx>) -> String {
        if let Some(v) = c.try_to_target_usize(self.tcx) {
            return format!("{{\"c\":{}}}", v);
        }
        match c.kind() {
            ty::ConstKind::Param(p) => format!("{{\"cp\":{}}}", esc(&p.name.to_string())),
            ty::ConstKind::Value(v) => {
                if let Some(l) = v.try_to_leaf() {
                    return format!("{{\"c\":{}}}", l.to_bits_unchecked());
                }
                format!("{{\"cs\":{}}}", esc(&format!("{:?}", c)))
            }
            _ => format!("{{\"cs\":{}}}", esc(&format!("{:?}", c))),
        }
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(String::new());
        self.tymap.insert(t, i);
        let text = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t));
        let s = match *t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(it) => format!(
                "\"k\":\"int\",\"sg\":1,\"b\":{}",
                it.bit_width().unwrap_or(self.tcx.data_layout.pointer_size().bits())
            ),
            ty::Uint(it) => format!(
                "\"k\":\"int\",\"sg\":0,\"b\":{}",
                it.bit_width().unwrap_or(self.tcx.data_layout.pointer_size().bits())
            ),
            ty::Float(f) => format!("\"k\":\"float\",\"b\":{}", f.bit_width()),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Adt(def, args) => {
                if self.adtseen.insert(def.did()) {
                    self.adts.push(def.did());
                }
                let a = self.args(def.did(), args);
                format!("\"k\":\"adt\",\"id\":{},\"p\":{},\"a\":{}", esc(&self.key(def.did())), esc(&self.path(def.did())), a)
            }
            ty::Array(e, n) => {
                let e = self.ty(e);
                let n = self.tyconst(n);
                format!("\"k\":\"array\",\"t\":{},\"n\":{}", e, n)
            }
            ty::Slice(e) => {
                let e = self.ty(e);
                format!("\"k\":\"slice\",\"t\":{}", e)
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(e);
                format!("\"k\":\"ref\",\"m\":{},\"t\":{}", m.is_mut() as u8, e)
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(e);
                format!("\"k\":\"ptr\",\"m\":{},\"t\":{}", m.is_mut() as u8, e)
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"ts\":{}", list(v))
            }
            ty::FnDef(id, args) => {
                let args = args.skip_binder();
                let r = self.fnref(id, args, None);
                format!("\"k\":\"fndef\",\"f\":{}", r)
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Closure(id, args) => {
                let up: Vec<Ty<'tcx>> = args.as_closure().upvar_tys().iter().collect();
                let v: Vec<String> = up.iter().map(|x| self.ty(*x).to_string()).collect();
                format!("\"k\":\"closure\",\"id\":{},\"up\":{}", esc(&self.key(id)), list(v))
            }
            ty::Param(p) => format!("\"k\":\"param\",\"n\":{}", esc(&p.name.to_string())),
            ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            ty::Alias(..) => "\"k\":\"alias\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.types[i] = format!("{{{},\"s\":{}}}", s, esc(&text));
        i
    }
    fn fnref(&mut self, id: DefId, args: GenericArgsRef<'tcx>, tenv: Option<TypingEnv<'tcx>>) -> String {
        let tcx = self.tcx;
        let mut s = format!(
            "{{\"id\":{},\"p\":{},\"n\":{},\"a\":{}",
            esc(&self.key(id)),
            esc(&self.path(id)),
            esc(tcx.opt_item_name(id).map(|x| x.to_string()).unwrap_or_default().as_str()),
            self.args(id, args)
        );
        if let Some((p, k)) = tcx.assoc_parent(id) {
            match k {
                DefKind::Trait => {
                    let _ = write!(s, ",\"tr\":{},\"trid\":{}", esc(&self.path(p)), esc(&self.key(p)));
                }
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    let st = self.ty(st);
                    let _ = write!(s, ",\"implty\":{}", st);
                }
                _ => {}
            }
        }
        if let Some(te) = tenv {
            if matches!(tcx.def_kind(id), DefKind::Fn | DefKind::AssocFn) {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let args = tcx.erase_and_anonymize_regions(args);
                    Instance::try_resolve(tcx, te, id, args)
                }));
                if let Ok(Ok(Some(inst))) = r {
                    let rid = inst.def_id();
                    if rid != id {
                        let a = self.args(rid, inst.args);
                        let _ = write!(s, ",\"r\":{{\"id\":{},\"p\":{},\"a\":{},\"k\":{}}}", esc(&self.key(rid)), esc(&self.path(rid)), a,
                            esc(match inst.def { ty::InstanceKind::Item(_) => "item", _ => "shim" }));
                    }
                }
            }
        }
        s.push('}');
        s
    }
    fn alloc_bytes(&self, a: rustc_middle::mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(a)? {
            GlobalAlloc::Memory(m) => {
                let m = m.inner();
                let (s, e) = (off as usize, (off + len) as usize);
                if e > m.len() {
                    return None;
                }
                Some(m.inspect_with_uninit_and_ptr_outside_interpreter(s..e).to_vec())
            }
            _ => None,
        }
    }
    fn bytes_json(b: &[u8]) -> String {
        let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
        list(v)
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>) -> String {
        match v {
            ConstValue::ZeroSized => "\"k\":\"zst\"".into(),
            ConstValue::Scalar(Scalar::Int(i)) => format!("\"k\":\"int\",\"v\":{}", i.to_bits_unchecked()),
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                let aid = prov.alloc_id();
                match self.tcx.try_get_global_alloc(aid) {
                    Some(GlobalAlloc::Static(id)) => format!("\"k\":\"static\",\"id\":{}", esc(&self.key(id))),
                    Some(GlobalAlloc::Function { instance }) => {
                        let r = self.fnref(instance.def_id(), instance.args, None);
                        format!("\"k\":\"fnp\",\"f\":{}", r)
                    }
                    Some(GlobalAlloc::Memory(m)) => {
                        let n = m.inner().len() as u64;
                        let b = self.alloc_bytes(aid, off.bytes(), n - off.bytes()).unwrap_or_default();
                        format!("\"k\":\"mem\",\"v\":{}", Self::bytes_json(&b))
                    }
                    _ => "\"k\":\"unk\"".into(),
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                let b = self.alloc_bytes(alloc_id, 0, meta).unwrap_or_default();
                if let ty::Ref(_, inner, _) = t.kind() {
                    if inner.is_str() {
                        return format!("\"k\":\"str\",\"v\":{}", esc(&String::from_utf8_lossy(&b)));
                    }
                }
                format!("\"k\":\"bytes\",\"v\":{}", Self::bytes_json(&b))
            }
            ConstValue::Indirect { alloc_id, offset } => {
                let n = match self.tcx.try_get_global_alloc(alloc_id) {
                    Some(GlobalAlloc::Memory(m)) => m.inner().len() as u64,
                    _ => 0,
                };
                let b = if n > offset.bytes() { self.alloc_bytes(alloc_id, offset.bytes(), n - offset.bytes()).unwrap_or_default() } else { vec![] };
                format!("\"k\":\"ind\",\"v\":{}", Self::bytes_json(&b))
            }
        }
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>, te: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        let body = match c.const_ {
            Const::Val(v, t) => self.cval(v, t),
            Const::Unevaluated(u, ut) => {
                let mut r = None;
                let scalar = ut.is_integral() || ut.is_bool() || ut.is_char();
                if scalar && u.promoted.is_none() {
                    let ev = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.const_.try_eval_bits(tcx, te)));
                    if let Ok(Some(b)) = ev {
                        r = Some(format!("\"k\":\"int\",\"v\":{},\"named\":{}", b, esc(&self.key(u.def))));
                    }
                }
                match r {
                    Some(x) => x,
                    None => {
                        let a = self.args(u.def, u.args);
                        let trait_of = tcx.assoc_parent(u.def).map(|(p, k)| if let DefKind::Trait = k { self.path(p) } else { String::new() }).unwrap_or_default();
                        format!(
                            "\"k\":\"uneval\",\"id\":{},\"p\":{},\"pr\":{},\"a\":{},\"tr\":{}",
                            esc(&self.key(u.def)),
                            esc(&self.path(u.def)),
                            u.promoted.map(|p| p.as_usize() as i64).unwrap_or(-1),
                            a,
                            esc(&trait_of)
                        )
                    }
                }
            }
            Const::Ty(_, ct) => {
                let s = self.tyconst(ct);
                format!("\"k\":\"tyc\",\"v\":{}", s)
            }
        };
        // resolved callee for function items
        let mut extra = String::new();
        if let ty::FnDef(id, args) = *t.kind() {
            let r = self.fnref(id, args.skip_binder(), Some(te));
            extra = format!(",\"f\":{}", r);
        }
        format!("{{\"ty\":{},{}{}}}", ti, body, extra)
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"d\"]".to_string(),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    format!("[\"f\",{},{}]", f.as_usize(), t)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end as u8)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end as u8),
                ProjectionElem::Downcast(_, v) => format!("[\"v\",{}]", v.as_usize()),
                _ => "[\"o\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), list(v))
    }
    fn operand(&mut self, o: &Operand<'tcx>, te: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(c, te)),
            Operand::RuntimeChecks(r) => format!("[\"rc\",{}]", esc(&format!("{:?}", r))),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, te: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, te)),
            Rvalue::Repeat(o, n) => {
                let o = self.operand(o, te);
                let n = self.tyconst(*n);
                format!("[\"rep\",{},{}]", o, n)
            }
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", matches!(bk, BorrowKind::Mut { .. }) as u8, self.place(p)),
            Rvalue::RawPtr(_, p) => format!("[\"raw\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let o = self.operand(o, te);
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), o, t)
            }
            Rvalue::BinaryOp(op, b) => {
                let l = self.operand(&b.0, te);
                let r = self.operand(&b.1, te);
                format!("[\"bin\",\"{:?}\",{},{}]", op, l, r)
            }
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(o, te)),
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o, te)).collect();
                let k = match **k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(t)),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(id, v, args, _, _) => {
                        if self.adtseen.insert(id) {
                            self.adts.push(id);
                        }
                        let a = self.args(id, args);
                        format!("[\"adt\",{},{},{}]", esc(&self.key(id)), v.as_usize(), a)
                    }
                    AggregateKind::Closure(id, _) => format!("[\"closure\",{}]", esc(&self.key(id))),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", k, list(v))
            }
            Rvalue::ThreadLocalRef(id) => format!("[\"tls\",{}]", esc(&self.key(*id))),
            other => format!("[\"other\",{}]", esc(&format!("{:?}", other).chars().take(120).collect::<String>())),
        }
    }
    fn line(&self, sp: Span) -> usize {
        let sp = sp.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
    }
    fn file(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let f = self.tcx.sess.source_map().lookup_char_pos(sp.lo()).file.clone();
        match &f.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_default(),
            _ => String::new(),
        }
    }
    fn body(&mut self, b: &Body<'tcx>, te: TypingEnv<'tcx>) -> String {
        let locals: Vec<String> = b.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(format!("[{},{}]", esc(&v.name.to_string()), self.place(&p)));
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                let ln = self.line(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rvalue(&a.1, te);
                        st.push(format!("[{},\"=\",{},{}]", ln, p, r));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(format!("[{},\"sd\",{},{}]", ln, p, variant_index.as_usize()));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[{},\"x\",{}]", ln, l.as_usize())),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(_) => {}
                        NonDivergingIntrinsic::CopyNonOverlapping(_) => st.push(format!("[{},\"cno\"]", ln)),
                    },
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("\"goto\",{}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr, te);
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                    format!("\"switch\",{},{},{}", d, list(v), targets.otherwise().as_usize())
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "\"resume\"".into(),
                TerminatorKind::Return => "\"ret\"".into(),
                TerminatorKind::Unreachable => "\"unreach\"".into(),
                TerminatorKind::Drop { place, target, .. } => format!("\"drop\",{},{}", self.place(place), target.as_usize()),
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = self.operand(func, te);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, te)).collect();
                    let d = self.place(destination);
                    let l2 = self.line(*fn_span);
                    format!(
                        "\"call\",{},{},{},{},{}",
                        f,
                        list(a),
                        d,
                        target.map(|x| x.as_usize() as i64).unwrap_or(-1),
                        l2
                    )
                }
                TerminatorKind::TailCall { .. } => "\"tail\"".into(),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, te);
                    format!("\"assert\",{},{},{},{}", c, *expected as u8, esc(&format!("{:?}", msg).chars().take(60).collect::<String>()), target.as_usize())
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("\"goto\",{}", real_target.as_usize())
                }
                TerminatorKind::InlineAsm { template, operands, targets, .. } => {
                    let t: String = template.iter().map(|p| p.to_string()).collect();
                    let mut ops = vec![];
                    for o in operands.iter() {
                        ops.push(match o {
                            InlineAsmOperand::In { value, reg } => format!("[\"in\",{},{}]", esc(&reg.to_string()), self.operand(value, te)),
                            InlineAsmOperand::Out { place: Some(p), reg, .. } => format!("[\"out\",{},{}]", esc(&reg.to_string()), self.place(p)),
                            _ => "[\"other\"]".into(),
                        });
                    }
                    format!("\"asm\",{},{},{}", esc(&t), list(ops), targets.first().map(|x| x.as_usize() as i64).unwrap_or(-1))
                }
                _ => "\"other\"".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":[{},{}],\"c\":{}}}", list(st), ln, ts, bb.is_cleanup as u8));
        }
        format!(
            "\"argc\":{},\"locals\":{},\"names\":{},\"spread\":{},\"blocks\":{}",
            b.arg_count,
            list(locals),
            list(names),
            b.spread_arg.map(|l| l.as_usize() as i64).unwrap_or(-1),
            list(blocks)
        )
    }
    fn adt(&mut self, id: DefId) -> String {
        let tcx = self.tcx;
        let def = tcx.adt_def(id);
        let mut vs = vec![];
        let discs: Vec<u128> = if def.is_enum() {
            def.discriminants(tcx).map(|(_, d)| d.val).collect()
        } else {
            vec![0]
        };
        for (i, v) in def.variants().iter().enumerate() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let ty = if id.is_local() || def.is_enum() {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    self.ty(t) as i64
                } else {
                    -1
                };
                fs.push(format!("[{},{}]", esc(&f.name.to_string()), ty));
            }
            vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", esc(&v.name.to_string()), discs.get(i).copied().unwrap_or(0), list(fs)));
        }
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        format!("{}:{{\"k\":\"{}\",\"p\":{},\"v\":{}}}", esc(&self.key(id)), kind, esc(&self.path(id)), list(vs))
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let dir = match std::env::var("PHANTOM_SA_DUMP") {
            Ok(d) => d,
            Err(_) => return Compilation::Continue,
        };
        let krate = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        let kinds: Vec<String> = tcx.crate_types().iter().map(|c| format!("{:?}", c)).collect();
        let mut d = D { tcx, types: vec![], tymap: HashMap::new(), adts: vec![], adtseen: HashSet::new() };
        let mut fns: Vec<String> = vec![];
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| tcx.def_span(k.to_def_id()).lo());
        for ldid in keys {
            let id = ldid.to_def_id();
            let kind = tcx.def_kind(id);
            let te = TypingEnv::post_analysis(tcx, id);
            let (b, kname): (&Body<'tcx>, &str) = match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => (tcx.optimized_mir(id), if kind == DefKind::Closure { "closure" } else { "fn" }),
                DefKind::Ctor(..) => continue,
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst => {
                    (tcx.mir_for_ctfe(id), if matches!(kind, DefKind::Static { .. }) { "static" } else { "const" })
                }
                _ => continue,
            };
            let body = d.body(b, te);
            let span = tcx.def_span(id);
            let mut s = format!(
                "{}:{{\"k\":\"{}\",\"p\":{},\"n\":{},\"file\":{},\"line\":{},",
                esc(&d.key(id)),
                kname,
                esc(&d.path(id)),
                esc(tcx.opt_item_name(id).map(|x| x.to_string()).unwrap_or_default().as_str()),
                esc(&d.file(span)),
                d.line(span)
            );
            let mut g = tcx.generics_of(id);
            let mut names = vec![];
            loop {
                for p in g.own_params.iter().rev() {
                    names.push(esc(&p.name.to_string()));
                }
                match g.parent {
                    Some(p) => g = tcx.generics_of(p),
                    None => break,
                }
            }
            names.reverse();
            let _ = write!(s, "\"gen\":{},", list(names));
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                let _ = write!(s, "\"pub\":{},", tcx.visibility(id).is_public() as u8);
                let _ = write!(s, "\"unsafe\":{},", (!tcx.fn_sig(id).skip_binder().safety().is_safe()) as u8);
            }
            if let Some(p) = tcx.opt_parent(id) {
                if matches!(tcx.def_kind(p), DefKind::Impl { .. }) {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    let st = d.ty(st);
                    let _ = write!(s, "\"self\":{},", st);
                }
                let _ = write!(s, "\"parent\":{},", esc(&d.key(p)));
            }
            s.push_str(&body);
            s.push('}');
            fns.push(s);
            if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst) {
                let pm = tcx.promoted_mir(id);
                for (i, pb) in pm.iter_enumerated() {
                    let body = d.body(pb, te);
                    fns.push(format!(
                        "{}:{{\"k\":\"promoted\",\"p\":{},\"n\":\"\",\"file\":{},\"line\":{},\"gen\":[],{}}}",
                        esc(&format!("{}#{}", d.key(id), i.as_usize())),
                        esc(&d.path(id)),
                        esc(&d.file(span)),
                        d.line(span),
                        body
                    ));
                }
            }
        }
        // impl table
        let mut impls = vec![];
        let mut trs: Vec<_> = tcx.all_local_trait_impls(()).iter().collect();
        trs.sort_by_key(|(k, _)| d.key(**k));
        for (tr, ims) in trs {
            for im in ims {
                let h = tcx.impl_trait_header(im.to_def_id());
                let trf = h.trait_ref.instantiate_identity().skip_norm_wip();
                let self_ty = d.ty(trf.self_ty());
                let a = d.args(*tr, trf.args);
                let mut items = vec![];
                for it in tcx.associated_items(im.to_def_id()).in_definition_order() {
                    items.push(format!("[{},{}]", esc(it.name().as_str()), esc(&d.key(it.def_id))));
                }
                let mut titems = vec![];
                for it in tcx.associated_items(*tr).in_definition_order() {
                    if it.is_fn() && it.defaultness(tcx).has_value() {
                        titems.push(format!("[{},{}]", esc(it.name().as_str()), esc(&d.key(it.def_id))));
                    }
                }
                impls.push(format!(
                    "{{\"tr\":{},\"trid\":{},\"self\":{},\"a\":{},\"items\":{},\"defaults\":{},\"id\":{}}}",
                    esc(&d.path(*tr)),
                    esc(&d.key(*tr)),
                    self_ty,
                    a,
                    list(items),
                    list(titems),
                    esc(&d.key(im.to_def_id()))
                ));
            }
        }
        let mut gasm = vec![];
        for it in tcx.hir_free_items() {
            if let rustc_hir::ItemKind::GlobalAsm { asm, .. } = tcx.hir_item(it).kind {
                let t: String = asm.template.iter().map(|p| p.to_string()).collect();
                gasm.push(format!("[{},{},{}]", esc(&t), esc(&d.file(tcx.hir_item(it).span)), d.line(tcx.hir_item(it).span)));
            }
        }
        let mut adts = vec![];
        let mut i = 0;
        while i < d.adts.len() {
            let id = d.adts[i];
            let s = d.adt(id);
            adts.push(s);
            i += 1;
        }
        let out = format!(
            "{{\"crate\":{},\"kinds\":{},\n\"types\":[{}],\n\"adts\":{{{}}},\n\"impls\":[{}],\n\"gasm\":{},\n\"fns\":{{{}}}}}\n",
            esc(&krate),
            list(kinds.iter().map(|x| esc(x)).collect()),
            d.types.join(",\n"),
            adts.join(",\n"),
            impls.join(",\n"),
            list(gasm),
            fns.join(",\n")
        );
        let suffix = if kinds.iter().any(|k| k == "Executable") { "bin" } else { "lib" };
        let path = format!("{}/{}.{}.json", dir, krate, suffix);
        std::fs::write(&path, out).expect("write dump");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc path
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums".into());
    rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    })
}
