//! rustc driver: compiles a crate exactly like rustc does and, for the crates named in
//! MIRDUMP_CRATES, writes the type-checked program (MIR of every function, const and promoted,
//! with resolved callees, evaluated constants, ADTs and impls) as JSON to MIRDUMP_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{
    self, AggregateKind, BinOp, Body, CastKind, Const, ConstValue, Operand, Place, ProjectionElem, Rvalue,
    StatementKind, TerminatorKind, UnOp,
};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    enums: std::cell::RefCell<std::collections::BTreeMap<String, String>>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_resolve_crate_name!(
            self.tcx.def_path_str(d)
        ))
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_resolve_crate_name!(
            format!("{}", t)
        ))
    }
    /// A stable unique key of a definition: crate::def_path.
    fn key(&self, d: DefId) -> String {
        let krate = self.tcx.crate_name(d.krate);
        format!("{}{}", krate, self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn span(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }

    fn note_enum(&self, a: ty::AdtDef<'tcx>) {
        if !a.is_enum() {
            return;
        }
        let p = self.path(a.did());
        if self.enums.borrow().contains_key(&p) {
            return;
        }
        let mut vs = vec![];
        for (vi, d) in a.discriminants(self.tcx) {
            vs.push(format!("[{},{}]", esc(a.variant(vi).name.as_str()), esc(&format!("{}", d.val))));
        }
        self.enums.borrow_mut().insert(p, arr(vs));
    }

    fn adt_short(&self, t: Ty<'tcx>) -> String {
        match t.peel_refs().kind() {
            ty::Adt(a, _) => self.path(a.did()),
            _ => self.tystr(t.peel_refs()),
        }
    }

    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut out = vec![];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => {
                    let b = if pt.ty.is_box() { "box" } else { "ref" };
                    format!("{{\"k\":\"deref\",\"of\":{}}}", esc(b))
                }
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(a, _) => {
                            let v = match pt.variant_index {
                                Some(v) => a.variant(v),
                                None if a.is_enum() => a.variant(rustc_abi::VariantIdx::from_u32(0)),
                                None => a.non_enum_variant(),
                            };
                            v.fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let owner = match pt.ty.kind() {
                        ty::Adt(a, _) => self.path(a.did()),
                        ty::Closure(..) => "closure".to_string(),
                        _ => "".to_string(),
                    };
                    format!("{{\"k\":\"field\",\"n\":{},\"i\":{},\"of\":{}}}", esc(&name), f.as_usize(), esc(&owner))
                }
                ProjectionElem::Index(l) => format!("{{\"k\":\"index\",\"l\":{}}}", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("{{\"k\":\"cindex\",\"o\":{},\"e\":{}}}", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("{{\"k\":\"subslice\",\"f\":{},\"t\":{},\"e\":{}}}", from, to, from_end)
                }
                ProjectionElem::Downcast(name, v) => {
                    let n = match (name, pt.ty.kind()) {
                        (_, ty::Adt(a, _)) if a.is_enum() => a.variant(v).name.to_string(),
                        (Some(n), _) => n.to_string(),
                        _ => v.as_usize().to_string(),
                    };
                    format!("{{\"k\":\"downcast\",\"v\":{}}}", esc(&n))
                }
                _ => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{:?}", e))),
            };
            out.push(s);
            pt = pt.projection_ty(self.tcx, e);
        }
        if let ty::Adt(a, _) = pt.ty.peel_refs().kind() {
            self.note_enum(*a);
        }
        format!("{{\"l\":{},\"p\":{},\"t\":{}}}", p.local.as_usize(), arr(out), esc(&self.tystr(pt.ty)))
    }

    fn generic_args(&self, args: ty::GenericArgsRef<'tcx>) -> String {
        arr(args
            .iter()
            .filter(|a| a.as_region().is_none())
            .map(|a| {
                esc(&rustc_middle::ty::print::with_no_trimmed_paths!(
                    rustc_middle::ty::print::with_resolve_crate_name!(format!("{}", a))
                ))
            })
            .collect())
    }

    fn fndef(&self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut s = format!(
            "\"path\":{},\"key\":{},\"name\":{},\"args\":{},\"local\":{}",
            esc(&self.path(d)),
            esc(&self.key(d)),
            esc(tcx.item_name(d).as_str()),
            self.generic_args(args),
            d.is_local()
        );
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let self_ty = args.type_at(0);
            let _ = write!(
                s,
                ",\"trait\":{},\"self_ty\":{},\"self_adt\":{}",
                esc(&self.path(tr)),
                esc(&self.tystr(self_ty)),
                esc(&self.adt_short(self_ty))
            );
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            let t = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let _ = write!(s, ",\"impl_ty\":{}", esc(&self.adt_short(t)));
        }
        if let DefKind::Ctor(of, _) = tcx.def_kind(d) {
            // a tuple constructor used as a function value
            let v = tcx.parent(d);
            let a = if matches!(of, rustc_hir::def::CtorOf::Variant) { tcx.parent(v) } else { v };
            let adt = tcx.adt_def(a);
            self.note_enum(adt);
            let var = adt.variant_with_ctor_id(d);
            let _ = write!(
                s,
                ",\"ctor\":{{\"adt\":{},\"variant\":{},\"fields\":{}}}",
                esc(&self.path(a)),
                esc(var.name.as_str()),
                arr(var.fields.iter().map(|f| esc(f.name.as_str())).collect())
            );
        }
        let can = matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn);
        if can {
            let er = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, er) {
                let kind = match i.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    _ => "shim",
                };
                let rd = i.def_id();
                let _ = write!(
                    s,
                    ",\"res\":{{\"kind\":{},\"key\":{},\"path\":{},\"local\":{},\"args\":{}}}",
                    esc(kind),
                    esc(&self.key(rd)),
                    esc(&self.path(rd)),
                    rd.is_local(),
                    self.generic_args(i.args)
                );
            }
        }
        s
    }

    fn alloc_hex(&self, alloc_id: mir::interpret::AllocId, off: rustc_abi::Size, len: rustc_abi::Size) -> Option<String> {
        let a = match self.tcx.try_get_global_alloc(alloc_id)? {
            mir::interpret::GlobalAlloc::Memory(m) => m,
            _ => return None,
        };
        let inner = a.inner();
        if off + len > inner.size() {
            return None;
        }
        let end = off + len;
        if inner.provenance().ptrs().iter().any(|(o, _)| *o >= off && *o < end) {
            return None;
        }
        let range = mir::interpret::alloc_range(off, len);
        if inner.init_mask().is_range_initialized(range).is_err() {
            return None;
        }
        let b = inner.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..end.bytes_usize());
        if b.len() > 4096 {
            return Some(format!("len{}", b.len()));
        }
        Some(b.iter().map(|x| format!("{:02x}", x)).collect())
    }

    fn constval(&self, env: TypingEnv<'tcx>, v: ConstValue, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        match v {
            ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                let signed = matches!(t.kind(), ty::Int(_));
                let bits = i.to_bits(i.size());
                let val = if signed { format!("{}", i.size().sign_extend(bits)) } else { format!("{}", bits) };
                format!("\"ck\":\"int\",\"v\":{},\"size\":{}", esc(&val), i.size().bytes())
            }
            ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                let id = prov.alloc_id();
                if let Some(pt) = t.builtin_deref(true) {
                    if let Ok(l) = tcx.layout_of(env.as_query_input(pt)) {
                        if let Some(h) = self.alloc_hex(id, off, l.size) {
                            return format!("\"ck\":\"refmem\",\"hex\":{}", esc(&h));
                        }
                    }
                }
                match tcx.try_get_global_alloc(id) {
                    Some(mir::interpret::GlobalAlloc::Static(d)) => {
                        format!("\"ck\":\"static\",\"path\":{},\"key\":{}", esc(&self.path(d)), esc(&self.key(d)))
                    }
                    Some(mir::interpret::GlobalAlloc::Function { instance, .. }) => {
                        format!("\"ck\":\"fnptr\",\"path\":{}", esc(&self.path(instance.def_id())))
                    }
                    _ => "\"ck\":\"ptr\"".to_string(),
                }
            }
            ConstValue::ZeroSized => match t.kind() {
                ty::FnDef(d, args) => format!("\"ck\":\"fn\",{}", self.fndef(env, *d, args.skip_binder())),
                ty::Closure(d, _) => format!("\"ck\":\"closure\",\"key\":{}", esc(&self.key(*d))),
                _ => "\"ck\":\"zst\"".to_string(),
            },
            ConstValue::Slice { alloc_id, meta } => {
                let h = self.alloc_hex(alloc_id, rustc_abi::Size::ZERO, rustc_abi::Size::from_bytes(meta));
                let s = v.try_get_slice_bytes_for_diagnostics(tcx).map(|b| String::from_utf8_lossy(b).to_string());
                format!(
                    "\"ck\":\"slice\",\"s\":{},\"hex\":{}",
                    s.map(|x| esc(&x)).unwrap_or("null".into()),
                    h.map(|x| esc(&x)).unwrap_or("null".into())
                )
            }
            ConstValue::Indirect { alloc_id, offset } => {
                if let Ok(l) = tcx.layout_of(env.as_query_input(t)) {
                    if let Some(h) = self.alloc_hex(alloc_id, offset, l.size) {
                        return format!("\"ck\":\"mem\",\"hex\":{}", esc(&h));
                    }
                }
                "\"ck\":\"indirect\"".to_string()
            }
        }
    }

    fn constop(&self, env: TypingEnv<'tcx>, c: &Const<'tcx>, sp: rustc_span::Span) -> String {
        let t = c.ty();
        if let ty::Adt(a, _) = t.peel_refs().kind() {
            self.note_enum(*a);
        }
        let mut s = format!("{{\"k\":\"const\",\"ty\":{}", esc(&self.tystr(t)));
        if let ty::FnDef(d, args) = t.kind() {
            let _ = write!(s, ",\"ck\":\"fn\",{}", self.fndef(env, *d, args.skip_binder()));
            s.push('}');
            return s;
        }
        match c {
            Const::Unevaluated(u, _) => {
                let _ = write!(s, ",\"name\":{},\"ckey\":{}", esc(&self.path(u.def)), esc(&self.key(u.def)));
                if let Some(p) = u.promoted {
                    let _ = write!(s, ",\"promoted\":{}", p.as_usize());
                }
            }
            Const::Ty(_, ct) => {
                let _ = write!(s, ",\"cty\":{}", esc(&format!("{}", ct)));
            }
            _ => {}
        }
        if let Ok(v) = c.eval(self.tcx, env, sp) {
            let _ = write!(s, ",{}", self.constval(env, v, t));
        }
        s.push('}');
        s
    }

    fn operand(&self, body: &Body<'tcx>, env: TypingEnv<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"k\":\"copy\",\"p\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"k\":\"move\",\"p\":{}}}", self.place(body, p)),
            Operand::Constant(c) => self.constop(env, &c.const_, c.span),
            _ => "{\"k\":\"runtime\"}".to_string(),
        }
    }

    fn rvalue(&self, body: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => format!("{{\"k\":\"use\",\"o\":{}}}", self.operand(body, env, o)),
            Rvalue::Repeat(o, n) => format!(
                "{{\"k\":\"repeat\",\"o\":{},\"n\":{}}}",
                self.operand(body, env, o),
                esc(&format!("{}", n))
            ),
            Rvalue::Ref(_, bk, p) => format!(
                "{{\"k\":\"ref\",\"m\":{},\"p\":{}}}",
                matches!(bk, mir::BorrowKind::Mut { .. }),
                self.place(body, p)
            ),
            Rvalue::RawPtr(_, p) => format!("{{\"k\":\"ref\",\"m\":true,\"p\":{}}}", self.place(body, p)),
            Rvalue::Reborrow(_, m, p) => {
                format!("{{\"k\":\"ref\",\"m\":{},\"p\":{}}}", m.is_mut(), self.place(body, p))
            }
            Rvalue::Cast(k, o, t) => {
                let ks = match k {
                    CastKind::PointerCoercion(c, _) => format!("coerce:{:?}", c),
                    k => format!("{:?}", k),
                };
                format!(
                    "{{\"k\":\"cast\",\"ck\":{},\"o\":{},\"ty\":{},\"from\":{}}}",
                    esc(&ks),
                    self.operand(body, env, o),
                    esc(&self.tystr(*t)),
                    esc(&self.tystr(o.ty(&body.local_decls, tcx)))
                )
            }
            Rvalue::BinaryOp(op, ab) => {
                let op: &BinOp = op;
                format!(
                    "{{\"k\":\"bin\",\"op\":{},\"a\":{},\"b\":{},\"ty\":{}}}",
                    esc(&format!("{:?}", op)),
                    self.operand(body, env, &ab.0),
                    self.operand(body, env, &ab.1),
                    esc(&self.tystr(ab.0.ty(&body.local_decls, tcx)))
                )
            }
            Rvalue::UnaryOp(op, o) => {
                let op: &UnOp = op;
                format!(
                    "{{\"k\":\"un\",\"op\":{},\"o\":{},\"ty\":{}}}",
                    esc(&format!("{:?}", op)),
                    self.operand(body, env, o),
                    esc(&self.tystr(o.ty(&body.local_decls, tcx)))
                )
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let mut vs = vec![];
                if let ty::Adt(a, _) = t.kind() {
                    if a.is_enum() {
                        for (vi, d) in a.discriminants(tcx) {
                            vs.push(format!("[{},{}]", esc(a.variant(vi).name.as_str()), esc(&format!("{}", d.val))));
                        }
                    }
                }
                format!(
                    "{{\"k\":\"discr\",\"p\":{},\"of\":{},\"vs\":{}}}",
                    self.place(body, p),
                    esc(&self.adt_short(t)),
                    arr(vs)
                )
            }
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|o| self.operand(body, env, o)).collect();
                let ks = match &**k {
                    AggregateKind::Array(_) => "\"ak\":\"array\"".to_string(),
                    AggregateKind::Tuple => "\"ak\":\"tuple\"".to_string(),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let a = tcx.adt_def(*d);
                        self.note_enum(a);
                        let var = a.variant(*v);
                        let names: Vec<String> = match active {
                            Some(f) => vec![esc(var.fields[*f].name.as_str())],
                            None => var.fields.iter().map(|f| esc(f.name.as_str())).collect(),
                        };
                        format!(
                            "\"ak\":\"adt\",\"adt\":{},\"variant\":{},\"enum\":{},\"fields\":{}",
                            esc(&self.path(*d)),
                            esc(var.name.as_str()),
                            a.is_enum(),
                            arr(names)
                        )
                    }
                    AggregateKind::Closure(d, _) => format!("\"ak\":\"closure\",\"key\":{}", esc(&self.key(*d))),
                    AggregateKind::RawPtr(..) => "\"ak\":\"rawptr\"".to_string(),
                    _ => "\"ak\":\"other\"".to_string(),
                };
                format!("{{\"k\":\"agg\",{},\"o\":{}}}", ks, arr(o))
            }
            Rvalue::CopyForDeref(p) => {
                format!("{{\"k\":\"use\",\"o\":{{\"k\":\"copy\",\"p\":{}}}}}", self.place(body, p))
            }
            Rvalue::ThreadLocalRef(d) => format!("{{\"k\":\"tls\",\"path\":{}}}", esc(&self.path(*d))),
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{:?}", r))),
        }
    }

    fn body(&self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut locals = vec![];
        for d in body.local_decls.iter() {
            locals.push(esc(&self.tystr(d.ty)));
        }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                names.push(format!("[{},{}]", esc(v.name.as_str()), self.place(body, &p)));
            }
        }
        let mut blocks = vec![];
        for (_, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &b.statements {
                match &s.kind {
                    StatementKind::Assign(pr) => st.push(format!(
                        "{{\"k\":\"assign\",\"p\":{},\"r\":{},\"sp\":{}}}",
                        self.place(body, &pr.0),
                        self.rvalue(body, env, &pr.1),
                        esc(&self.span(s.source_info.span))
                    )),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(&body.local_decls, tcx).ty;
                        let n = match t.kind() {
                            ty::Adt(a, _) => a.variant(*variant_index).name.to_string(),
                            _ => variant_index.as_usize().to_string(),
                        };
                        st.push(format!(
                            "{{\"k\":\"setdiscr\",\"p\":{},\"v\":{}}}",
                            self.place(body, place),
                            esc(&n)
                        ))
                    }
                    _ => {}
                }
            }
            let t = b.terminator();
            let sp = esc(&self.span(t.source_info.span));
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let vs: Vec<String> =
                        targets.iter().map(|(v, t)| format!("[{},{}]", esc(&v.to_string()), t.as_usize())).collect();
                    format!(
                        "{{\"k\":\"switch\",\"o\":{},\"ty\":{},\"vs\":{},\"e\":{}}}",
                        self.operand(body, env, discr),
                        esc(&self.tystr(discr.ty(&body.local_decls, tcx))),
                        arr(vs),
                        targets.otherwise().as_usize()
                    )
                }
                TerminatorKind::Return => "{\"k\":\"return\"}".to_string(),
                TerminatorKind::Unreachable => "{\"k\":\"unreachable\"}".to_string(),
                TerminatorKind::Drop { place, target, .. } => format!(
                    "{{\"k\":\"drop\",\"p\":{},\"t\":{},\"ty\":{}}}",
                    self.place(body, place),
                    target.as_usize(),
                    esc(&self.tystr(place.ty(&body.local_decls, tcx).ty))
                ),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.operand(body, env, &x.node)).collect();
                    let at: Vec<String> =
                        args.iter().map(|x| esc(&self.tystr(x.node.ty(&body.local_decls, tcx)))).collect();
                    format!(
                        "{{\"k\":\"call\",\"f\":{},\"a\":{},\"at\":{},\"d\":{},\"dt\":{},\"t\":{},\"sp\":{}}}",
                        self.operand(body, env, func),
                        arr(a),
                        arr(at),
                        self.place(body, destination),
                        esc(&self.tystr(destination.ty(&body.local_decls, tcx).ty)),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        sp
                    )
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => format!(
                    "{{\"k\":\"assert\",\"o\":{},\"x\":{},\"t\":{},\"m\":{}}}",
                    self.operand(body, env, cond),
                    expected,
                    target.as_usize(),
                    esc(&format!("{:?}", msg).split('(').next().unwrap_or("").to_string())
                ),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    "{\"k\":\"unwind\"}".to_string()
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize())
                }
                o => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{:?}", o))),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"c\":{}}}", arr(st), ts, b.is_cleanup));
        }
        format!(
            "\"argc\":{},\"locals\":{},\"names\":{},\"blocks\":{}",
            body.arg_count,
            arr(locals),
            arr(names),
            arr(blocks)
        )
    }

    fn dump(&self) -> String {
        let tcx = self.tcx;
        let mut fns = vec![];
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let env = TypingEnv::post_analysis(tcx, d);
            let mut head = format!(
                "\"key\":{},\"path\":{},\"kind\":{},\"span\":{}",
                esc(&self.key(d)),
                esc(&self.path(d)),
                esc(&format!("{:?}", kind)),
                esc(&self.span(tcx.def_span(d)))
            );
            let parent = tcx.typeck_root_def_id(d);
            if let Some(n) = tcx.opt_item_name(d) {
                let _ = write!(head, ",\"name\":{}", esc(n.as_str()));
            }
            if matches!(tcx.def_kind(parent), DefKind::Fn | DefKind::AssocFn) {
                let _ = write!(head, ",\"pub\":{}", tcx.visibility(parent).is_public());
            }
            if let Some(im) = tcx.impl_of_assoc(parent) {
                let t = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let _ = write!(head, ",\"impl_ty\":{}", esc(&self.adt_short(t)));
                let _ = write!(head, ",\"impl_tystr\":{}", esc(&self.tystr(t)));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let _ = write!(head, ",\"impl_trait\":{}", esc(&self.path(tr.def_id)));
                    let _ = write!(head, ",\"impl_trait_args\":{}", self.generic_args(tr.args));
                }
            }
            if let Some(tr) = tcx.trait_of_assoc(parent) {
                let _ = write!(head, ",\"in_trait\":{}", esc(&self.path(tr)));
            }
            let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            if is_fn {
                let gs = tcx.generics_of(d);
                let mut gn = vec![];
                for i in 0..gs.count() {
                    let p = gs.param_at(i, tcx);
                    if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                        gn.push(esc(p.name.as_str()));
                    }
                }
                let _ = write!(head, ",\"generics\":{}", arr(gn));
                let body = tcx.optimized_mir(d);
                let mut proms = vec![];
                for p in tcx.promoted_mir(d).iter() {
                    proms.push(format!("{{{}}}", self.body(p, env)));
                }
                fns.push(format!("{{{},\"promoted\":{},{}}}", head, arr(proms), self.body(body, env)));
            } else if matches!(kind, DefKind::Const | DefKind::AssocConst | DefKind::Static { .. })
                || matches!(format!("{:?}", kind).as_str(), s if s.starts_with("Const") || s.starts_with("AssocConst"))
            {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let _ = write!(head, ",\"ty\":{}", esc(&self.tystr(t)));
                let generic = tcx.generics_of(d).requires_monomorphization(tcx);
                if !generic && !matches!(kind, DefKind::Static { .. }) {
                    if let Ok(v) = tcx.const_eval_poly(d) {
                        let _ = write!(head, ",\"value\":{{{}}}", self.constval(env, v, t));
                    }
                }
                let body = tcx.mir_for_ctfe(d);
                let mut proms = vec![];
                for p in tcx.promoted_mir(d).iter() {
                    proms.push(format!("{{{}}}", self.body(p, env)));
                }
                fns.push(format!("{{{},\"promoted\":{},{}}}", head, arr(proms), self.body(body, env)));
            }
        }
        // ADTs and impls
        let mut adts = vec![];
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(d);
                    let mut vs = vec![];
                    if a.is_enum() {
                        for (vi, dv) in a.discriminants(tcx) {
                            let v = a.variant(vi);
                            let fs: Vec<String> = v.fields.iter().map(|f| esc(f.name.as_str())).collect();
                            vs.push(format!(
                                "{{\"n\":{},\"d\":{},\"f\":{}}}",
                                esc(v.name.as_str()),
                                esc(&format!("{}", dv.val)),
                                arr(fs)
                            ));
                        }
                    } else {
                        let v = a.non_enum_variant();
                        let fs: Vec<String> = v
                            .fields
                            .iter()
                            .map(|f| {
                                format!(
                                    "[{},{},{}]",
                                    esc(f.name.as_str()),
                                    esc(&self.tystr(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())),
                                    esc(&format!("{:?}", f.vis))
                                )
                            })
                            .collect();
                        vs.push(format!("{{\"n\":{},\"fs\":{}}}", esc(v.name.as_str()), arr(fs)));
                    }
                    adts.push(format!(
                        "{{\"path\":{},\"enum\":{},\"variants\":{}}}",
                        esc(&self.path(d)),
                        a.is_enum(),
                        arr(vs)
                    ));
                }
                DefKind::Impl { of_trait } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let tr = if of_trait {
                        tcx.impl_opt_trait_ref(d)
                            .map(|x| self.path(x.instantiate_identity().skip_norm_wip().def_id))
                            .unwrap_or_default()
                    } else {
                        String::new()
                    };
                    let items: Vec<String> = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .filter(|i| matches!(i.kind, ty::AssocKind::Fn { .. }))
                        .map(|i| format!("[{},{}]", esc(i.name().as_str()), esc(&self.key(i.def_id))))
                        .collect();
                    impls.push(format!(
                        "{{\"trait\":{},\"self\":{},\"selfstr\":{},\"items\":{}}}",
                        esc(&tr),
                        esc(&self.adt_short(t)),
                        esc(&self.tystr(t)),
                        arr(items)
                    ));
                }
                _ => {}
            }
        }
        format!(
            "{{\"crate\":{},\"fns\":[\n{}\n],\"adts\":{},\"impls\":{},\"enums\":{{{}}}}}",
            esc(tcx.crate_name(LOCAL_CRATE).as_str()),
            fns.join(",\n"),
            arr(adts),
            arr(impls),
            self.enums.borrow().iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",")
        )
    }
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let cx = Cx { tcx, enums: Default::default() };
        let s = cx.dump();
        let tmp = format!("{}.tmp{}", self.out, std::process::id());
        std::fs::write(&tmp, s).expect("write facts");
        std::fs::rename(&tmp, &self.out).expect("rename facts");
        Compilation::Continue
    }
}

struct NoCb;
impl Callbacks for NoCb {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // As RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let wanted = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let dir = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let is_lib = args.windows(2).any(|w| w[0] == "--crate-type" && w[1].contains("lib"));
    rustc_driver::catch_with_exit_code(move || {
        if !dir.is_empty() && is_lib && wanted.split(',').any(|w| w == name) {
            args.push("-Zmir-opt-level=0".into());
            args.push("-Awarnings".into());
            // what ships: overflow is still checked, debug-only assertions are not part of the behaviour
            args.push("-Cdebug-assertions=off".into());
            args.push("-Coverflow-checks=on".into());
            let mut cb = Cb { out: format!("{}/{}.json", dir, name) };
            rustc_driver::compiler_entrypoint(&args, &mut cb);
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut NoCb);
        }
    })
}
