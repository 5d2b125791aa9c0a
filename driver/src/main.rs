//! A rustc driver that runs as RUSTC_WORKSPACE_WRAPPER under `cargo check` and writes the MIR of every body of the
//! crate being compiled, with resolved callees and evaluated constants, to $SA_OUT/<crate>.json.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;

struct Export;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

fn def_id_str(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}

fn pretty(tcx: TyCtxt<'_>, d: DefId) -> String {
    let s = tcx.def_path_str(d);
    if d.is_local() { format!("{}::{}", tcx.crate_name(d.krate), s) } else { s }
}

fn ty_str(ty: Ty<'_>) -> String {
    format!("{}", ty)
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    owner: DefId,
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        let name = match name.find("packages/") {
            Some(i) => name[i..].to_string(),
            None => name,
        };
        format!("{}:{}", name, lo.line)
    }

    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut proj = vec![];
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for elem in p.projection.iter() {
            let s = match elem {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(idx, _) => {
                    let (adt, name) = match pty.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = match pty.variant_index {
                                Some(v) => def.variant(v),
                                None if def.is_enum() => def.variant(rustc_abi::VariantIdx::from_u32(0)),
                                None => def.non_enum_variant(),
                            };
                            (pretty(self.tcx, def.did()), v.fields[idx].name.to_string())
                        }
                        ty::Closure(..) => ("closure".into(), format!("{}", idx.as_u32())),
                        _ => ("tuple".into(), format!("{}", idx.as_u32())),
                    };
                    format!("[\"f\",{},{}]", esc(&name), esc(&adt))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"ci\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"sub\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(def, _) => def.variant(v).name.to_string(),
                        _ => format!("{}", v.as_u32()),
                    };
                    format!("[\"dc\",{}]", esc(&name))
                }
                _ => "[\"o\"]".to_string(),
            };
            proj.push(s);
            pty = pty.projection_ty(self.tcx, elem);
        }
        format!("[{},{}]", p.local.as_u32(), arr(proj))
    }

    fn mem(&self, alloc: rustc_middle::mir::interpret::ConstAllocation<'tcx>, off: u64, ty: Ty<'tcx>, depth: u32) -> Option<String> {
        if depth > 8 {
            return None;
        }
        let tcx = self.tcx;
        let layout = tcx.layout_of(self.env.as_query_input(ty)).ok()?;
        let a = alloc.inner();
        let sz = layout.size;
        let o = rustc_abi::Size::from_bytes(off);
        match ty.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let s = a.read_scalar(&tcx, AllocRange { start: o, size: sz }, false).ok()?;
                self.scalar(s, ty, depth)
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                let psz = tcx.data_layout.pointer_size();
                let s = a.read_scalar(&tcx, AllocRange { start: o, size: psz }, true).ok()?;
                if sz == psz {
                    return self.scalar(s, ty, depth);
                }
                let meta = a
                    .read_scalar(&tcx, AllocRange { start: o + psz, size: psz }, false)
                    .ok()?
                    .to_target_usize(&tcx)
                    .discard_err()?;
                let Scalar::Ptr(ptr, _) = s else { return None };
                let (prov, poff) = ptr.into_raw_parts();
                self.slice(prov.alloc_id(), poff.bytes(), meta, *inner, depth + 1)
            }
            ty::Array(el, n) => {
                let n = n.try_to_target_usize(tcx)?;
                self.elems(alloc, off, n, *el, depth)
            }
            ty::Tuple(tys) => {
                let mut v = vec![];
                for (i, t) in tys.iter().enumerate() {
                    v.push(self.mem(alloc, off + layout.fields.offset(i).bytes(), t, depth + 1)?);
                }
                Some(format!("[\"tuple\",{}]", arr(v)))
            }
            ty::Adt(def, args) if def.is_struct() => {
                let mut v = vec![];
                for (i, f) in def.non_enum_variant().fields.iter().enumerate() {
                    let t = tcx.normalize_erasing_regions(self.env, f.ty(tcx, args));
                    let val = self.mem(alloc, off + layout.fields.offset(i).bytes(), t, depth + 1)
                        .unwrap_or_else(|| "[\"?\"]".into());
                    v.push(format!("[{},{}]", esc(f.name.as_str()), val));
                }
                Some(format!("[\"adt\",{},{},{}]", esc(&pretty(tcx, def.did())), esc(def.non_enum_variant().name.as_str()), arr(v)))
            }
            ty::Adt(def, _) if def.is_enum() => {
                let id = tcx.reserve_and_set_memory_alloc(alloc);
                self.enum_val(ConstValue::Indirect { alloc_id: id, offset: o }, ty, depth)
            }
            _ => None,
        }
    }

    fn enum_val(&self, val: ConstValue, ty: Ty<'tcx>, depth: u32) -> Option<String> {
        let tcx = self.tcx;
        let ty::Adt(def, _) = ty.kind() else { return None };
        let d = tcx.try_destructure_mir_constant_for_user_output(val, ty)?;
        let v = d.variant?;
        let vd = &def.variants()[v];
        let mut out = vec![];
        for (f, (cv, ct)) in vd.fields.iter().zip(d.fields.iter()) {
            let s = self.const_val(*cv, *ct, depth + 1).unwrap_or_else(|| "[\"?\"]".into());
            out.push(format!("[{},{}]", esc(f.name.as_str()), s));
        }
        Some(format!("[\"adt\",{},{},{}]", esc(&pretty(tcx, def.did())), esc(vd.name.as_str()), arr(out)))
    }

    fn elems(&self, alloc: rustc_middle::mir::interpret::ConstAllocation<'tcx>, off: u64, n: u64, el: Ty<'tcx>, depth: u32) -> Option<String> {
        let tcx = self.tcx;
        if matches!(el.kind(), ty::Uint(ty::UintTy::U8)) {
            let bytes = alloc.inner().inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + n) as usize);
            let mut h = String::new();
            for b in bytes.iter().take(4096) {
                let _ = write!(h, "{:02x}", b);
            }
            return Some(format!("[\"bytes\",\"{}\"]", h));
        }
        if n > 256 {
            return None;
        }
        let l = tcx.layout_of(self.env.as_query_input(el)).ok()?;
        let mut v = vec![];
        for i in 0..n {
            v.push(self.mem(alloc, off + i * l.size.bytes(), el, depth + 1)?);
        }
        Some(format!("[\"arr\",{}]", arr(v)))
    }

    fn slice(&self, id: rustc_middle::mir::interpret::AllocId, off: u64, n: u64, inner: Ty<'tcx>, depth: u32) -> Option<String> {
        let GlobalAlloc::Memory(alloc) = self.tcx.try_get_global_alloc(id)? else { return None };
        match inner.kind() {
            ty::Str => {
                let b = alloc.inner().inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + n) as usize);
                Some(format!("[\"str\",{}]", esc(&String::from_utf8_lossy(b))))
            }
            ty::Slice(el) => self.elems(alloc, off, n, *el, depth),
            _ => None,
        }
    }

    fn scalar(&self, s: Scalar, ty: Ty<'tcx>, depth: u32) -> Option<String> {
        let tcx = self.tcx;
        match s {
            Scalar::Int(i) => {
                let bits = i.to_bits(i.size());
                match ty.kind() {
                    ty::Bool => Some(format!("[\"bool\",{}]", bits != 0)),
                    ty::Char => Some(format!("[\"char\",{}]", bits)),
                    ty::Int(_) => {
                        let sz = i.size();
                        Some(format!("[\"int\",\"{}\"]", sz.sign_extend(bits)))
                    }
                    ty::Uint(_) => Some(format!("[\"int\",\"{}\"]", bits)),
                    _ => Some(format!("[\"raw\",\"{}\"]", bits)),
                }
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                match tcx.try_get_global_alloc(prov.alloc_id())? {
                    GlobalAlloc::Memory(alloc) => {
                        let inner = match ty.kind() {
                            ty::Ref(_, i, _) | ty::RawPtr(i, _) => *i,
                            _ => return None,
                        };
                        self.mem(alloc, off.bytes(), inner, depth + 1)
                    }
                    GlobalAlloc::Static(d) => Some(format!("[\"static\",{}]", esc(&pretty(tcx, d)))),
                    GlobalAlloc::Function { instance } => Some(format!("[\"fn\",{}]", self.callee(instance.def_id(), instance.args))),
                    _ => None,
                }
            }
        }
    }

    fn const_val(&self, val: ConstValue, ty: Ty<'tcx>, depth: u32) -> Option<String> {
        if depth > 8 {
            return None;
        }
        match val {
            ConstValue::ZeroSized => match ty.kind() {
                ty::FnDef(d, a) => Some(format!("[\"fn\",{}]", self.callee(*d, a.no_bound_vars()?))),
                ty::Closure(d, _) => Some(format!("[\"closure\",{}]", esc(&def_id_str(self.tcx, *d)))),
                ty::Tuple(t) if t.is_empty() => Some("[\"tuple\",[]]".into()),
                ty::Adt(def, _) if def.is_struct() => Some(format!(
                    "[\"adt\",{},{},[]]",
                    esc(&pretty(self.tcx, def.did())),
                    esc(def.non_enum_variant().name.as_str())
                )),
                ty::Array(..) => Some("[\"arr\",[]]".into()),
                ty::Adt(def, _) if def.is_enum() => self.enum_val(val, ty, depth),
                _ => Some(format!("[\"zst\",{}]", esc(&ty_str(ty)))),
            },
            ConstValue::Scalar(s) => match ty.kind() {
                ty::Adt(def, _) if def.is_enum() => self.enum_val(val, ty, depth),
                ty::Adt(def, args) if def.is_struct() => {
                    let d = self.tcx.try_destructure_mir_constant_for_user_output(val, ty);
                    let _ = args;
                    match d {
                        Some(d) => {
                            let mut out = vec![];
                            for (f, (cv, ct)) in def.non_enum_variant().fields.iter().zip(d.fields.iter()) {
                                let s = self.const_val(*cv, *ct, depth + 1).unwrap_or_else(|| "[\"?\"]".into());
                                out.push(format!("[{},{}]", esc(f.name.as_str()), s));
                            }
                            Some(format!("[\"adt\",{},{},{}]", esc(&pretty(self.tcx, def.did())), esc(def.non_enum_variant().name.as_str()), arr(out)))
                        }
                        None => None,
                    }
                }
                _ => self.scalar(s, ty, depth),
            },
            ConstValue::Slice { alloc_id, meta } => match ty.kind() {
                ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => self.slice(alloc_id, 0, meta, *inner, depth),
                _ => None,
            },
            ConstValue::Indirect { alloc_id, offset } => {
                if let ty::Adt(def, _) = ty.kind() {
                    if def.is_enum() {
                        return self.enum_val(val, ty, depth);
                    }
                }
                let GlobalAlloc::Memory(alloc) = self.tcx.try_get_global_alloc(alloc_id)? else { return None };
                self.mem(alloc, offset.bytes(), ty, depth)
            }
        }
    }

    fn callee(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut tys = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                tys.push(esc(&ty_str(t)));
            } else if let Some(c) = a.as_const() {
                tys.push(esc(&format!("{}", c)));
            }
        }
        let mut s = format!(
            "{{\"id\":{},\"path\":{},\"targs\":{}",
            esc(&def_id_str(tcx, d)),
            esc(&pretty(tcx, d)),
            arr(tys)
        );
        let kind = tcx.def_kind(d);
        if matches!(kind, DefKind::AssocFn) {
            if let Some(t) = tcx.trait_of_assoc(d) {
                let _ = write!(s, ",\"trait\":{}", esc(&pretty(tcx, t)));
            }
            if let Some(i) = tcx.impl_of_assoc(d) {
                let _ = write!(s, ",\"self\":{}", esc(&ty_str(tcx.type_of(i).instantiate_identity().skip_norm_wip())));
                if let Some(t) = tcx.impl_opt_trait_id(i) {
                    let _ = write!(s, ",\"itrait\":{}", esc(&pretty(tcx, t)));
                }
            }
        }
        if let DefKind::Ctor(of, _) = kind {
            let v = tcx.parent(d);
            let adt = if matches!(of, rustc_hir::def::CtorOf::Variant) { tcx.parent(v) } else { v };
            let _ = write!(s, ",\"ctor\":[{},{}]", esc(&pretty(tcx, adt)), esc(tcx.item_name(v).as_str()));
        }
        let _ = write!(s, ",\"name\":{}", esc(tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default().as_str()));
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::try_resolve(tcx, self.env, d, args)));
            if let Ok(Ok(Some(inst))) = r {
                let rd = inst.def_id();
                if rd != d || !matches!(inst.def, ty::InstanceKind::Item(_)) {
                    let shim = !matches!(inst.def, ty::InstanceKind::Item(_));
                    let _ = write!(
                        s,
                        ",\"rid\":{},\"rpath\":{},\"rshim\":{}",
                        esc(&def_id_str(tcx, rd)),
                        esc(&pretty(tcx, rd)),
                        if shim { esc(&format!("{:?}", std::mem::discriminant(&inst.def))) } else { "null".into() }
                    );
                    if let Some(i) = tcx.impl_of_assoc(rd) {
                        let _ = write!(s, ",\"rself\":{}", esc(&ty_str(tcx.type_of(i).instantiate_identity().skip_norm_wip())));
                    }
                }
            }
        }
        s.push('}');
        s
    }

    fn operand(&self, body: &Body<'tcx>, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(body, p)),
            Operand::Constant(c) => {
                let cst = c.const_;
                let t = cst.ty();
                if let ty::FnDef(d, a) = t.kind() {
                    if let Some(a) = a.no_bound_vars() {
                        return format!("[\"c\",[\"fn\",{}]]", self.callee(*d, a));
                    }
                }
                let named = match cst {
                    Const::Unevaluated(u, _) if u.promoted.is_none() => Some(pretty(self.tcx, u.def)),
                    _ => None,
                };
                let r = match cst.eval(self.tcx, self.env, c.span) {
                    Ok(v) => self.const_val(v, t, 0),
                    Err(_) => None,
                };
                let r = r.unwrap_or_else(|| {
                    let s = format!("{}", cst);
                    format!("[\"opaque\",{},{}]", esc(&s), esc(&ty_str(t)))
                });
                match named {
                    Some(n) => format!("[\"c\",{},{}]", r, esc(&n)),
                    None => format!("[\"c\",{}]", r),
                }
            }
            _ => "[\"c\",[\"rt\"]]".into(),
        }
    }

    fn rvalue(&self, body: &Body<'tcx>, rv: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match rv {
            Rvalue::Use(op, ..) => format!("[\"use\",{}]", self.operand(body, op)),
            Rvalue::Repeat(op, n) => {
                let n = n.try_to_target_usize(tcx).map(|n| n.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(body, op), n)
            }
            Rvalue::Ref(_, bk, p) => {
                let k = match bk {
                    BorrowKind::Mut { .. } => "mut",
                    BorrowKind::Fake(_) => "fake",
                    _ => "shared",
                };
                format!("[\"ref\",\"{}\",{}]", k, self.place(body, p))
            }
            Rvalue::RawPtr(k, p) => {
                let m = format!("{:?}", k);
                format!("[\"ref\",\"{}\",{}]", if m.contains("Mut") { "mut" } else { "shared" }, self.place(body, p))
            }
            Rvalue::Cast(k, op, t) => {
                let ks = format!("{:?}", k);
                format!("[\"cast\",{},{},{},{}]", esc(&ks), self.operand(body, op), esc(&ty_str(*t)), esc(&ty_str(op.ty(&body.local_decls, tcx))))
            }
            Rvalue::BinaryOp(b, ops) => format!(
                "[\"bin\",\"{:?}\",{},{}]",
                b,
                self.operand(body, &ops.0),
                self.operand(body, &ops.1)
            ),
            Rvalue::UnaryOp(u, op) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(body, op)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let mut vs = vec![];
                if let ty::Adt(def, _) = t.kind() {
                    if def.is_enum() {
                        for (vi, d) in def.discriminants(tcx) {
                            vs.push(format!("[\"{}\",{}]", d.val, esc(def.variant(vi).name.as_str())));
                        }
                    }
                }
                format!("[\"discr\",{},{}]", self.place(body, p), arr(vs))
            }
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<String> = ops.iter().map(|o| self.operand(body, o)).collect();
                let ks = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let def = tcx.adt_def(*d);
                        let vd = def.variant(*v);
                        let names: Vec<String> = match active {
                            Some(a) => vec![esc(vd.fields[*a].name.as_str())],
                            None => vd.fields.iter().map(|f| esc(f.name.as_str())).collect(),
                        };
                        format!("[\"adt\",{},{},{}]", esc(&pretty(tcx, *d)), esc(vd.name.as_str()), arr(names))
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", esc(&def_id_str(tcx, *d))),
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", ks, arr(ops))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(body, p)),
            _ => format!("[\"other\",{}]", esc(&format!("{:?}", rv))),
        }
    }

    fn body(&self, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        let mut dbg = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()] = Some(v.name.to_string());
                } else {
                    dbg.push(format!("[{},{}]", esc(v.name.as_str()), self.place(body, &p)));
                }
            }
        }
        let locals: Vec<String> = body
            .local_decls
            .iter_enumerated()
            .map(|(i, d)| {
                format!(
                    "[{},{}]",
                    esc(&ty_str(d.ty)),
                    names[i.as_usize()].as_ref().map(|n| esc(n)).unwrap_or("null".into())
                )
            })
            .collect();
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        st.push(format!(
                            "[\"=\",{},{},{}]",
                            self.place(body, &b.0),
                            self.rvalue(body, &b.1),
                            esc(&self.span(s.source_info.span))
                        ));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(&body.local_decls, tcx).ty;
                        let n = match t.kind() {
                            ty::Adt(def, _) => def.variant(*variant_index).name.to_string(),
                            _ => String::new(),
                        };
                        st.push(format!("[\"setd\",{},{}]", self.place(body, place), esc(&n)));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = esc(&self.span(t.source_info.span));
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let vals: Vec<String> =
                        targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_u32())).collect();
                    format!(
                        "[\"switch\",{},{},{},{},{}]",
                        self.operand(body, discr),
                        arr(vals),
                        targets.otherwise().as_u32(),
                        esc(&ty_str(discr.ty(&body.local_decls, tcx))),
                        sp
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(body, place), target.as_u32())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fs = self.operand(body, func);
                    let a: Vec<String> = args.iter().map(|x| self.operand(body, &x.node)).collect();
                    let aty: Vec<String> =
                        args.iter().map(|x| esc(&ty_str(x.node.ty(&body.local_decls, tcx)))).collect();
                    format!(
                        "[\"call\",{},{},{},{},{},{}]",
                        fs,
                        arr(a),
                        self.place(body, destination),
                        target.map(|t| t.as_u32().to_string()).unwrap_or("null".into()),
                        sp,
                        arr(aty)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (m, extra) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            ("bounds".to_string(), format!("{},{}", self.operand(body, len), self.operand(body, index)))
                        }
                        AssertKind::Overflow(op, a, b) => (
                            format!("overflow:{:?}", op),
                            format!("{},{}", self.operand(body, a), self.operand(body, b)),
                        ),
                        AssertKind::OverflowNeg(a) => ("overflowneg".into(), self.operand(body, a)),
                        AssertKind::DivisionByZero(a) => ("divzero".into(), self.operand(body, a)),
                        AssertKind::RemainderByZero(a) => ("remzero".into(), self.operand(body, a)),
                        _ => ("other".into(), String::new()),
                    };
                    format!(
                        "[\"assert\",{},{},{},[{}],{},{}]",
                        self.operand(body, cond),
                        expected,
                        esc(&m),
                        extra,
                        target.as_u32(),
                        sp
                    )
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                _ => "[\"unreachable\"]".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"c\":{}}}", arr(st), ts, bb.is_cleanup));
        }
        let _ = self.owner;
        format!(
            "\"args\":{},\"locals\":{},\"dbg\":{},\"blocks\":{}",
            body.arg_count,
            arr(locals),
            arr(dbg),
            arr(blocks)
        )
    }
}

impl Callbacks for Export {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.cg.overflow_checks = Some(true);
    }

    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(dir) = std::env::var("SA_OUT") else { return Compilation::Continue };
        let krate = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        let ev = tcx.effective_visibilities(());
        let mut fns = vec![];
        for ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                continue;
            }
            if tcx.is_constructor(d) {
                continue;
            }
            let body = tcx.optimized_mir(d);
            let cx = Cx { tcx, env: TypingEnv::post_analysis(tcx, d), owner: d };
            let mut meta = format!(
                "\"id\":{},\"path\":{},\"kind\":\"{:?}\",\"span\":{},\"name\":{},\"public\":{},\"reachable\":{}",
                esc(&def_id_str(tcx, d)),
                esc(&pretty(tcx, d)),
                kind,
                esc(&cx.span(tcx.def_span(d))),
                esc(tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default().as_str()),
                matches!(kind, DefKind::Fn | DefKind::AssocFn) && tcx.visibility(d).is_public(),
                ev.is_reachable(*ld)
            );
            if matches!(kind, DefKind::Closure) {
                let _ = write!(meta, ",\"parent\":{}", esc(&def_id_str(tcx, tcx.parent(d))));
            }
            if matches!(kind, DefKind::AssocFn) {
                if let Some(i) = tcx.impl_of_assoc(d) {
                    let _ = write!(meta, ",\"self\":{}", esc(&ty_str(tcx.type_of(i).instantiate_identity().skip_norm_wip())));
                    if let Some(t) = tcx.impl_opt_trait_id(i) {
                        let _ = write!(meta, ",\"trait\":{}", esc(&pretty(tcx, t)));
                    }
                    let derived = tcx.is_builtin_derived(i);
                    let _ = write!(meta, ",\"derived\":{}", derived);
                }
            }
            fns.push(format!("{{{},{}}}", meta, cx.body(body)));
        }
        let mut adts = vec![];
        let mut consts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum => {
                    let def = tcx.adt_def(d);
                    let vs: Vec<String> = def
                        .variants()
                        .iter()
                        .map(|v| {
                            let fs: Vec<String> = v
                                .fields
                                .iter()
                                .map(|f| {
                                    format!(
                                        "[{},{},{}]",
                                        esc(f.name.as_str()),
                                        esc(&ty_str(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())),
                                        f.vis.is_public()
                                    )
                                })
                                .collect();
                            format!("[{},{}]", esc(v.name.as_str()), arr(fs))
                        })
                        .collect();
                    adts.push(format!(
                        "{{\"path\":{},\"kind\":\"{:?}\",\"variants\":{}}}",
                        esc(&pretty(tcx, d)),
                        tcx.def_kind(d),
                        arr(vs)
                    ));
                }
                DefKind::Const { .. } | DefKind::Static { .. } => {
                    consts.push(esc(&pretty(tcx, d)));
                }
                _ => {}
            }
        }
        let out = format!(
            "{{\"crate\":{},\"fns\":{},\"adts\":{},\"consts\":{}}}\n",
            esc(&krate),
            arr(fns),
            arr(adts),
            arr(consts)
        );
        let tag = std::env::var("SA_TAG").unwrap_or_default();
        std::fs::write(format!("{}/{}{}.json", dir, krate, tag), out).expect("write export");
        Compilation::Continue
    }
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    // cargo's own target query (--print=cfg) must see the host, or it would resolve another dependency set
    let query = args.iter().any(|a| a.starts_with("--print"));
    if let (Ok(c), false) = (std::env::var("SA_EXTRA"), query) {
        args.extend(c.split_whitespace().map(String::from));
    }
    args.push("--cap-lints=allow".into());
    rustc_driver_impl::compiler_entrypoint(&args, &mut Export);
}
