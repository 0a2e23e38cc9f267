//! rustc driver that dumps the type-checked program of a workspace crate as JSON facts.
//!
//! It is injected by cargo as RUSTC_WORKSPACE_WRAPPER.  For every local crate it writes
//! `$HCLFACTS_OUT/<crate>.json`: ADTs, impls, functions (visibility, reachability, unsafe use)
//! and, for every body (fn, closure, const, static, promoted), its MIR with resolved callees.
//! Nothing is executed: the driver stops after analysis facts are written and lets the
//! normal `cargo check` pipeline finish.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_hir::intravisit::{self, Visitor};
use rustc_interface::interface;
use rustc_middle::mir::{
    self, AggregateKind, AssertKind, Body, Const, ConstValue, Operand, Place, ProjectionElem,
    Rvalue, StatementKind, TerminatorKind, UnwindAction,
};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

struct Js {
    out: String,
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list(items: impl IntoIterator<Item = String>) -> String {
    let v: Vec<String> = items.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_js: Vec<String>,
    seen_x: std::collections::HashSet<DefId>,
    xadts: Vec<String>,
}

fn alias_parts<'tcx>(t: Ty<'tcx>) -> Option<(DefId, GenericArgsRef<'tcx>)> {
    match t.kind() {
        ty::Alias(_, a) => match a.kind {
            ty::AliasTyKind::Projection { def_id } => Some((def_id.into(), a.args)),
            _ => None,
        },
        _ => None,
    }
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, id: DefId) -> String {
        with_resolve_crate_name!(with_no_trimmed_paths!(self.tcx.def_path_str(id)))
    }

    /// Unique identifier of a definition: crate name plus verbose def path.
    fn id(&self, id: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(id.krate),
            self.tcx.def_path(id).to_string_no_crate_verbose()
        )
    }

    fn span(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let loc = sm.lookup_char_pos(sp.lo());
        let hi = sm.lookup_char_pos(sp.hi());
        let name = format!("{}", loc.file.name.prefer_local_unconditionally());
        format!("[{},{},{}]", esc(&name), loc.line, hi.line)
    }

    fn line(&self, sp: Span) -> usize {
        let sm = self.tcx.sess.source_map();
        sm.lookup_char_pos(sp.source_callsite().lo()).line
    }

    fn args(&mut self, args: GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for a in args.iter() {
            match a.kind() {
                GenericArgKind::Type(t) => v.push(self.ty(t).to_string()),
                GenericArgKind::Lifetime(_) => {}
                GenericArgKind::Const(c) => v.push(esc(&format!("{}", c))),
                #[allow(unreachable_patterns)]
                _ => {}
            }
        }
        list(v)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        // reserve the slot first to be safe on recursion (types are not cyclic, but keep order)
        let idx = self.type_js.len();
        self.types.insert(t, idx);
        self.type_js.push(String::new());
        let s = with_resolve_crate_name!(with_no_trimmed_paths!(format!("{}", t)));
        let mut body = format!("{{\"s\":{}", esc(&s));
        match t.kind() {
            ty::Adt(def, args) => {
                let a = self.args(args);
                if !def.did().is_local() && self.seen_x.insert(def.did()) {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let discr = if def.is_enum() {
                            def.discriminant_for_variant(self.tcx, vi).val.to_string()
                        } else {
                            "0".into()
                        };
                        let fs = list(v.fields.iter().map(|f| esc(f.name.as_str())));
                        vs.push(format!(
                            "{{\"name\":{},\"discr\":{},\"fields\":{}}}",
                            esc(v.name.as_str()),
                            esc(&discr),
                            fs
                        ));
                    }
                    self.xadts.push(format!(
                        "{{\"id\":{},\"path\":{},\"enum\":{},\"variants\":{}}}",
                        esc(&self.id(def.did())),
                        esc(&self.path(def.did())),
                        def.is_enum(),
                        list(vs)
                    ));
                }
                let _ = write!(
                    body,
                    ",\"k\":\"adt\",\"def\":{},\"path\":{},\"args\":{}",
                    esc(&self.id(def.did())),
                    esc(&self.path(def.did())),
                    a
                );
            }
            ty::Ref(_, inner, m) => {
                let i = self.ty(*inner);
                let _ = write!(body, ",\"k\":\"ref\",\"mut\":{},\"t\":{}", m.is_mut(), i);
            }
            ty::RawPtr(inner, m) => {
                let i = self.ty(*inner);
                let _ = write!(body, ",\"k\":\"ptr\",\"mut\":{},\"t\":{}", m.is_mut(), i);
            }
            ty::Slice(inner) => {
                let i = self.ty(*inner);
                let _ = write!(body, ",\"k\":\"slice\",\"t\":{}", i);
            }
            ty::Array(inner, n) => {
                let i = self.ty(*inner);
                let _ = write!(body, ",\"k\":\"array\",\"t\":{},\"n\":{}", i, esc(&format!("{}", n)));
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                let _ = write!(body, ",\"k\":\"tuple\",\"args\":{}", list(v));
            }
            ty::FnDef(did, args) => {
                let a = args.skip_binder();
                let aj = self.args(a);
                let tr = self
                    .tcx
                    .trait_of_assoc(*did)
                    .map(|t| esc(&self.id(t)))
                    .unwrap_or_else(|| "null".into());
                let _ = write!(
                    body,
                    ",\"k\":\"fndef\",\"def\":{},\"path\":{},\"args\":{},\"trait\":{}",
                    esc(&self.id(*did)),
                    esc(&self.path(*did)),
                    aj,
                    tr
                );
            }
            ty::Closure(did, args) => {
                let aj = self.args(args.as_closure().parent_args().into_iter().copied().collect_args(self.tcx));
                let _ = write!(
                    body,
                    ",\"k\":\"closure\",\"def\":{},\"path\":{},\"args\":{}",
                    esc(&self.id(*did)),
                    esc(&self.path(*did)),
                    aj
                );
            }
            ty::Param(p) => {
                let _ = write!(body, ",\"k\":\"param\",\"name\":{}", esc(p.name.as_str()));
            }
            ty::FnPtr(..) => body.push_str(",\"k\":\"fnptr\""),
            ty::Dynamic(..) => body.push_str(",\"k\":\"dyn\""),
            ty::Alias(..) => {
                body.push_str(",\"k\":\"alias\"");
                if let Some((def, args)) = alias_parts(t) {
                    let a = self.args(args);
                    let _ = write!(body, ",\"def\":{},\"args\":{}", esc(&self.id(def)), a);
                }
            }
            ty::Never => body.push_str(",\"k\":\"never\""),
            _ => body.push_str(",\"k\":\"prim\""),
        }
        body.push('}');
        self.type_js[idx] = body;
        idx
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut out = format!("[{}", p.local.as_usize());
        let mut pty = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for elem in p.projection.iter() {
            out.push(',');
            match elem {
                ProjectionElem::Deref => out.push_str("\"*\""),
                ProjectionElem::Field(..)
                    if matches!(pty.ty.kind(), ty::Adt(d, _) if d.is_box()
                        || ["Unique", "NonNull"].contains(&tcx.item_name(d.did()).as_str())) =>
                {
                    out.push_str("\"b\"");
                }
                ProjectionElem::Field(f, _) => {
                    let mut name = String::new();
                    match pty.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if def.is_enum() || def.is_struct() || def.is_union() {
                                if v.as_usize() < def.variants().len() {
                                    let vd = def.variant(v);
                                    if f.as_usize() < vd.fields.len() {
                                        name = vd.fields[f].name.to_string();
                                    }
                                }
                            }
                        }
                        _ => {}
                    }
                    let _ = write!(out, "[\"f\",{},{}]", f.as_usize(), esc(&name));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(out, "[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(out, "[\"c\",{},{},{}]", offset, min_length, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(out, "[\"s\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(def, _) if def.is_enum() => def.variant(v).name.to_string(),
                        _ => String::new(),
                    };
                    let _ = write!(out, "[\"d\",{},{}]", v.as_usize(), esc(&name));
                }
                _ => out.push_str("[\"?\"]"),
            }
            pty = pty.projection_ty(tcx, elem);
        }
        out.push(']');
        out
    }

    fn const_val(&mut self, cv: ConstValue, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        match cv {
            ConstValue::ZeroSized => {
                if let ty::FnDef(did, _) = t.kind() {
                    return format!("\"fn\":{}", esc(&self.id(*did)));
                }
                "\"zst\":true".to_string()
            }
            ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                let bits = i.to_bits(i.size());
                match t.kind() {
                    ty::Bool => format!("\"bool\":{}", bits != 0),
                    ty::Char => format!(
                        "\"char\":{}",
                        esc(&char::from_u32(bits as u32).map(|c| c.to_string()).unwrap_or_default())
                    ),
                    ty::Int(_) => {
                        let sh = 128 - i.size().bits();
                        let v = ((bits as i128) << sh) >> sh;
                        format!("\"int\":{}", esc(&v.to_string()))
                    }
                    ty::Uint(_) => format!("\"int\":{}", esc(&bits.to_string())),
                    ty::Float(_) => format!("\"float\":{}", esc(&format!("{:#x}", bits))),
                    _ => format!("\"bits\":{}", esc(&bits.to_string())),
                }
            }
            ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                // A pointer to an allocation: try to read it as (nested) bytes.
                let (prov, off) = p.prov_and_relative_offset();
                let alloc_id = prov.alloc_id();
                match tcx.try_get_global_alloc(alloc_id) {
                    Some(mir::interpret::GlobalAlloc::Memory(a)) => {
                        let inner = a.inner();
                        let len = inner.len();
                        let bytes = inner
                            .inspect_with_uninit_and_ptr_outside_interpreter(off.bytes() as usize..len);
                        let mut hex = String::new();
                        for b in bytes {
                            let _ = write!(hex, "{:02x}", b);
                        }
                        // nested pointers (e.g. arrays of &str): resolve each relocation
                        let mut rel = vec![];
                        for (o, pr) in inner.provenance().ptrs().iter() {
                            let tgt = match tcx.try_get_global_alloc(pr.alloc_id()) {
                                Some(mir::interpret::GlobalAlloc::Memory(b)) => {
                                    let bi = b.inner();
                                    let bs = bi.inspect_with_uninit_and_ptr_outside_interpreter(0..bi.len());
                                    let mut h = String::new();
                                    for x in bs {
                                        let _ = write!(h, "{:02x}", x);
                                    }
                                    esc(&h)
                                }
                                Some(mir::interpret::GlobalAlloc::Function { instance, .. }) => {
                                    esc(&format!("fn:{}", self.id(instance.def_id())))
                                }
                                _ => "null".to_string(),
                            };
                            rel.push(format!("[{},{}]", o.bytes(), tgt));
                        }
                        format!("\"mem\":{},\"rel\":{}", esc(&hex), list(rel))
                    }
                    Some(mir::interpret::GlobalAlloc::Static(did)) => {
                        format!("\"static\":{}", esc(&self.id(did)))
                    }
                    Some(mir::interpret::GlobalAlloc::Function { instance, .. }) => {
                        format!("\"fnptr\":{}", esc(&self.id(instance.def_id())))
                    }
                    _ => "\"ptr\":true".to_string(),
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                let a = tcx.global_alloc(alloc_id).unwrap_memory();
                let bytes = a
                    .inner()
                    .inspect_with_uninit_and_ptr_outside_interpreter(0..(meta as usize).min(a.inner().len()));
                match t.kind() {
                    ty::Ref(_, inner, _) if inner.is_str() => {
                        format!("\"str\":{}", esc(&String::from_utf8_lossy(bytes)))
                    }
                    _ => {
                        let mut hex = String::new();
                        for b in bytes {
                            let _ = write!(hex, "{:02x}", b);
                        }
                        format!("\"bytes\":{}", esc(&hex))
                    }
                }
            }
            ConstValue::Indirect { .. } => {
                // e.g. a by-value aggregate constant
                if let Some(b) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    cv.try_get_slice_bytes_for_diagnostics(tcx)
                }))
                .ok()
                .flatten()
                .filter(|_| matches!(t.kind(), ty::Ref(_, i, _) if i.is_str() || i.is_slice()))
                {
                    if matches!(t.kind(), ty::Ref(_, i, _) if i.is_str()) {
                        return format!("\"str\":{}", esc(&String::from_utf8_lossy(b)));
                    }
                }
                "\"indirect\":true".to_string()
            }
        }
    }

    fn constant(&mut self, owner: DefId, c: &mir::ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut extra = String::new();
        let body = match c.const_ {
            Const::Val(v, t) => self.const_val(v, t),
            Const::Unevaluated(u, _) => {
                let mut s = format!("\"uneval\":{}", esc(&self.id(u.def)));
                if let Some(p) = u.promoted {
                    let _ = write!(s, ",\"promoted\":{}", p.as_usize());
                } else {
                    // try to evaluate a non-generic constant
                    let env = TypingEnv::post_analysis(tcx, owner);
                    if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                        extra = format!(",{}", self.const_val(v, t));
                    }
                }
                s
            }
            Const::Ty(_, ct) => {
                let env = TypingEnv::post_analysis(tcx, owner);
                match c.const_.eval(tcx, env, c.span) {
                    Ok(v) => self.const_val(v, t),
                    Err(_) => format!("\"tyconst\":{}", esc(&format!("{}", ct))),
                }
            }
        };
        format!("{{\"t\":{},{}{}}}", ti, body, extra)
    }

    fn operand(&mut self, owner: DefId, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(body, p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(owner, c)),
            #[allow(unreachable_patterns)]
            _ => "[\"rt\"]".to_string(),
        }
    }

    fn rvalue(&mut self, owner: DefId, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(owner, body, o)),
            Rvalue::Repeat(o, n) => {
                format!("[\"repeat\",{},{}]", self.operand(owner, body, o), esc(&format!("{}", n)))
            }
            Rvalue::Ref(_, bk, p) => format!(
                "[\"ref\",{},{}]",
                matches!(bk, mir::BorrowKind::Mut { .. }),
                self.place(body, p)
            ),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.id(*d))),
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(body, p)),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                let ks = format!("{:?}", k);
                format!("[\"cast\",{},{},{}]", esc(&ks), self.operand(owner, body, o), ti)
            }
            Rvalue::BinaryOp(op, b) => {
                let l = self.operand(owner, body, &b.0);
                let r = self.operand(owner, body, &b.1);
                format!("[\"bin\",{},{},{}]", esc(&format!("{:?}", op)), l, r)
            }
            Rvalue::UnaryOp(op, o) => {
                format!("[\"un\",{},{}]", esc(&format!("{:?}", op)), self.operand(owner, body, o))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let ti = self.ty(t);
                format!("[\"discr\",{},{}]", self.place(body, p), ti)
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(owner, body, o)).collect();
                let kj = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(did, vi, _, _, _) => {
                        let def = self.tcx.adt_def(*did);
                        let vd = def.variant(*vi);
                        let names = list(vd.fields.iter().map(|f| esc(f.name.as_str())));
                        format!(
                            "[\"adt\",{},{},{},{},{}]",
                            esc(&self.id(*did)),
                            esc(&self.path(*did)),
                            vi.as_usize(),
                            esc(vd.name.as_str()),
                            names
                        )
                    }
                    AggregateKind::Closure(did, _) => format!("[\"closure\",{}]", esc(&self.id(*did))),
                    other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
                };
                format!("[\"agg\",{},{}]", kj, list(v))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(body, p)),
            _ => "[\"other\"]".to_string(),
        }
    }

    fn callee(&mut self, owner: DefId, body: &Body<'tcx>, f: &Operand<'tcx>) -> String {
        let tcx = self.tcx;
        let fty = f.ty(&body.local_decls, tcx);
        if let ty::FnDef(did, args) = fty.kind() {
            let args = args.skip_binder();
            let aj = self.args(args);
            let env = TypingEnv::post_analysis(tcx, owner);
            let mut res = String::from("null");
            let eargs = tcx
                .try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(args))
                .unwrap_or(args);
            if let Ok(Some(inst)) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                ty::Instance::try_resolve(tcx, env, *did, eargs).ok().flatten()
            })) {
                let kind = match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    ty::InstanceKind::Intrinsic(_) => "intrinsic",
                    _ => "shim",
                };
                let ra = self.args(inst.args);
                res = format!(
                    "{{\"id\":{},\"path\":{},\"kind\":{},\"args\":{}}}",
                    esc(&self.id(inst.def_id())),
                    esc(&self.path(inst.def_id())),
                    esc(kind),
                    ra
                );
            }
            let tr = tcx
                .trait_of_assoc(*did)
                .map(|t| esc(&self.id(t)))
                .unwrap_or_else(|| "null".into());
            let safe = tcx.fn_sig(*did).skip_binder().safety().is_safe();
            return format!(
                "{{\"id\":{},\"path\":{},\"args\":{},\"trait\":{},\"res\":{},\"safe\":{}}}",
                esc(&self.id(*did)),
                esc(&self.path(*did)),
                aj,
                tr,
                res,
                safe
            );
        }
        let t = self.ty(fty);
        format!("{{\"op\":{},\"t\":{}}}", self.operand(owner, body, f), t)
    }

    fn body(&mut self, owner: DefId, body: &Body<'tcx>) -> String {
        let mut out = String::new();
        let _ = write!(out, "{{\"argc\":{},\"locals\":[", body.arg_count);
        for (i, l) in body.local_decls.iter().enumerate() {
            if i > 0 {
                out.push(',');
            }
            let _ = write!(out, "{}", self.ty(l.ty));
        }
        out.push_str("],\"names\":[");
        let mut first = true;
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                if !first {
                    out.push(',');
                }
                first = false;
                let pl = self.place(body, p);
                let _ = write!(out, "[{},{}]", esc(v.name.as_str()), pl);
            }
        }
        out.push_str("],\"blocks\":[");
        for (i, bb) in body.basic_blocks.iter().enumerate() {
            if i > 0 {
                out.push(',');
            }
            let _ = write!(out, "{{\"c\":{},\"s\":[", bb.is_cleanup);
            let mut first = true;
            for st in &bb.statements {
                let j = match &st.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let pj = self.place(body, p);
                        let rj = self.rvalue(owner, body, r);
                        format!("[\"=\",{},{},{}]", pj, rj, self.line(st.source_info.span))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"setd\",{},{}]", self.place(body, place), variant_index.as_usize())
                    }
                    _ => continue,
                };
                if !first {
                    out.push(',');
                }
                first = false;
                out.push_str(&j);
            }
            out.push_str("],\"t\":");
            let term = bb.terminator();
            let line = self.line(term.source_info.span);
            let uw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => b.as_usize().to_string(),
                _ => "null".to_string(),
            };
            let tj = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(owner, body, discr);
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    let dti = self.ty(dt);
                    let v = list(
                        targets.iter().map(|(v, b)| format!("[{},{}]", esc(&v.to_string()), b.as_usize())),
                    );
                    format!("[\"switch\",{},{},{},{},{}]", d, v, targets.otherwise().as_usize(), dti, line)
                }
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"terminate\"]".into(),
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let t = place.ty(&body.local_decls, self.tcx).ty;
                    let ti = self.ty(t);
                    format!(
                        "[\"drop\",{},{},{},{}]",
                        self.place(body, place),
                        target.as_usize(),
                        uw(unwind),
                        ti
                    )
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.callee(owner, body, func);
                    let a: Vec<String> = args.iter().map(|a| self.operand(owner, body, &a.node)).collect();
                    let d = self.place(body, destination);
                    format!(
                        "[\"call\",{},{},{},{},{},{}]",
                        f,
                        list(a),
                        d,
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        uw(unwind),
                        line
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(owner, body, cond);
                    let (m, ops): (String, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => (
                            "bounds".into(),
                            vec![self.operand(owner, body, len), self.operand(owner, body, index)],
                        ),
                        AssertKind::Overflow(op, l, r) => (
                            format!("overflow:{:?}", op),
                            vec![self.operand(owner, body, l), self.operand(owner, body, r)],
                        ),
                        AssertKind::OverflowNeg(o) => {
                            ("overflow:Neg".into(), vec![self.operand(owner, body, o)])
                        }
                        AssertKind::DivisionByZero(o) => ("div0".into(), vec![self.operand(owner, body, o)]),
                        AssertKind::RemainderByZero(o) => ("rem0".into(), vec![self.operand(owner, body, o)]),
                        _ => ("other".into(), vec![]),
                    };
                    format!(
                        "[\"assert\",{},{},{},{},{},{}]",
                        c,
                        expected,
                        esc(&m),
                        list(ops),
                        target.as_usize(),
                        line
                    )
                }
                other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
            };
            out.push_str(&tj);
            out.push('}');
        }
        out.push_str("]}");
        out
    }
}

trait CollectArgs<'tcx> {
    fn collect_args(self, tcx: TyCtxt<'tcx>) -> GenericArgsRef<'tcx>;
}
impl<'tcx, I: Iterator<Item = ty::GenericArg<'tcx>>> CollectArgs<'tcx> for I {
    fn collect_args(self, tcx: TyCtxt<'tcx>) -> GenericArgsRef<'tcx> {
        tcx.mk_args_from_iter(self)
    }
}

struct UnsafeFinder<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<Span>,
}

impl<'tcx> Visitor<'tcx> for UnsafeFinder<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(src) = b.rules {
            if matches!(src, rustc_hir::UnsafeSource::UserProvided) {
                self.found.push(b.span);
            }
        }
        intravisit::walk_block(self, b);
    }
}

fn dump(tcx: TyCtxt<'_>, out_dir: &str) {
    let mut d = Dump {
        tcx,
        types: HashMap::new(),
        type_js: vec![],
        seen_x: Default::default(),
        xadts: vec![],
    };
    let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    let ev = tcx.effective_visibilities(());
    let mut js = Js { out: String::new() };
    let _ = write!(js.out, "{{\"crate\":{},\"adts\":[", esc(&krate));

    // ADTs, impls, functions from all local definitions
    let mut adts = vec![];
    let mut impls = vec![];
    let mut fns = vec![];
    let mut traits = vec![];
    let mut consts = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let did = ld.to_def_id();
        let kind = tcx.def_kind(did);
        let vis = |id: DefId| tcx.visibility(id).is_public();
        match kind {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let def = tcx.adt_def(did);
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in &v.fields {
                        let t = tcx.type_of(f.did).instantiate_identity().skip_normalization();
                        let ti = d.ty(t);
                        fs.push(format!(
                            "{{\"name\":{},\"t\":{},\"pub\":{}}}",
                            esc(f.name.as_str()),
                            ti,
                            vis(f.did)
                        ));
                    }
                    let discr = if def.is_enum() {
                        def.discriminant_for_variant(tcx, vi).val.to_string()
                    } else {
                        "0".into()
                    };
                    vs.push(format!(
                        "{{\"name\":{},\"discr\":{},\"fields\":{}}}",
                        esc(v.name.as_str()),
                        esc(&discr),
                        list(fs)
                    ));
                }
                let g: Vec<String> =
                    tcx.generics_of(did).own_params.iter().map(|p| esc(p.name.as_str())).collect();
                adts.push(format!(
                    "{{\"id\":{},\"path\":{},\"kind\":{},\"pub\":{},\"reach\":{},\"span\":{},\"generics\":{},\"variants\":{}}}",
                    esc(&d.id(did)),
                    esc(&d.path(did)),
                    esc(&format!("{:?}", kind)),
                    vis(did),
                    ev.is_reachable(ld),
                    d.span(tcx.def_span(did)),
                    list(g),
                    list(vs)
                ));
            }
            DefKind::Impl { of_trait } => {
                let selft = tcx.type_of(did).instantiate_identity().skip_normalization();
                let st = d.ty(selft);
                let mut trid = String::from("null");
                let (tr, trs, targs) = if of_trait {
                    let r = tcx.impl_trait_ref(did).instantiate_identity().skip_normalization();
                    let a = d.args(r.args);
                    trid = esc(&d.id(r.def_id));
                    (
                        esc(&d.path(r.def_id)),
                        esc(&with_resolve_crate_name!(with_no_trimmed_paths!(format!("{}", r)))),
                        a,
                    )
                } else {
                    ("null".into(), "null".into(), "[]".into())
                };
                let derived = tcx.is_automatically_derived(did);
                let mut ms = vec![];
                for it in tcx.associated_items(did).in_definition_order() {
                    let ti = it
                        .trait_item_def_id()
                        .map(|t| esc(&d.id(t)))
                        .unwrap_or("null".into());
                    let tyv = if it.is_type() {
                        let t = tcx.type_of(it.def_id).instantiate_identity().skip_normalization();
                        d.ty(t).to_string()
                    } else {
                        "null".into()
                    };
                    ms.push(format!(
                        "{{\"name\":{},\"ty\":{},\"id\":{},\"of\":{},\"kind\":{}}}",
                        esc(&it.opt_name().map(|n| n.to_string()).unwrap_or_default()),
                        tyv,
                        esc(&d.id(it.def_id)),
                        ti,
                        esc(if it.is_fn() { "fn" } else if it.is_type() { "type" } else { "const" })
                    ));
                }
                let mut preds = vec![];
                for c in tcx.param_env(did).caller_bounds() {
                    if let Some(p) = c.as_projection_clause() {
                        let p = p.skip_binder();
                        if let Some(t) = p.term.as_type() {
                            let a = d.args(p.projection_term.args);
                            preds.push(format!("[{},{},{}]", esc(&d.id(p.projection_term.expect_projection_def_id())), a, d.ty(t)));
                        }
                    }
                }
                impls.push(format!(
                    "{{\"id\":{},\"self\":{},\"traitid\":{},\"trait\":{},\"traitref\":{},\"targs\":{},\"derived\":{},\"span\":{},\"items\":{},\"preds\":{}}}",
                    esc(&d.id(did)),
                    st,
                    trid,
                    tr,
                    trs,
                    targs,
                    derived,
                    d.span(tcx.def_span(did)),
                    list(ms),
                    list(preds)
                ));
            }
            DefKind::Trait => {
                let mut ms = vec![];
                for it in tcx.associated_items(did).in_definition_order() {
                    ms.push(format!(
                        "{{\"name\":{},\"id\":{},\"default\":{}}}",
                        esc(&it.opt_name().map(|n| n.to_string()).unwrap_or_default()),
                        esc(&d.id(it.def_id)),
                        it.defaultness(tcx).has_value()
                    ));
                }
                traits.push(format!(
                    "{{\"id\":{},\"path\":{},\"reach\":{},\"items\":{}}}",
                    esc(&d.id(did)),
                    esc(&d.path(did)),
                    ev.is_reachable(ld),
                    list(ms)
                ));
            }
            _ => {}
        }
    }

    let mut bodies = vec![];
    for ld in tcx.hir_body_owners() {
        let did = ld.to_def_id();
        let kind = tcx.def_kind(did);
        let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
        let mirb: &Body<'_> = if is_fn {
            tcx.optimized_mir(did)
        } else if matches!(
            kind,
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }
        ) {
            tcx.mir_for_ctfe(did)
        } else {
            continue;
        };
        let mut uf = UnsafeFinder { tcx, found: vec![] };
        if let Some(bid) = tcx.hir_maybe_body_owned_by(ld) {
            uf.visit_body(bid);
        }
        let mut b = d.body(did, mirb);
        b.pop(); // drop closing brace, append meta
        let _ = write!(
            b,
            ",\"id\":{},\"path\":{},\"kind\":{},\"span\":{}",
            esc(&d.id(did)),
            esc(&d.path(did)),
            esc(&format!("{:?}", kind)),
            d.span(tcx.hir_span_with_body(tcx.local_def_id_to_hir_id(ld)))
        );
        let from_macro = tcx.def_span(did).from_expansion();
        let _ = write!(b, ",\"macro\":{}", from_macro);
        if matches!(kind, DefKind::Closure) {
            let parent = tcx.typeck_root_def_id(did);
            let _ = write!(b, ",\"root\":{},\"parent\":{}", esc(&d.id(parent)), esc(&d.id(tcx.parent(did))));
            let up: Vec<String> = tcx
                .closure_captures(ld)
                .iter()
                .map(|c| esc(&c.to_symbol().to_string()))
                .collect();
            let _ = write!(b, ",\"captures\":{}", list(up));
        } else {
            let _ = write!(
                b,
                ",\"pub\":{},\"reach\":{},\"exported\":{}",
                tcx.visibility(did).is_public(),
                ev.is_reachable(ld),
                ev.is_exported(ld)
            );
            let par = tcx.opt_parent(did).map(|p| d.id(p)).unwrap_or_default();
            let _ = write!(b, ",\"parent\":{}", esc(&par));
            if is_fn {
                let sig = tcx.fn_sig(did).skip_binder();
                let _ = write!(b, ",\"unsafe\":{}", !sig.safety().is_safe());
                if let Some(ai) = tcx.opt_associated_item(did) {
                    let _ = write!(b, ",\"name\":{}", esc(ai.name().as_str()));
                    if let Some(t) = ai.trait_item_def_id() {
                        let _ = write!(b, ",\"of\":{}", esc(&d.id(t)));
                    }
                } else {
                    let _ = write!(b, ",\"name\":{}", esc(tcx.item_name(did).as_str()));
                }
                let gens: Vec<String> = {
                    let g = tcx.generics_of(did);
                    let mut v = vec![];
                    let mut cur = Some(g);
                    let mut stack = vec![];
                    while let Some(g) = cur {
                        stack.push(g);
                        cur = g.parent.map(|p| tcx.generics_of(p));
                    }
                    for g in stack.into_iter().rev() {
                        for p in &g.own_params {
                            if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                                v.push(esc(p.name.as_str()));
                            }
                        }
                    }
                    v
                };
                let _ = write!(b, ",\"generics\":{}", list(gens));
            }
        }
        let us: Vec<String> = uf.found.iter().map(|s| d.span(*s)).collect();
        let _ = write!(b, ",\"unsafe_blocks\":{}", list(us));
        // promoteds
        let proms = tcx.promoted_mir(did);
        let pj: Vec<String> = proms.iter().map(|p| d.body(did, p)).collect();
        let _ = write!(b, ",\"promoted\":{}}}", list(pj));
        if is_fn {
            fns.push(b.clone());
        } else {
            consts.push(b.clone());
        }
        bodies.push(());
    }
    let _ = write!(
        js.out,
        "{}],\"xadts\":[{}],\"impls\":[{}],\"traits\":[{}],\"fns\":[{}],\"consts\":[{}],\"types\":[{}]}}",
        adts.join(",\n"),
        d.xadts.join(",\n"),
        impls.join(",\n"),
        traits.join(",\n"),
        fns.join(",\n"),
        consts.join(",\n"),
        d.type_js.join(",\n")
    );
    let tmp = format!("{}/.{}.{}.tmp", out_dir, krate, std::process::id());
    std::fs::write(&tmp, js.out).expect("write facts");
    std::fs::rename(&tmp, format!("{}/{}.json", out_dir, krate)).expect("rename facts");
}

#[allow(dead_code)]
fn _unused(_: LocalDefId) {}

struct Cb {
    out: Option<String>,
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, c: &mut interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(o) = &self.out {
            dump(tcx, o);
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let only = std::env::var("HCLFACTS_ONLY").ok();
    let out = std::env::var("HCLFACTS_OUT").ok().filter(|_| {
        only.as_deref().map_or(true, |o| o.split(',').any(|n| Some(n) == name.as_deref()))
            && name.as_deref().map_or(false, |n| n != "build_script_build" && n != "___")
    });
    let mut cb = Cb { out };
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
}
