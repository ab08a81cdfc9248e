// mirdump: a rustc driver that dumps the resolved, type-checked MIR of the
// crate being compiled as JSON (one file per crate target). It is injected by
// cargo through RUSTC_WORKSPACE_WRAPPER, so it sees exactly what the real
// build sees. It decides nothing; the analyses in /verif/analysis do.
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write as _;

// ---------------------------------------------------------------- tiny JSON
enum J {
    S(String),
    I(i128),
    B(bool),
    N,
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N => o.push_str("null"),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{}\":", k);
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn s<T: ToString>(t: T) -> J {
    J::S(t.to_string())
}
fn n(i: usize) -> J {
    J::I(i as i128)
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    fns: HashMap<DefId, J>,
    adts: HashMap<DefId, J>,
    tenv: TypingEnv<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        self.tcx.def_path_str(d)
    }
    // A stable, unique key for a definition.
    fn key(&self, d: DefId) -> String {
        let h = self.tcx.def_path(d).to_string_no_crate_verbose();
        format!("{}{}", self.tcx.crate_name(d.krate), h)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.tymap.insert(t, i);
        self.types.push(J::N);
        let mut o: Vec<(&'static str, J)> = vec![("s", s(format!("{}", t)))];
        match t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(_) | ty::Uint(_) => o.push(("k", s("int"))),
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(self.path(def.did()))));
                o.push(("key", s(self.key(def.did()))));
                o.push(("local", J::B(def.did().is_local())));
                o.push(("box", J::B(def.is_box())));
                let a = self.gargs(args);
                o.push(("args", a));
                self.adt(def.did());
            }
            ty::Ref(_, t, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let x = self.ty(*t);
                o.push(("t", n(x)));
            }
            ty::RawPtr(t, m) => {
                o.push(("k", s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                let x = self.ty(*t);
                o.push(("t", n(x)));
            }
            ty::Slice(t) => {
                o.push(("k", s("slice")));
                let x = self.ty(*t);
                o.push(("t", n(x)));
            }
            ty::Array(t, c) => {
                o.push(("k", s("array")));
                let x = self.ty(*t);
                o.push(("t", n(x)));
                if let Some(l) = c.try_to_target_usize(self.tcx) {
                    o.push(("len", J::I(l as i128)));
                }
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|t| n(self.ty(t))).collect();
                o.push(("ts", J::A(v)));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("key", s(self.key(*d))));
                let up: Vec<J> =
                    args.as_closure().upvar_tys().iter().map(|t| n(self.ty(t))).collect();
                o.push(("ts", J::A(up)));
            }
            ty::FnDef(d, args) => {
                let d = *d;
                let args = args.no_bound_vars();
                o.push(("k", s("fndef")));
                o.push(("key", s(self.key(d))));
                o.push(("path", s(self.path(d))));
                if let Some(args) = args {
                    let a = self.gargs(args);
                    o.push(("args", a));
                    let r = self.resolve(d, args);
                    o.push(("res", r));
                }
                self.fninfo(d);
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("idx", J::I(p.index as i128)));
            }
            ty::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        self.types[i] = J::O(o);
        i
    }
    fn gargs(&mut self, args: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(n(self.ty(t)));
            } else if let Some(c) = a.as_const() {
                v.push(s(format!("{}", c)));
            }
        }
        J::A(v)
    }
    fn resolve(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let args = self.tcx.erase_and_anonymize_regions(args);
        match Instance::try_resolve(self.tcx, self.tenv, d, args) {
            Ok(Some(inst)) => {
                let rd = inst.def_id();
                self.fninfo(rd);
                let a = self.gargs(inst.args);
                let kind = match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    ty::InstanceKind::Intrinsic(_) => "intrinsic",
                    _ => "shim",
                };
                J::O(vec![
                    ("key", s(self.key(rd))),
                    ("path", s(self.path(rd))),
                    ("kind", s(kind)),
                    ("args", a),
                ])
            }
            _ => J::N,
        }
    }
    fn fninfo(&mut self, d: DefId) {
        if self.fns.contains_key(&d) {
            return;
        }
        self.fns.insert(d, J::N);
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![
            ("key", s(self.key(d))),
            ("path", s(self.path(d))),
            ("crate", s(tcx.crate_name(d.krate))),
            ("local", J::B(d.is_local())),
        ];
        let dk = tcx.def_kind(d);
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).skip_binder().skip_binder();
            o.push(("unsafe", J::B(sig.safety().is_unsafe())));
            o.push((
                "track_caller",
                J::B(
                    tcx.codegen_fn_attrs(d).flags.contains(
                        rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::TRACK_CALLER,
                    ),
                ),
            ));
            let out = self.ty(sig.output());
            o.push(("out", n(out)));
            o.push(("sig", s(format!("{}", sig))));
        }
        if matches!(dk, DefKind::AssocFn) {
            if let Some(imp) = tcx.impl_of_assoc(d) {
                let t = tcx.type_of(imp).skip_binder();
                let ti = self.ty(t);
                o.push(("impl_ty", n(ti)));
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    o.push(("trait", s(self.path(tr.skip_binder().def_id))));
                }
            } else if let Some(tr) = tcx.trait_of_assoc(d) {
                o.push(("trait_decl", s(self.path(tr))));
            }
            o.push(("name", s(tcx.item_name(d))));
        } else if let Some(nm) = tcx.opt_item_name(d) {
            o.push(("name", s(nm)));
        }
        self.fns.insert(d, J::O(o));
    }
    fn adt(&mut self, d: DefId) {
        if self.adts.contains_key(&d) {
            return;
        }
        self.adts.insert(d, J::N);
        let def = self.tcx.adt_def(d);
        let kind = if def.is_enum() {
            "enum"
        } else if def.is_union() {
            "union"
        } else {
            "struct"
        };
        let mut vs = vec![];
        let discrs: Vec<i128> = if def.is_enum() {
            def.discriminants(self.tcx).map(|(_, d)| d.val as i128).collect()
        } else {
            vec![]
        };
        for (vi, v) in def.variants().iter_enumerated() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let mut fo = vec![("name", s(f.name))];
                if d.is_local() {
                    let t = self.tcx.type_of(f.did).instantiate_identity();
                    let t = self.tcx.erase_and_anonymize_regions(t.skip_norm_wip());
                    let ti = self.ty(t);
                    fo.push(("ty", n(ti)));
                }
                fs.push(J::O(fo));
            }
            let dv = discrs.get(vi.as_usize()).copied().unwrap_or(vi.as_usize() as i128);
            vs.push(J::O(vec![("name", s(v.name)), ("discr", J::I(dv)), ("fields", J::A(fs))]));
        }
        let j = J::O(vec![
            ("key", s(self.key(d))),
            ("path", s(self.path(d))),
            ("local", J::B(d.is_local())),
            ("kind", s(kind)),
            ("variants", J::A(vs)),
        ]);
        self.adts.insert(d, j);
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let outer = sp.source_callsite();
        let lo = sm.lookup_char_pos(outer.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        J::A(vec![s(f), n(lo.line), n(lo.col.0 + 1)])
    }
    fn macro_name(&self, sp: rustc_span::Span) -> J {
        // outermost macro that produced this span, e.g. `debug` or `format`
        let mut name = J::N;
        let mut cur = sp;
        while cur.from_expansion() {
            let d = cur.ctxt().outer_expn_data();
            if let rustc_span::ExpnKind::Macro(_, m) = d.kind {
                name = s(m);
            } else {
                name = s(format!("{:?}", d.kind));
            }
            cur = d.call_site;
        }
        name
    }
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![s("f"), n(f.as_usize()), n(t)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    s("ci"),
                    J::I(offset as i128),
                    J::I(min_length as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(name, v) => J::A(vec![
                    s("d"),
                    n(v.as_usize()),
                    name.map(|x| s(x)).unwrap_or(J::N),
                ]),
                _ => J::A(vec![s("?"), s(format!("{:?}", e))]),
            });
        }
        J::A(vec![n(p.local.as_usize()), J::A(v)])
    }
    fn scalar_int(&self, i: rustc_middle::ty::ScalarInt, t: Ty<'tcx>) -> J {
        let size = i.size();
        let bits = i.to_bits(size);
        match t.kind() {
            ty::Int(_) => J::I(size.sign_extend(bits)),
            _ => {
                if bits > i128::MAX as u128 {
                    s(format!("{}", bits))
                } else {
                    J::I(bits as i128)
                }
            }
        }
    }
    fn str_of_alloc(&self, id: rustc_middle::mir::interpret::AllocId, off: usize, len: usize) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                if off + len > a.len() {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + len).to_vec())
            }
            _ => None,
        }
    }
    // Decode a `&str`/`&[u8]` fat pointer stored at `off` in allocation `id`.
    fn fat_at(&self, id: rustc_middle::mir::interpret::AllocId, off: usize) -> Option<Vec<u8>> {
        if let GlobalAlloc::Memory(a) = self.tcx.global_alloc(id) {
            let a = a.inner();
            let raw = self.str_of_alloc(id, off, 16)?;
            let o2 = u64::from_le_bytes(raw[0..8].try_into().ok()?) as usize;
            let len = u64::from_le_bytes(raw[8..16].try_into().ok()?) as usize;
            let prov = a.provenance().ptrs().iter().find(|(o, _)| o.bytes_usize() == off)?.1;
            return self.str_of_alloc(prov.alloc_id(), o2, len);
        }
        None
    }
    // Decode a value of type `t` stored in memory (best effort).
    fn mem_val(&mut self, id: rustc_middle::mir::interpret::AllocId, off: usize, t: Ty<'tcx>, depth: usize) -> J {
        if depth > 6 {
            return J::N;
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Uint(_) | ty::Int(_) => {
                let sz = match self.tcx.layout_of(self.tenv.as_query_input(t)) {
                    Ok(l) => l.size.bytes_usize(),
                    _ => return J::N,
                };
                if let Some(b) = self.str_of_alloc(id, off, sz) {
                    let mut v: u128 = 0;
                    for (i, x) in b.iter().enumerate() {
                        v |= (*x as u128) << (8 * i);
                    }
                    let k = match t.kind() {
                        ty::Char => "char",
                        ty::Bool => "bool",
                        _ => "int",
                    };
                    let mut x = v as i128;
                    if matches!(t.kind(), ty::Int(_)) && sz < 16 && v >> (8 * sz - 1) & 1 == 1 {
                        x -= 1i128 << (8 * sz);
                    }
                    return J::A(vec![s(k), J::I(x)]);
                }
                J::N
            }
            ty::Array(et, c) => {
                let l = match c.try_to_target_usize(self.tcx) {
                    Some(l) => l as usize,
                    None => return J::N,
                };
                if matches!(et.kind(), ty::Uint(ty::UintTy::U8)) {
                    return match self.str_of_alloc(id, off, l) {
                        Some(b) => J::A(vec![s("bytes"), J::A(b.iter().map(|x| n(*x as usize)).collect())]),
                        None => J::N,
                    };
                }
                let esz = match self.tcx.layout_of(self.tenv.as_query_input(*et)) {
                    Ok(l) => l.size.bytes_usize(),
                    _ => return J::N,
                };
                if l > 512 {
                    return J::N;
                }
                let v = (0..l).map(|i| self.mem_val(id, off + i * esz, *et, depth + 1)).collect();
                J::A(vec![s("array"), J::A(v)])
            }
            ty::Ref(_, inner, _) => {
                if inner.is_str() {
                    return match self.fat_at(id, off) {
                        Some(b) => J::A(vec![s("str"), s(String::from_utf8_lossy(&b))]),
                        None => J::N,
                    };
                }
                if let GlobalAlloc::Memory(a) = self.tcx.global_alloc(id) {
                    let a = a.inner();
                    if let (Some(raw), Some((_, p))) = (
                        self.str_of_alloc(id, off, 8),
                        a.provenance().ptrs().iter().find(|(o, _)| o.bytes_usize() == off),
                    ) {
                        let o2 = u64::from_le_bytes(raw[0..8].try_into().unwrap()) as usize;
                        let pid = p.alloc_id();
                        if let ty::Slice(et) = inner.kind() {
                            if let Some(raw2) = self.str_of_alloc(id, off + 8, 8) {
                                let l = u64::from_le_bytes(raw2[0..8].try_into().unwrap()) as usize;
                                let esz = match self.tcx.layout_of(self.tenv.as_query_input(*et)) {
                                    Ok(l) => l.size.bytes_usize(),
                                    _ => return J::N,
                                };
                                if l <= 512 {
                                    let v = (0..l)
                                        .map(|i| self.mem_val(pid, o2 + i * esz, *et, depth + 1))
                                        .collect();
                                    return J::A(vec![s("ref"), J::A(vec![s("array"), J::A(v)])]);
                                }
                            }
                            return J::N;
                        }
                        let v = self.mem_val(pid, o2, *inner, depth + 1);
                        return J::A(vec![s("ref"), v]);
                    }
                }
                J::N
            }
            ty::Tuple(ts) => {
                if let Ok(l) = self.tcx.layout_of(self.tenv.as_query_input(t)) {
                    let mut v = vec![];
                    for (i, ft) in ts.iter().enumerate() {
                        let fo = l.fields.offset(i).bytes_usize();
                        v.push(self.mem_val(id, off + fo, ft, depth + 1));
                    }
                    return J::A(vec![s("tuple"), J::A(v)]);
                }
                J::N
            }
            ty::Adt(def, args) if def.is_struct() && !def.is_box() => {
                if let Ok(l) = self.tcx.layout_of(self.tenv.as_query_input(t)) {
                    let mut v = vec![];
                    for (i, f) in def.non_enum_variant().fields.iter().enumerate() {
                        let ft = f.ty(self.tcx, args).skip_norm_wip();
                        let fo = l.fields.offset(i).bytes_usize();
                        v.push(self.mem_val(id, off + fo, ft, depth + 1));
                    }
                    return J::A(vec![s("adt"), s(self.key(def.did())), J::A(v)]);
                }
                J::N
            }
            _ => J::N,
        }
    }
    fn konst(&mut self, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut o: Vec<(&'static str, J)> = vec![("ty", n(ti))];
        if let ty::FnDef(..) = t.kind() {
            o.push(("k", s("fn")));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("k", s("promoted")));
                o.push(("v", n(p.as_usize())));
                o.push(("of", s(self.key(u.def))));
                return J::O(o);
            }
            o.push(("item", s(self.key(u.def))));
        }
        let val = match c.const_ {
            Const::Val(v, _) => Some(v),
            _ => c.const_.eval(self.tcx, self.tenv, c.span).ok(),
        };
        match val {
            None => {
                o.push(("k", s("opaque")));
                o.push(("v", s(format!("{}", c.const_))));
            }
            Some(ConstValue::ZeroSized) => o.push(("k", s("zst"))),
            Some(ConstValue::Scalar(Scalar::Int(i))) => {
                o.push(("k", s("int")));
                let v = self.scalar_int(i, t);
                o.push(("v", v));
            }
            Some(ConstValue::Scalar(Scalar::Ptr(p, _))) => {
                let (prov, off) = p.into_raw_parts();
                let id = prov.alloc_id();
                match self.tcx.global_alloc(id) {
                    GlobalAlloc::Static(d) => {
                        o.push(("k", s("static")));
                        o.push(("v", s(self.key(d))));
                    }
                    GlobalAlloc::Memory(_) => {
                        let inner = t.builtin_deref(true);
                        let v = match inner {
                            Some(it) => self.mem_val(id, off.bytes_usize(), it, 0),
                            None => J::N,
                        };
                        o.push(("k", s("memref")));
                        o.push(("v", v));
                    }
                    _ => o.push(("k", s("opaque"))),
                }
            }
            Some(ConstValue::Slice { alloc_id, meta }) => {
                if let Some(b) = self.str_of_alloc(alloc_id, 0, meta as usize) {
                    let is_str = matches!(t.kind(), ty::Ref(_, x, _) if x.is_str());
                    if is_str {
                        o.push(("k", s("str")));
                        o.push(("v", s(String::from_utf8_lossy(&b))));
                    } else {
                        o.push(("k", s("bytes")));
                        o.push(("v", J::A(b.iter().map(|x| n(*x as usize)).collect())));
                    }
                } else {
                    o.push(("k", s("opaque")));
                }
            }
            Some(ConstValue::Indirect { alloc_id, offset }) => {
                let v = self.mem_val(alloc_id, offset.bytes_usize(), t, 0);
                o.push(("k", s("mem")));
                o.push(("v", v));
            }
        }
        J::O(o)
    }
    fn operand(&mut self, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => {
                let p = self.place(p);
                J::A(vec![s("c"), p])
            }
            Operand::Move(p) => {
                let p = self.place(p);
                J::A(vec![s("m"), p])
            }
            Operand::Constant(c) => {
                let c = self.konst(c);
                J::A(vec![s("k"), c])
            }
            _ => J::A(vec![s("?"), s(format!("{:?}", op))]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(op, ..) => {
                let x = self.operand(op);
                J::A(vec![s("use"), x])
            }
            Rvalue::Repeat(op, c) => {
                let x = self.operand(op);
                J::A(vec![s("repeat"), x, s(format!("{}", c))])
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                let p = self.place(p);
                J::A(vec![s("ref"), p, J::B(m)])
            }
            Rvalue::Reborrow(_, m, p) => {
                let m = m.is_mut();
                let p = self.place(p);
                J::A(vec![s("ref"), p, J::B(m)])
            }
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.key(*d))]),
            Rvalue::RawPtr(k, p) => {
                let p = self.place(p);
                J::A(vec![s("rawptr"), p, s(format!("{:?}", k))])
            }
            Rvalue::Cast(k, op, t) => {
                let x = self.operand(op);
                let t = self.ty(*t);
                J::A(vec![s("cast"), s(format!("{:?}", k)), x, n(t)])
            }
            Rvalue::BinaryOp(b, ops) => {
                let x = self.operand(&ops.0);
                let y = self.operand(&ops.1);
                J::A(vec![s("bin"), s(format!("{:?}", b)), x, y])
            }
            Rvalue::UnaryOp(u, op) => {
                let x = self.operand(op);
                J::A(vec![s("un"), s(format!("{:?}", u)), x])
            }
            Rvalue::Discriminant(p) => {
                let p = self.place(p);
                J::A(vec![s("discr"), p])
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                let kj = match &**k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        J::A(vec![s("array"), n(t)])
                    }
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, _, _, active) => {
                        self.adt(*d);
                        let name = self.tcx.adt_def(*d).variant(*vi).name;
                        J::A(vec![
                            s("adt"),
                            s(self.path(*d)),
                            n(vi.as_usize()),
                            s(name),
                            s(self.key(*d)),
                            active.map(|f| n(f.as_usize())).unwrap_or(J::N),
                        ])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(self.key(*d))]),
                    k => J::A(vec![s("?"), s(format!("{:?}", k))]),
                };
                J::A(vec![s("agg"), kj, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p);
                J::A(vec![s("use"), J::A(vec![s("c"), p])])
            }
            r => J::A(vec![s("?"), s(format!("{:?}", r))]),
        }
    }
    fn body(&mut self, b: &Body<'tcx>) -> Vec<(&'static str, J)> {
        let mut locals = vec![];
        for (_, d) in b.local_decls.iter_enumerated() {
            let t = self.ty(self.tcx.erase_and_anonymize_regions(d.ty));
            locals.push(n(t));
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                let p = self.place(&p);
                names.push(J::A(vec![s(v.name), p]));
            }
        }
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &bb.statements {
                let j = match &x.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rvalue(&a.1);
                        J::A(vec![s("="), p, r, self.span(x.source_info.span)])
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        J::A(vec![s("setd"), p, n(variant_index.as_usize()), self.span(x.source_info.span)])
                    }
                    StatementKind::StorageDead(l) => J::A(vec![s("dead"), n(l.as_usize())]),
                    StatementKind::StorageLive(l) => J::A(vec![s("live"), n(l.as_usize())]),
                    StatementKind::Intrinsic(i) => J::A(vec![s("intr"), s(format!("{:?}", i))]),
                    _ => continue,
                };
                st.push(j);
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let mac = self.macro_name(t.source_info.span);
            let mut o: Vec<(&'static str, J)> = vec![];
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("t", n(target.as_usize())));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    o.push(("k", s("switch")));
                    let dt = discr.ty(b, self.tcx);
                    let dti = self.ty(dt);
                    let d = self.operand(discr);
                    o.push(("d", d));
                    o.push(("dty", n(dti)));
                    let ts = targets
                        .iter()
                        .map(|(v, t)| J::A(vec![J::I(v as i128), n(t.as_usize())]))
                        .collect();
                    o.push(("ts", J::A(ts)));
                    o.push(("o", n(targets.otherwise().as_usize())));
                }
                TerminatorKind::Return => o.push(("k", s("return"))),
                TerminatorKind::Unreachable => o.push(("k", s("unreachable"))),
                TerminatorKind::UnwindResume => o.push(("k", s("resume"))),
                TerminatorKind::UnwindTerminate(_) => o.push(("k", s("abort"))),
                TerminatorKind::Drop { place, target, .. } => {
                    o.push(("k", s("drop")));
                    let dt = place.ty(b, self.tcx).ty;
                    let dti = self.ty(self.tcx.erase_and_anonymize_regions(dt));
                    let p = self.place(place);
                    o.push(("p", p));
                    o.push(("ty", n(dti)));
                    o.push(("t", n(target.as_usize())));
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    o.push(("k", s("call")));
                    let f = self.operand(func);
                    o.push(("f", f));
                    let a = args.iter().map(|x| self.operand(&x.node)).collect();
                    o.push(("a", J::A(a)));
                    let d = self.place(destination);
                    o.push(("d", d));
                    o.push(("t", target.map(|t| n(t.as_usize())).unwrap_or(J::N)));
                    let fs = self.span(*fn_span);
                    o.push(("fs", fs));
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    o.push(("k", s("assert")));
                    let c = self.operand(cond);
                    o.push(("c", c));
                    o.push(("e", J::B(*expected)));
                    let (mk, ops): (String, Vec<&Operand<'tcx>>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            ("bounds".into(), vec![len, index])
                        }
                        AssertKind::Overflow(op, a, b) => {
                            (format!("overflow:{:?}", op), vec![a, b])
                        }
                        AssertKind::OverflowNeg(a) => ("overflow:Neg".into(), vec![a]),
                        AssertKind::DivisionByZero(a) => ("divzero".into(), vec![a]),
                        AssertKind::RemainderByZero(a) => ("remzero".into(), vec![a]),
                        _ => ("other".into(), vec![]),
                    };
                    o.push(("m", s(mk)));
                    let v = ops.into_iter().map(|x| self.operand(x)).collect();
                    o.push(("ops", J::A(v)));
                    o.push(("t", n(target.as_usize())));
                }
                k => {
                    o.push(("k", s("?")));
                    o.push(("v", s(format!("{:?}", k))));
                }
            }
            o.push(("s", sp));
            o.push(("mac", mac));
            blocks.push(J::O(vec![
                ("st", J::A(st)),
                ("t", J::O(o)),
                ("cleanup", J::B(bb.is_cleanup)),
            ]));
        }
        vec![
            ("argc", n(b.arg_count)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ]
    }
}

struct Unsafes<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    out: &'a mut Vec<rustc_span::Span>,
}
impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for Unsafes<'a, 'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            self.out.push(b.span);
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

struct Dump;
impl Callbacks for Dump {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let Ok(dir) = std::env::var("MIRDUMP_OUT") else { return Compilation::Continue };
        let mut cx = Cx {
            tcx,
            types: vec![],
            tymap: HashMap::new(),
            fns: HashMap::new(),
            adts: HashMap::new(),
            tenv: TypingEnv::fully_monomorphized(),
        };
        let mut bodies = vec![];
        let ev = tcx.effective_visibilities(());
        for ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            let dk = tcx.def_kind(d);
            cx.tenv = TypingEnv::post_analysis(tcx, d);
            let (kind, body): (&str, &Body<'tcx>) = match dk {
                DefKind::Fn | DefKind::AssocFn => ("fn", tcx.optimized_mir(d)),
                DefKind::Closure => ("closure", tcx.optimized_mir(d)),
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst => {
                    ("const", tcx.mir_for_ctfe(d))
                }
                DefKind::Static { .. } => ("static", tcx.mir_for_ctfe(d)),
                DefKind::Ctor(..) => continue,
                _ => continue,
            };
            let mut o: Vec<(&'static str, J)> = vec![
                ("key", s(cx.key(d))),
                ("path", s(cx.path(d))),
                ("kind", s(kind)),
            ];
            o.push(("span", cx.span(tcx.def_span(d))));
            o.push(("from_expansion", J::B(tcx.def_span(d).from_expansion())));
            o.push(("parent", s(cx.key(tcx.parent(d)))));
            if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
                cx.fninfo(d);
                o.push(("public", J::B(ev.is_reachable(*ld))));
                o.push(("exported", J::B(ev.is_exported(*ld))));
            }
            if let DefKind::Static { mutability, .. } = dk {
                o.push(("static_mut", J::B(mutability.is_mut())));
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let freeze = t.is_freeze(tcx, cx.tenv);
                o.push(("freeze", J::B(freeze)));
                let ti = cx.ty(t);
                o.push(("static_ty", n(ti)));
                o.push((
                    "tls",
                    J::B(tcx.is_thread_local_static(d)),
                ));
            }
            o.extend(cx.body(body));
            let mut ps = vec![];
            if !matches!(kind, "const" | "static") || true {
                for p in tcx.promoted_mir(d).iter() {
                    let pb = cx.body(p);
                    ps.push(J::O(pb));
                }
            }
            o.push(("promoted", J::A(ps)));
            bodies.push(J::O(o));
        }
        // unsafe blocks written by hand in this crate
        let mut us = vec![];
        {
            let mut v = Unsafes { tcx, out: &mut us };
            tcx.hir_walk_toplevel_module(&mut v);
        }
        let us: Vec<J> = us.into_iter().map(|sp| cx.span(sp)).collect();
        // trait impls in this crate: trait path, self type, methods
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).free_items() {
            let d = id.owner_id.to_def_id();
            if let DefKind::Impl { of_trait } = tcx.def_kind(d) {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let t = tcx.erase_and_anonymize_regions(t);
                let ti = cx.ty(t);
                let mut ms = vec![];
                for a in tcx.associated_items(d).in_definition_order() {
                    if matches!(a.kind, ty::AssocKind::Fn { .. }) {
                        ms.push(J::A(vec![s(tcx.item_name(a.def_id)), s(cx.key(a.def_id))]));
                    }
                }
                let tr = if of_trait {
                    s(cx.path(tcx.impl_trait_ref(d).skip_binder().def_id))
                } else {
                    J::N
                };
                impls.push(J::O(vec![("trait", tr), ("ty", n(ti)), ("methods", J::A(ms))]));
            }
        }
        let mut fns: Vec<J> = vec![];
        for (_, j) in std::mem::take(&mut cx.fns) {
            fns.push(j);
        }
        let mut adts: Vec<J> = vec![];
        for (_, j) in std::mem::take(&mut cx.adts) {
            adts.push(j);
        }
        let types = std::mem::take(&mut cx.types);
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let is_bin = tcx.entry_fn(()).is_some();
        let entry = tcx.entry_fn(()).map(|(d, _)| s(cx.key(d))).unwrap_or(J::N);
        let j = J::O(vec![
            ("crate", s(&name)),
            ("bin", J::B(is_bin)),
            ("entry", entry),
            ("types", J::A(types)),
            ("fns", J::A(fns)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("unsafe_blocks", J::A(us)),
            ("bodies", J::A(bodies)),
        ]);
        let mut out = String::new();
        j.w(&mut out);
        let f = format!("{}/{}{}.json", dir, name, if is_bin { ".bin" } else { "" });
        std::fs::write(&f, out).expect("mirdump: cannot write");
        Compilation::Continue
    }
}

fn main() {
    // invoked as: mirdump <rustc> <args...>
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    // keep args[0] = rustc path as program name
    if std::env::var("MIRDUMP_OUT").is_ok() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir=no".into());
    }
    rustc_driver::install_ice_hook("https://example.invalid", |_| ());
    let code = rustc_driver::catch_with_exit_code(|| {
        rustc_driver::compiler_entrypoint(&args, &mut Dump);
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
