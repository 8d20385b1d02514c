//! rustc driver that runs the ordinary compilation and, for the crate being
//! analysed, writes the type-checked program (MIR with resolved callees, ADTs,
//! impls, visibility, unsafe uses) as JSON facts.  Nothing is executed.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::HashMap;
use std::fmt::Write as _;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

struct J(String);
impl J {
    fn s(&mut self, v: &str) {
        self.0.push('"');
        for c in v.chars() {
            match c {
                '"' => self.0.push_str("\\\""),
                '\\' => self.0.push_str("\\\\"),
                '\n' => self.0.push_str("\\n"),
                '\r' => self.0.push_str("\\r"),
                '\t' => self.0.push_str("\\t"),
                c if (c as u32) < 0x20 => {
                    let _ = write!(self.0, "\\u{:04x}", c as u32);
                }
                c => self.0.push(c),
            }
        }
        self.0.push('"');
    }
    fn r(&mut self, v: &str) {
        self.0.push_str(v);
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_list: Vec<Ty<'tcx>>,
    ty_json: Vec<String>,
    adts: HashMap<DefId, ()>,
    adt_queue: Vec<DefId>,
}

fn path<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> String {
    rustc_middle::ty::print::with_no_visible_paths!(rustc_middle::ty::print::with_no_trimmed_paths!(
        rustc_middle::ty::print::with_crate_prefix!(tcx.def_path_str(d))
    ))
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let i = self.ty_list.len();
        self.tys.insert(t, i);
        self.ty_list.push(t);
        self.ty_json.push(String::new());
        let mut j = J(String::new());
        j.r("{\"s\":");
        let s = rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string());
        j.s(&s);
        match t.kind() {
            ty::Adt(def, args) => {
                j.r(",\"k\":\"adt\",\"d\":");
                j.s(&path(self.tcx, def.did()));
                self.want_adt(def.did());
                j.r(",\"a\":[");
                let mut first = true;
                for a in args.types() {
                    if !first {
                        j.r(",");
                    }
                    first = false;
                    let n = self.ty(a);
                    let _ = write!(j.0, "{n}");
                }
                j.r("]");
            }
            ty::Ref(_, inner, m) => {
                let n = self.ty(*inner);
                let _ = write!(j.0, ",\"k\":\"ref\",\"m\":{},\"a\":[{n}]", m.is_mut() as u8);
            }
            ty::RawPtr(inner, _) => {
                let n = self.ty(*inner);
                let _ = write!(j.0, ",\"k\":\"ptr\",\"a\":[{n}]");
            }
            ty::Slice(inner) => {
                let n = self.ty(*inner);
                let _ = write!(j.0, ",\"k\":\"slice\",\"a\":[{n}]");
            }
            ty::Array(inner, len) => {
                let n = self.ty(*inner);
                let l = len.try_to_target_usize(self.tcx);
                let _ = write!(j.0, ",\"k\":\"array\",\"a\":[{n}]");
                if let Some(l) = l {
                    let _ = write!(j.0, ",\"n\":{l}");
                }
            }
            ty::Tuple(ts) => {
                j.r(",\"k\":\"tuple\",\"a\":[");
                for (i, a) in ts.iter().enumerate() {
                    if i > 0 {
                        j.r(",");
                    }
                    let n = self.ty(a);
                    let _ = write!(j.0, "{n}");
                }
                j.r("]");
            }
            ty::Closure(d, args) => {
                j.r(",\"k\":\"closure\",\"d\":");
                j.s(&path(self.tcx, *d));
                j.r(",\"a\":[");
                for (i, a) in args.as_closure().upvar_tys().iter().enumerate() {
                    if i > 0 {
                        j.r(",");
                    }
                    let n = self.ty(a);
                    let _ = write!(j.0, "{n}");
                }
                j.r("]");
            }
            ty::FnDef(d, _) => {
                j.r(",\"k\":\"fndef\",\"d\":");
                j.s(&path(self.tcx, *d));
            }
            ty::FnPtr(..) => j.r(",\"k\":\"fnptr\""),
            ty::Dynamic(..) => j.r(",\"k\":\"dyn\""),
            ty::Param(_) => j.r(",\"k\":\"param\""),
            ty::Str => j.r(",\"k\":\"str\""),
            ty::Bool => j.r(",\"k\":\"bool\""),
            ty::Char => j.r(",\"k\":\"char\""),
            ty::Int(_) => j.r(",\"k\":\"int\""),
            ty::Uint(_) => j.r(",\"k\":\"uint\""),
            ty::Float(_) => j.r(",\"k\":\"float\""),
            ty::Never => j.r(",\"k\":\"never\""),
            _ => j.r(",\"k\":\"other\""),
        }
        j.r("}");
        self.ty_json[i] = j.0;
        i
    }

    fn want_adt(&mut self, d: DefId) {
        if self.adts.insert(d, ()).is_none() {
            self.adt_queue.push(d);
        }
    }

    fn loc(&self, sp: Span) -> (String, usize, bool) {
        let exp = sp.from_expansion();
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        (format!("{}", l.file.name.prefer_local_unconditionally()), l.line, exp)
    }

    fn place(&mut self, j: &mut J, body: &Body<'tcx>, p: &Place<'tcx>) {
        let _ = write!(j.0, "[{},[", p.local.as_usize());
        for (i, (base, e)) in p.as_ref().iter_projections().enumerate() {
            if i > 0 {
                j.r(",");
            }
            match e {
                ProjectionElem::Deref => j.r("[\"*\"]"),
                ProjectionElem::Field(f, t) => {
                    let bt = base.ty(body, self.tcx);
                    let tn = self.ty(t);
                    let _ = write!(j.0, "[\"f\",{},", f.as_usize());
                    match bt.ty.kind() {
                        ty::Adt(def, _) => {
                            self.want_adt(def.did());
                            let v = bt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if def.is_union() || v.as_usize() >= def.variants().len() {
                                j.s("?");
                            } else {
                                let n = def.variant(v).fields[f].name.to_string();
                                j.s(&n);
                            }
                            j.r(",");
                            j.s(&path(self.tcx, def.did()));
                        }
                        ty::Closure(..) => {
                            j.s(&format!("up{}", f.as_usize()));
                            j.r(",\"closure\"");
                        }
                        _ => {
                            j.s(&format!("{}", f.as_usize()));
                            j.r(",\"\"");
                        }
                    }
                    let _ = write!(j.0, ",{tn}]");
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(j.0, "[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(j.0, "[\"ci\",{offset},{min_length},{}]", from_end as u8);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(j.0, "[\"sub\",{from},{to},{}]", from_end as u8);
                }
                ProjectionElem::Downcast(n, v) => {
                    let bt = base.ty(body, self.tcx);
                    let nm = match bt.ty.kind() {
                        ty::Adt(def, _) => def.variant(v).name.to_string(),
                        _ => n.map(|s| s.to_string()).unwrap_or_default(),
                    };
                    let _ = write!(j.0, "[\"d\",{},", v.as_usize());
                    j.s(&nm);
                    j.r("]");
                }
                _ => j.r("[\"?\"]"),
            }
        }
        j.r("]]");
    }

    fn operand(&mut self, j: &mut J, body: &Body<'tcx>, env: TypingEnv<'tcx>, o: &Operand<'tcx>) {
        match o {
            Operand::Copy(p) => {
                j.r("{\"c\":");
                self.place(j, body, p);
                j.r("}");
            }
            Operand::Move(p) => {
                j.r("{\"m\":");
                self.place(j, body, p);
                j.r("}");
            }
            Operand::Constant(c) => self.konst(j, env, &c.const_),
            Operand::RuntimeChecks(_) => j.r("{\"k\":{\"rt\":1},\"t\":-1}"),
        }
    }

    fn konst(&mut self, j: &mut J, env: TypingEnv<'tcx>, c: &mir::Const<'tcx>) {
        let t = c.ty();
        let tn = self.ty(t);
        let _ = write!(j.0, "{{\"t\":{tn},\"k\":");
        match t.kind() {
            ty::FnDef(d, args) => {
                self.fnref(j, env, *d, args.skip_binder());
            }
            _ => {
                let mut named: Option<String> = None;
                if let mir::Const::Unevaluated(u, _) = c {
                    if u.promoted.is_none() {
                        named = Some(path(self.tcx, u.def));
                    }
                }
                match c.eval(self.tcx, env, rustc_span::DUMMY_SP) {
                    Ok(v) => self.cv(j, v, t),
                    Err(_) => j.r("{\"uneval\":1}"),
                }
                if let Some(n) = named {
                    j.r(",\"n\":");
                    j.s(&n);
                }
            }
        }
        j.r("}");
    }

    fn fnref(
        &mut self,
        j: &mut J,
        env: TypingEnv<'tcx>,
        d: DefId,
        args: ty::GenericArgsRef<'tcx>,
    ) {
        let tcx = self.tcx;
        j.r("{\"fn\":");
        j.s(&path(tcx, d));
        j.r(",\"crate\":");
        j.s(tcx.crate_name(d.krate).as_str());
        j.r(",\"a\":[");
        let mut first = true;
        for a in args.types() {
            if !first {
                j.r(",");
            }
            first = false;
            let n = self.ty(a);
            let _ = write!(j.0, "{n}");
        }
        j.r("]");
        if let Some(tr) = tcx.trait_of_assoc(d) {
            j.r(",\"trait\":");
            j.s(&path(tcx, tr));
            j.r(",\"name\":");
            j.s(tcx.item_name(d).as_str());
        }
        let args = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, args) {
            let rd = inst.def_id();
            j.r(",\"res\":");
            j.s(&path(tcx, rd));
            j.r(",\"rk\":");
            j.s(&format!("{:?}", inst.def).split('(').next().unwrap_or("").to_string());
            j.r(",\"ra\":[");
            let mut first = true;
            for a in inst.args.types() {
                if !first {
                    j.r(",");
                }
                first = false;
                let n = self.ty(a);
                let _ = write!(j.0, "{n}");
            }
            j.r("]");
        }
        j.r("}");
    }

    fn scalar_int(&self, j: &mut J, bits: u128, size: u64, t: Ty<'tcx>) {
        match t.kind() {
            ty::Int(_) => {
                let sh = 128 - size * 8;
                let v = ((bits << sh) as i128) >> sh;
                let _ = write!(j.0, "{{\"i\":{v}}}");
            }
            ty::Bool => {
                let _ = write!(j.0, "{{\"b\":{}}}", bits);
            }
            ty::Char => {
                let c = char::from_u32(bits as u32).unwrap_or('\u{fffd}');
                j.r("{\"ch\":");
                j.s(&c.to_string());
                j.r("}");
            }
            ty::Float(f) => {
                let v = match f.bit_width() {
                    32 => f32::from_bits(bits as u32) as f64,
                    64 => f64::from_bits(bits as u64),
                    _ => f64::NAN,
                };
                if v.is_finite() {
                    let _ = write!(j.0, "{{\"f\":{v:?}}}");
                } else {
                    let _ = write!(j.0, "{{\"f\":null}}");
                }
            }
            _ => {
                let _ = write!(j.0, "{{\"i\":{bits}}}");
            }
        }
    }

    fn cv(&mut self, j: &mut J, v: ConstValue, t: Ty<'tcx>) {
        match v {
            ConstValue::ZeroSized => j.r("{\"z\":1}"),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let size = i.size().bytes();
                self.scalar_int(j, i.to_bits(i.size()), size, t);
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                self.pointee(j, prov.alloc_id(), off.bytes(), None, t, 0);
            }
            ConstValue::Slice { alloc_id, meta } => {
                self.pointee(j, alloc_id, 0, Some(meta), t, 0);
            }
            ConstValue::Indirect { alloc_id, offset } => {
                self.mem(j, alloc_id, offset.bytes(), t, 0);
            }
        }
    }

    /// value of pointer type `t` pointing at alloc+off
    fn pointee(
        &mut self,
        j: &mut J,
        alloc: rustc_middle::mir::interpret::AllocId,
        off: u64,
        meta: Option<u64>,
        t: Ty<'tcx>,
        depth: usize,
    ) {
        let tcx = self.tcx;
        match tcx.global_alloc(alloc) {
            GlobalAlloc::Memory(_) => {
                let inner = match t.kind() {
                    ty::Ref(_, i, _) => *i,
                    ty::RawPtr(i, _) => *i,
                    _ => {
                        j.r("{\"opaque\":1}");
                        return;
                    }
                };
                match inner.kind() {
                    ty::Str => {
                        let b = self.bytes(alloc, off, meta.unwrap_or(0));
                        j.r("{\"str\":");
                        match b {
                            Some(b) => j.s(&String::from_utf8_lossy(&b)),
                            None => j.s(""),
                        }
                        j.r("}");
                    }
                    ty::Slice(e) => self.arr(j, alloc, off, meta.unwrap_or(0), *e, depth),
                    _ => {
                        j.r("{\"ref\":");
                        self.mem(j, alloc, off, inner, depth + 1);
                        j.r("}");
                    }
                }
            }
            GlobalAlloc::Static(d) => {
                j.r("{\"static\":");
                j.s(&path(tcx, d));
                j.r("}");
            }
            GlobalAlloc::Function { instance } => {
                j.r("{\"fnptr\":");
                j.s(&path(tcx, instance.def_id()));
                j.r("}");
            }
            _ => j.r("{\"opaque\":1}"),
        }
    }

    fn bytes(
        &self,
        alloc: rustc_middle::mir::interpret::AllocId,
        off: u64,
        len: u64,
    ) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(alloc) {
            GlobalAlloc::Memory(m) => {
                let a = m.inner();
                let end = off.checked_add(len)?;
                if end > a.size().bytes() {
                    return None;
                }
                Some(
                    a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..end as usize)
                        .to_vec(),
                )
            }
            _ => None,
        }
    }

    fn arr(
        &mut self,
        j: &mut J,
        alloc: rustc_middle::mir::interpret::AllocId,
        off: u64,
        n: u64,
        e: Ty<'tcx>,
        depth: usize,
    ) {
        if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) {
            match self.bytes(alloc, off, n) {
                Some(b) => {
                    j.r("{\"bytes\":[");
                    for (i, x) in b.iter().enumerate() {
                        if i > 0 {
                            j.r(",");
                        }
                        let _ = write!(j.0, "{x}");
                    }
                    j.r("]}");
                }
                None => j.r("{\"opaque\":1}"),
            }
            return;
        }
        let env = TypingEnv::fully_monomorphized();
        let Ok(lay) = self.tcx.layout_of(env.as_query_input(e)) else {
            j.r("{\"opaque\":1}");
            return;
        };
        if n > 4096 || depth > 6 {
            j.r("{\"opaque\":1}");
            return;
        }
        let sz = lay.size.bytes();
        j.r("{\"arr\":[");
        for i in 0..n {
            if i > 0 {
                j.r(",");
            }
            self.mem(j, alloc, off + i * sz, e, depth + 1);
        }
        j.r("]}");
    }

    fn mem(
        &mut self,
        j: &mut J,
        alloc: rustc_middle::mir::interpret::AllocId,
        off: u64,
        t: Ty<'tcx>,
        depth: usize,
    ) {
        let tcx = self.tcx;
        if depth > 8 {
            j.r("{\"opaque\":1}");
            return;
        }
        let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc) else {
            j.r("{\"opaque\":1}");
            return;
        };
        let env = TypingEnv::fully_monomorphized();
        let read_scalar = |o: u64, size: u64, prov: bool| {
            let a = m.inner();
            if o + size > a.size().bytes() {
                return None;
            }
            a.read_scalar(
                &tcx,
                AllocRange {
                    start: rustc_abi::Size::from_bytes(o),
                    size: rustc_abi::Size::from_bytes(size),
                },
                prov,
            )
            .ok()
        };
        match t.kind() {
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Float(_) => {
                let Ok(lay) = tcx.layout_of(env.as_query_input(t)) else {
                    j.r("{\"opaque\":1}");
                    return;
                };
                let size = lay.size.bytes();
                match read_scalar(off, size, false) {
                    Some(Scalar::Int(i)) => self.scalar_int(j, i.to_bits(i.size()), size, t),
                    _ => j.r("{\"opaque\":1}"),
                }
            }
            ty::Ref(_, inner, _) => {
                let wide = matches!(inner.kind(), ty::Str | ty::Slice(_));
                match read_scalar(off, 8, true) {
                    Some(Scalar::Ptr(p, _)) => {
                        let (prov, o) = p.prov_and_relative_offset();
                        let meta = if wide {
                            match read_scalar(off + 8, 8, false) {
                                Some(Scalar::Int(i)) => Some(i.to_bits(i.size()) as u64),
                                _ => Some(0),
                            }
                        } else {
                            None
                        };
                        self.pointee(j, prov.alloc_id(), o.bytes(), meta, t, depth + 1);
                    }
                    _ => j.r("{\"opaque\":1}"),
                }
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(0);
                self.arr(j, alloc, off, n, *e, depth + 1);
            }
            ty::Tuple(ts) => {
                let Ok(lay) = tcx.layout_of(env.as_query_input(t)) else {
                    j.r("{\"opaque\":1}");
                    return;
                };
                j.r("{\"tup\":[");
                for (i, e) in ts.iter().enumerate() {
                    if i > 0 {
                        j.r(",");
                    }
                    let o = lay.fields.offset(i).bytes();
                    self.mem(j, alloc, off + o, e, depth + 1);
                }
                j.r("]}");
            }
            ty::Adt(def, args) if def.is_struct() => {
                let Ok(lay) = tcx.layout_of(env.as_query_input(t)) else {
                    j.r("{\"opaque\":1}");
                    return;
                };
                j.r("{\"struct\":{");
                let v = def.non_enum_variant();
                for (i, f) in v.fields.iter().enumerate() {
                    if i > 0 {
                        j.r(",");
                    }
                    j.s(f.name.as_str());
                    j.r(":");
                    let o = lay.fields.offset(i).bytes();
                    let ft = tcx.normalize_erasing_regions(env, f.ty(tcx, args));
                    self.mem(j, alloc, off + o, ft, depth + 1);
                }
                j.r("}}");
            }
            ty::Adt(def, _) if def.is_enum() => {
                let Ok(lay) = tcx.layout_of(env.as_query_input(t)) else {
                    j.r("{\"opaque\":1}");
                    return;
                };
                use rustc_abi::Variants;
                match lay.variants {
                    Variants::Single { index } => {
                        j.r("{\"var\":");
                        j.s(def.variant(index).name.as_str());
                        j.r("}");
                    }
                    Variants::Multiple { tag, tag_field, .. } => {
                        let o = lay.fields.offset(tag_field.as_usize()).bytes();
                        let sz = tag.size(&tcx).bytes();
                        match read_scalar(off + o, sz, false) {
                            Some(Scalar::Int(i)) if def.is_payloadfree() => {
                                let bits = i.to_bits(i.size());
                                let mut name = None;
                                for (vi, d) in def.discriminants(tcx) {
                                    let mask = if sz >= 16 { u128::MAX } else { (1u128 << (sz * 8)) - 1 };
                                    if d.val & mask == bits & mask {
                                        name = Some(def.variant(vi).name.to_string());
                                    }
                                }
                                match name {
                                    Some(n) => {
                                        j.r("{\"var\":");
                                        j.s(&n);
                                        j.r("}");
                                    }
                                    None => j.r("{\"opaque\":1}"),
                                }
                            }
                            _ => j.r("{\"opaque\":1}"),
                        }
                    }
                    _ => j.r("{\"opaque\":1}"),
                }
            }
            _ => j.r("{\"opaque\":1}"),
        }
    }

    fn rvalue(&mut self, j: &mut J, body: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) {
        match r {
            Rvalue::Use(o, ..) => {
                j.r("[\"use\",");
                self.operand(j, body, env, o);
                j.r("]");
            }
            Rvalue::Repeat(o, n) => {
                j.r("[\"repeat\",");
                self.operand(j, body, env, o);
                let n = n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1);
                let _ = write!(j.0, ",{n}]");
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                let _ = write!(j.0, "[\"ref\",{},", m as u8);
                self.place(j, body, p);
                j.r("]");
            }
            Rvalue::RawPtr(_, p) => {
                j.r("[\"ref\",2,");
                self.place(j, body, p);
                j.r("]");
            }
            Rvalue::Reborrow(_, m, p) => {
                let _ = write!(j.0, "[\"ref\",{},", m.is_mut() as u8);
                self.place(j, body, p);
                j.r("]");
            }
            Rvalue::Cast(k, o, t) => {
                let tn = self.ty(*t);
                let ks = format!("{k:?}");
                j.r("[\"cast\",");
                j.s(ks.split('(').next().unwrap_or(""));
                j.r(",");
                self.operand(j, body, env, o);
                let _ = write!(j.0, ",{tn}]");
            }
            Rvalue::BinaryOp(op, ab) => {
                j.r("[\"bin\",");
                j.s(&format!("{op:?}"));
                j.r(",");
                self.operand(j, body, env, &ab.0);
                j.r(",");
                self.operand(j, body, env, &ab.1);
                j.r("]");
            }
            Rvalue::UnaryOp(op, a) => {
                j.r("[\"un\",");
                j.s(&format!("{op:?}"));
                j.r(",");
                self.operand(j, body, env, a);
                j.r("]");
            }
            Rvalue::Discriminant(p) => {
                j.r("[\"discr\",");
                self.place(j, body, p);
                j.r("]");
            }
            Rvalue::CopyForDeref(p) => {
                j.r("[\"use\",{\"c\":");
                self.place(j, body, p);
                j.r("}]");
            }
            Rvalue::Aggregate(k, ops) => {
                j.r("[\"agg\",");
                match &**k {
                    AggregateKind::Array(_) => j.r("[\"array\"]"),
                    AggregateKind::Tuple => j.r("[\"tuple\"]"),
                    AggregateKind::Adt(d, v, ..) => {
                        self.want_adt(*d);
                        let def = self.tcx.adt_def(*d);
                        j.r("[\"adt\",");
                        j.s(&path(self.tcx, *d));
                        let _ = write!(j.0, ",{},", v.as_usize());
                        j.s(def.variant(*v).name.as_str());
                        j.r("]");
                    }
                    AggregateKind::Closure(d, _) => {
                        j.r("[\"closure\",");
                        j.s(&path(self.tcx, *d));
                        j.r("]");
                    }
                    _ => j.r("[\"other\"]"),
                }
                j.r(",[");
                for (i, o) in ops.iter().enumerate() {
                    if i > 0 {
                        j.r(",");
                    }
                    self.operand(j, body, env, o);
                }
                j.r("]]");
            }
            _ => j.r("[\"other\"]"),
        }
    }

    fn body(&mut self, j: &mut J, did: DefId, body: &Body<'tcx>, env: TypingEnv<'tcx>) {
        let tcx = self.tcx;
        let _ = write!(j.0, "\"argc\":{},\"locals\":[", body.arg_count);
        for (i, d) in body.local_decls.iter().enumerate() {
            if i > 0 {
                j.r(",");
            }
            let t = self.ty(d.ty);
            let _ = write!(j.0, "{t}");
        }
        j.r("],\"names\":{");
        let mut first = true;
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    if !first {
                        j.r(",");
                    }
                    first = false;
                    let _ = write!(j.0, "\"{}\":", p.local.as_usize());
                    j.s(v.name.as_str());
                }
            }
        }
        j.r("},\"ups\":[");
        if let Some(ld) = did.as_local() {
            if matches!(tcx.def_kind(did), DefKind::Closure) {
                for (i, c) in tcx.closure_captures(ld).iter().enumerate() {
                    if i > 0 {
                        j.r(",");
                    }
                    j.s(&c.to_string(tcx));
                }
            }
        }
        j.r("],\"blocks\":[");
        for (bi, b) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 {
                j.r(",");
            }
            j.r("{");
            if b.is_cleanup {
                j.r("\"cl\":1,");
            }
            j.r("\"s\":[");
            let mut first = true;
            if !b.is_cleanup {
                for s in &b.statements {
                    let line = self.loc(s.source_info.span).1;
                    match &s.kind {
                        StatementKind::Assign(pr) => {
                            if !first {
                                j.r(",");
                            }
                            first = false;
                            let _ = write!(j.0, "[{line},");
                            self.place(j, body, &pr.0);
                            j.r(",");
                            self.rvalue(j, body, env, &pr.1);
                            j.r("]");
                        }
                        StatementKind::SetDiscriminant { place, variant_index } => {
                            if !first {
                                j.r(",");
                            }
                            first = false;
                            let _ = write!(j.0, "[{line},");
                            self.place(j, body, place);
                            let _ = write!(j.0, ",[\"setdiscr\",{}]]", variant_index.as_usize());
                        }
                        StatementKind::StorageDead(l) => {
                            if !first {
                                j.r(",");
                            }
                            first = false;
                            let _ = write!(j.0, "[{line},[{},[]],[\"dead\"]]", l.as_usize());
                        }
                        _ => {}
                    }
                }
            }
            j.r("],\"t\":");
            let t = b.terminator();
            if b.is_cleanup {
                j.r("[0,\"cleanup\"]}");
                continue;
            }
            let (_, line, exp) = self.loc(t.source_info.span);
            let _ = write!(j.0, "[{line},");
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    let _ = write!(j.0, "\"goto\",{}", target.as_usize());
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    j.r("\"switch\",");
                    self.operand(j, body, env, discr);
                    let dt = discr.ty(body, tcx);
                    j.r(",[");
                    for (i, (v, bb)) in targets.iter().enumerate() {
                        if i > 0 {
                            j.r(",");
                        }
                        let v = match dt.kind() {
                            ty::Int(it) => {
                                let w = it.bit_width().unwrap_or(64);
                                let sh = 128 - w;
                                format!("{}", ((v << sh) as i128) >> sh)
                            }
                            _ => format!("{v}"),
                        };
                        let _ = write!(j.0, "[{v},{}]", bb.as_usize());
                    }
                    let _ = write!(j.0, "],{}", targets.otherwise().as_usize());
                }
                TerminatorKind::Return => j.r("\"ret\""),
                TerminatorKind::Unreachable => j.r("\"unreach\""),
                TerminatorKind::Drop { place, target, .. } => {
                    j.r("\"drop\",");
                    self.place(j, body, place);
                    let _ = write!(j.0, ",{}", target.as_usize());
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    j.r("\"call\",");
                    self.operand(j, body, env, func);
                    j.r(",[");
                    for (i, a) in args.iter().enumerate() {
                        if i > 0 {
                            j.r(",");
                        }
                        self.operand(j, body, env, &a.node);
                    }
                    j.r("],");
                    self.place(j, body, destination);
                    match target {
                        Some(t) => {
                            let _ = write!(j.0, ",{},{}", t.as_usize(), exp as u8);
                        }
                        None => {
                            let _ = write!(j.0, ",-1,{}", exp as u8);
                        }
                    }
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    j.r("\"assert\",");
                    self.operand(j, body, env, cond);
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{op:?}"),
                        AssertKind::OverflowNeg(_) => "overflow:Neg".to_string(),
                        AssertKind::DivisionByZero(_) => "div0".to_string(),
                        AssertKind::RemainderByZero(_) => "rem0".to_string(),
                        _ => "other".to_string(),
                    };
                    let _ = write!(j.0, ",{},", *expected as u8);
                    j.s(&kind);
                    j.r(",[");
                    match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            self.operand(j, body, env, len);
                            j.r(",");
                            self.operand(j, body, env, index);
                        }
                        AssertKind::Overflow(_, a, b) => {
                            self.operand(j, body, env, a);
                            j.r(",");
                            self.operand(j, body, env, b);
                        }
                        AssertKind::OverflowNeg(a)
                        | AssertKind::DivisionByZero(a)
                        | AssertKind::RemainderByZero(a) => self.operand(j, body, env, a),
                        _ => {}
                    }
                    let _ = write!(j.0, "],{}", target.as_usize());
                }
                _ => j.r("\"other\""),
            }
            j.r("]}");
        }
        j.r("]");
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut cx = Cx {
        tcx,
        tys: HashMap::new(),
        ty_list: vec![],
        ty_json: vec![],
        adts: HashMap::new(),
        adt_queue: vec![],
    };
    let mut j = J(String::with_capacity(64 << 20));
    j.r("{\"crate\":");
    j.s(tcx.crate_name(LOCAL_CRATE).as_str());
    j.r(",\"bodies\":[");
    let ev = tcx.effective_visibilities(());
    let mut first = true;
    for ld in tcx.hir_body_owners() {
        let did = ld.to_def_id();
        let kind = tcx.def_kind(did);
        let kname = match kind {
            DefKind::Fn => "fn",
            DefKind::AssocFn => "method",
            DefKind::Closure => "closure",
            DefKind::Const { .. } => "const",
            DefKind::AssocConst { .. } => "const",
            DefKind::Static { .. } => "static",
            _ => continue,
        };
        if matches!(kname, "const" | "static") {
            continue;
        }
        if !first {
            j.r(",\n");
        }
        first = false;
        let sp = tcx.def_span(did);
        let (file, line, exp) = cx.loc(sp);
        j.r("{\"id\":");
        j.s(&path(tcx, did));
        j.r(",\"kind\":");
        j.s(kname);
        j.r(",\"file\":");
        j.s(&file);
        let _ = write!(j.0, ",\"line\":{line},\"exp\":{}", exp as u8);
        let pb = ev.is_reachable(ld);
        let vis = tcx.visibility(did).is_public();
        let _ = write!(j.0, ",\"pub\":{},\"vis\":{}", pb as u8, vis as u8);
        if let Some(imp) = tcx.impl_of_assoc(did) {
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let n = cx.ty(st);
            let _ = write!(j.0, ",\"self\":{n}");
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                j.r(",\"trait\":");
                j.s(&path(tcx, tr.skip_binder().def_id));
            }
            let derived = tcx.is_automatically_derived(imp);
            let _ = write!(j.0, ",\"derived\":{}", derived as u8);
        }
        if let Some(tr) = tcx.trait_of_assoc(did) {
            j.r(",\"intrait\":");
            j.s(&path(tcx, tr));
        }
        if kname == "closure" {
            j.r(",\"parent\":");
            j.s(&path(tcx, tcx.parent(did)));
        } else {
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
            let _ = write!(j.0, ",\"unsafe\":{}", sig.safety().is_unsafe() as u8);
        }
        if kname != "closure" {
            j.r(",\"name\":");
            j.s(tcx.item_name(did).as_str());
        }
        j.r(",");
        let env = TypingEnv::post_analysis(tcx, did);
        let body = tcx.optimized_mir(did);
        cx.body(&mut j, did, body, env);
        j.r("}");
    }
    j.r("],\n\"traits\":{");
    // trait -> method -> implementing fns (local crate)
    let mut m: HashMap<String, Vec<(String, String)>> = HashMap::new();
    for (tr, imps) in tcx.all_local_trait_impls(()) {
        for imp in imps {
            for it in tcx.associated_items(imp.to_def_id()).in_definition_order() {
                if let Some(td) = it.trait_item_def_id() {
                    m.entry(path(tcx, td)).or_default().push((path(tcx, it.def_id), path(tcx, *tr)));
                }
            }
        }
    }
    let mut keys: Vec<_> = m.keys().cloned().collect();
    keys.sort();
    for (i, k) in keys.iter().enumerate() {
        if i > 0 {
            j.r(",");
        }
        j.s(k);
        j.r(":[");
        for (n, (a, _)) in m[k].iter().enumerate() {
            if n > 0 {
                j.r(",");
            }
            j.s(a);
        }
        j.r("]");
    }
    j.r("},\n\"unsafe\":[");
    // unsafe blocks, unsafe impls, mutable statics, extern blocks
    let mut v = UnsafeV { tcx, found: vec![] };
    tcx.hir_visit_all_item_likes_in_crate(&mut v);
    let found = std::mem::take(&mut v.found);
    for (i, (k, sp, owner)) in found.iter().enumerate() {
        if i > 0 {
            j.r(",");
        }
        let (f, l, exp) = cx.loc(*sp);
        j.r("{\"k\":");
        j.s(k);
        j.r(",\"file\":");
        j.s(&f);
        let _ = write!(j.0, ",\"line\":{l},\"exp\":{},\"owner\":", exp as u8);
        j.s(owner);
        j.r("}");
    }
    j.r("],\n\"adts\":{");
    // local adts
    for id in tcx.hir_crate_items(()).definitions() {
        if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum) {
            cx.want_adt(id.to_def_id());
        }
    }
    let mut first = true;
    while let Some(d) = cx.adt_queue.pop() {
        if !first {
            j.r(",\n");
        }
        first = false;
        j.s(&path(tcx, d));
        let def = tcx.adt_def(d);
        let _ = write!(
            j.0,
            ":{{\"enum\":{},\"local\":{}",
            def.is_enum() as u8,
            d.is_local() as u8
        );
        if let Some(ld) = d.as_local() {
            let _ = write!(j.0, ",\"pub\":{}", ev.is_reachable(ld) as u8);
            let (f, l, _) = cx.loc(tcx.def_span(d));
            j.r(",\"file\":");
            j.s(&f);
            let _ = write!(j.0, ",\"line\":{l}");
        }
        j.r(",\"v\":[");
        for (vi, v) in def.variants().iter_enumerated() {
            if vi.as_usize() > 0 {
                j.r(",");
            }
            j.r("{\"n\":");
            j.s(v.name.as_str());
            let dv = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
            let _ = write!(j.0, ",\"d\":{dv},\"f\":[");
            for (fi, f) in v.fields.iter().enumerate() {
                if fi > 0 {
                    j.r(",");
                }
                j.r("[");
                j.s(f.name.as_str());
                let t = if d.is_local() {
                    let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    cx.ty(ft) as i64
                } else {
                    -1
                };
                let _ = write!(j.0, ",{t},{}]", f.vis.is_public() as u8);
            }
            j.r("]}");
        }
        j.r("]}");
    }
    j.r("},\n\"types\":[");
    for (i, t) in cx.ty_json.iter().enumerate() {
        if i > 0 {
            j.r(",");
        }
        j.r(t);
    }
    j.r("]}");
    std::fs::write(out, j.0).expect("write facts");
}

struct UnsafeV<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<(String, Span, String)>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeV<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(src) = b.rules {
            let k = match src {
                rustc_hir::UnsafeSource::UserProvided => "block",
                _ => "compiler",
            };
            let owner = path(self.tcx, b.hir_id.owner.def_id.to_def_id());
            self.found.push((k.to_string(), b.span, owner));
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
    fn visit_item(&mut self, it: &'tcx rustc_hir::Item<'tcx>) {
        let owner = path(self.tcx, it.owner_id.def_id.to_def_id());
        match &it.kind {
            rustc_hir::ItemKind::Impl(i) => {
                if let Some(tr) = &i.of_trait {
                    if matches!(tr.safety, rustc_hir::Safety::Unsafe) {
                        self.found.push(("impl".into(), it.span, owner));
                    }
                }
            }
            rustc_hir::ItemKind::Static(m, ..) => {
                if m.is_mut() {
                    self.found.push(("static_mut".into(), it.span, owner));
                } else {
                    self.found.push(("static".into(), it.span, owner));
                }
            }
            rustc_hir::ItemKind::ForeignMod { .. } => {
                self.found.push(("extern".into(), it.span, owner));
            }
            _ => {}
        }
        rustc_hir::intravisit::walk_item(self, it);
    }
}

struct Cb {
    out: String,
}
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        dump(tcx, &format!("{}/{}.json", self.out, name));
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    args.remove(0);
    let out = std::env::var("MIRFACTS_OUT").unwrap_or_default();
    let target = args.iter().any(|a| a == "--crate-name");
    let bs = args
        .windows(2)
        .any(|w| w[0] == "--crate-name" && w[1] == "build_script_build");
    if out.is_empty() || !target || bs {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zalways-encode-mir".into());
    args.push("--cap-lints=allow".into());
    rustc_driver::catch_fatal_errors(|| rustc_driver::compiler_entrypoint(&args, &mut Cb { out })).unwrap_or_else(|_| std::process::exit(1));
}
