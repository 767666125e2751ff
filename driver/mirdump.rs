// mirdump: a rustc driver that writes the monomorphic MIR of everything
// reachable from the `law_*` functions of the crate being compiled (and the
// list of items of the analysed crate) as JSON.  It decides nothing.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_span;

use rustc_middle::ty::TyCtxt;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::rustc_internal::internal;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Cx<'t> {
    tcx: TyCtxt<'t>,
    tys: HashMap<Ty, usize>,
    ty_json: Vec<String>,
    inst: HashMap<Instance, usize>,
    queue: Vec<Instance>,
    files: HashMap<String, usize>,
    file_list: Vec<String>,
    skip: Vec<String>,
}

impl<'t> Cx<'t> {
    fn def_path(&self, d: rustc_public::DefId) -> String {
        let did = internal(self.tcx, d);
        self.tcx.def_path_str(did)
    }
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let id = self.ty_json.len();
        self.tys.insert(t, id);
        self.ty_json.push(String::new());
        let s = self.ty_str(t);
        let size = t.layout().ok().map(|l| l.shape().size.bytes() as i64).unwrap_or(-1);
        self.ty_json[id] = format!("{{\"s\":{},\"sz\":{},{}}}", q(&format!("{}", t)), size, s);
        id
    }
    fn args(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for g in &a.0 {
            match g {
                GenericArgKind::Lifetime(_) => {}
                GenericArgKind::Type(t) => v.push(format!("{}", self.ty(*t))),
                GenericArgKind::Const(c) => v.push(q(&format!("const {}", self.tyconst(c)))),
            }
        }
        list(v)
    }
    fn tyconst(&mut self, c: &TyConst) -> String {
        match c.kind() {
            TyConstKind::Value(_, a) => format!("{}", a.read_uint().unwrap_or(0)),
            _ => match c.eval_target_usize() {
                Ok(v) => format!("{}", v),
                Err(_) => "?".into(),
            },
        }
    }
    fn ty_str(&mut self, t: Ty) -> String {
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".into(),
                RigidTy::Char => "\"k\":\"char\"".into(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":true", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":false", i.num_bytes() * 8),
                RigidTy::Float(f) => format!("\"k\":\"float\",\"n\":{}", q(&format!("{:?}", f))),
                RigidTy::Adt(d, a) => {
                    let args = self.args(&a);
                    let kind = if d.kind().is_enum() {
                        "enum"
                    } else if d.kind().is_union() {
                        "union"
                    } else {
                        "struct"
                    };
                    let mut vs = vec![];
                    for v in d.variants_iter() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = self.ty(f.ty_with_args(&a));
                            fs.push(format!("[{},{}]", q(&f.name), ft));
                        }
                        let discr = if d.kind().is_enum() { d.discriminant_for_variant(v.idx()).val } else { 0 };
                        vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", q(&v.name()), discr, list(fs)));
                    }
                    format!(
                        "\"k\":\"adt\",\"ak\":\"{}\",\"n\":{},\"args\":{},\"v\":{}",
                        kind,
                        q(&self.def_path(d.def_id())),
                        args,
                        list(vs)
                    )
                }
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Array(e, n) => {
                    let n = self.tyconst(&n);
                    format!("\"k\":\"array\",\"e\":{},\"len\":{}", self.ty(e), n)
                }
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(e)),
                RigidTy::RawPtr(e, m) => {
                    format!("\"k\":\"ptr\",\"e\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut)
                }
                RigidTy::Ref(_, e, m) => {
                    format!("\"k\":\"ref\",\"e\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut)
                }
                RigidTy::Tuple(v) => {
                    let v = v.iter().map(|t| format!("{}", self.ty(*t))).collect();
                    format!("\"k\":\"tuple\",\"f\":{}", list(v))
                }
                RigidTy::Closure(d, a) => {
                    let ity = internal(self.tcx, t);
                    let mut ups = vec![];
                    if let rustc_middle::ty::TyKind::Closure(_, ca) = ity.kind() {
                        let tys: Vec<_> = ca.as_closure().upvar_tys().iter().collect();
                        for u in tys {
                            let st = rustc_public::rustc_internal::stable(u);
                            ups.push(format!("{}", self.ty(st)));
                        }
                    }
                    let _ = a;
                    format!("\"k\":\"closure\",\"n\":{},\"f\":{}", q(&self.def_path(d.def_id())), list(ups))
                }
                RigidTy::FnDef(d, a) => {
                    let args = self.args(&a);
                    format!("\"k\":\"fndef\",\"n\":{},\"args\":{}", q(&self.def_path(d.def_id())), args)
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".into(),
                _ => "\"k\":\"other\"".into(),
            },
            _ => "\"k\":\"other\"".into(),
        }
    }
    fn span(&mut self, sp: Span) -> (usize, usize) {
        let f = sp.get_filename().to_string();
        let n = self.file_list.len();
        let id = *self.files.entry(f.clone()).or_insert(n);
        if id == n {
            self.file_list.push(f);
        }
        (id, sp.get_lines().start_line)
    }
    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".into(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", rustc_internal_idx(*v)),
                ProjectionElem::OpaqueCast(_) => "[\"oc\"]".into(),
            });
        }
        format!("[{},{}]", p.local, list(v))
    }
    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => {
                let t = self.ty(c.const_.ty());
                let v = self.konst(&c.const_);
                format!("[\"k\",{},{}]", t, v)
            }
            Operand::RuntimeChecks(r) => format!("[\"rc\",\"{:?}\"]", r),
        }
    }
    fn konst(&mut self, c: &MirConst) -> String {
        match c.kind() {
            ConstantKind::ZeroSized => self.zst(c.ty()),
            ConstantKind::Allocated(a) => self.decode(c.ty(), a, 0),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => self.decode(*t, a, 0),
                TyConstKind::ZSTValue(t) => self.zst(*t),
                _ => "{\"u\":\"tyconst\"}".into(),
            },
            k => format!("{{\"u\":{}}}", q(&format!("{:?}", k))),
        }
    }
    fn zst(&mut self, t: Ty) -> String {
        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = t.kind() {
            return self.fndef(d, &a);
        }
        "{\"z\":1}".into()
    }
    fn fndef(&mut self, d: FnDef, a: &GenericArgs) -> String {
        match Instance::resolve(d, a) {
            Ok(i) => format!("{{\"fn\":{}}}", self.instance(i)),
            Err(_) => format!("{{\"fnu\":{}}}", q(&self.def_path(d.def_id()))),
        }
    }
    fn uint(&self, a: &Allocation, off: usize, n: usize) -> Option<u128> {
        if n == 0 {
            return Some(0);
        }
        a.read_partial_uint(off..off + n).ok()
    }
    fn decode(&mut self, t: Ty, a: &Allocation, off: usize) -> String {
        let bad = |s: &str| format!("{{\"u\":{}}}", q(s));
        let TyKind::RigidTy(r) = t.kind() else { return bad("nonrigid") };
        match r {
            RigidTy::Bool => match self.uint(a, off, 1) {
                Some(v) => format!("{{\"b\":{}}}", v != 0),
                None => bad("uninit"),
            },
            RigidTy::Char => match self.uint(a, off, 4) {
                Some(v) => format!("{{\"ch\":{}}}", v),
                None => bad("uninit"),
            },
            RigidTy::Uint(u) => match self.uint(a, off, u.num_bytes()) {
                Some(v) => format!("{{\"i\":{}}}", v),
                None => bad("uninit"),
            },
            RigidTy::Int(u) => match self.uint(a, off, u.num_bytes()) {
                Some(v) => {
                    let bits = u.num_bytes() * 8;
                    let s = if bits < 128 && (v >> (bits - 1)) & 1 == 1 {
                        (v as i128) - (1i128 << bits)
                    } else {
                        v as i128
                    };
                    format!("{{\"i\":{}}}", s)
                }
                None => bad("uninit"),
            },
            RigidTy::Float(f) => {
                let n = match f {
                    FloatTy::F16 => 2,
                    FloatTy::F32 => 4,
                    FloatTy::F64 => 8,
                    FloatTy::F128 => 16,
                };
                match self.uint(a, off, n) {
                    Some(v) => format!("{{\"fl\":{},\"n\":{}}}", v, n),
                    None => bad("uninit"),
                }
            }
            RigidTy::Tuple(ts) => {
                let Ok(l) = t.layout() else { return bad("layout") };
                let mut v = vec![];
                if let FieldsShape::Arbitrary { offsets } = &l.shape().fields {
                    for (i, ft) in ts.iter().enumerate() {
                        v.push(self.decode(*ft, a, off + offsets[i].bytes()));
                    }
                }
                format!("{{\"s\":{}}}", list(v))
            }
            RigidTy::Array(e, n) => {
                let n: usize = self.tyconst(&n).parse().unwrap_or(0);
                let Ok(l) = e.layout() else { return bad("layout") };
                let st = l.shape().size.bytes();
                let mut v = vec![];
                if n > 4096 {
                    return bad("big array");
                }
                for i in 0..n {
                    v.push(self.decode(e, a, off + i * st));
                }
                format!("{{\"a\":{}}}", list(v))
            }
            RigidTy::Adt(d, ga) => {
                let Ok(l) = t.layout() else { return bad("layout") };
                let sh = l.shape();
                if d.kind().is_union() {
                    return bad("union");
                }
                let (vi, offs): (usize, Vec<usize>) = match &sh.variants {
                    VariantsShape::Single { index } => {
                        let offs = match &sh.fields {
                            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                            _ => vec![],
                        };
                        (rustc_internal_idx(*index), offs)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, variants, .. } => {
                        let FieldsShape::Arbitrary { offsets } = &sh.fields else { return bad("enum fields") };
                        let toff = offsets[0].bytes();
                        let prim = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. } => *value,
                            rustc_public::abi::Scalar::Union { value } => *value,
                        };
                        let n = prim.size(&rustc_public::target::MachineInfo::target()).bytes();
                        let has_prov = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                        let tagv = if has_prov { None } else { self.uint(a, off + toff, n) };
                        let mut idx = None;
                        match tag_encoding {
                            TagEncoding::Direct => {
                                for v in d.variants_iter() {
                                    let mask = if n >= 16 { u128::MAX } else { (1u128 << (n * 8)) - 1 };
                                    if Some(d.discriminant_for_variant(v.idx()).val & mask) == tagv {
                                        idx = Some(rustc_internal_idx(v.idx()));
                                    }
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let s = rustc_internal_idx(*niche_variants.start());
                                let e = rustc_internal_idx(*niche_variants.end());
                                idx = Some(rustc_internal_idx(*untagged_variant));
                                if let Some(tv) = tagv {
                                    let mask = if n >= 16 { u128::MAX } else { (1u128 << (n * 8)) - 1 };
                                    let rel = tv.wrapping_sub(*niche_start) & mask;
                                    if rel <= (e - s) as u128 {
                                        idx = Some(s + rel as usize);
                                    }
                                }
                            }
                        }
                        let Some(i) = idx else { return bad("tag") };
                        (i, variants[i].offsets.iter().map(|o| o.bytes()).collect())
                    }
                    VariantsShape::Empty => return bad("empty"),
                };
                let Some(vd) = d.variants_iter().nth(vi) else { return bad("variant") };
                let mut v = vec![];
                for (i, f) in vd.fields().iter().enumerate() {
                    let ft = f.ty_with_args(&ga);
                    v.push(self.decode(ft, a, off + offs.get(i).copied().unwrap_or(0)));
                }
                format!("{{\"v\":{},\"s\":{}}}", vi, list(v))
            }
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let Some((_, prov)) = a.provenance.ptrs.iter().find(|(o, _)| *o == off) else {
                    // dangling reference to a zero-sized value
                    return "{\"r\":{\"z\":1}}".into();
                };
                let base = self.uint(a, off, 8).unwrap_or(0) as usize;
                match GlobalAlloc::from(prov.0) {
                    GlobalAlloc::Memory(m) => match e.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let len = self.uint(a, off + 8, 8).unwrap_or(0) as usize;
                            let b: Vec<u8> = m.bytes[base..base + len].iter().map(|b| b.unwrap_or(0)).collect();
                            format!("{{\"str\":{}}}", q(&String::from_utf8_lossy(&b)))
                        }
                        TyKind::RigidTy(RigidTy::Slice(el)) => {
                            let len = self.uint(a, off + 8, 8).unwrap_or(0) as usize;
                            let st = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                            let mut v = vec![];
                            if len > 4096 {
                                return bad("big slice");
                            }
                            for i in 0..len {
                                v.push(self.decode(el, &m, base + i * st));
                            }
                            format!("{{\"r\":{{\"a\":{}}}}}", list(v))
                        }
                        TyKind::RigidTy(RigidTy::Dynamic(..)) => bad("dyn"),
                        _ => format!("{{\"r\":{}}}", self.decode(e, &m, base)),
                    },
                    GlobalAlloc::Static(s) => {
                        // a static that cannot change is as good as a constant
                        let did = internal(self.tcx, s.def_id());
                        let ty = self.tcx.type_of(did).instantiate_identity().skip_norm_wip();
                        let frozen = ty.is_freeze(self.tcx, rustc_middle::ty::TypingEnv::fully_monomorphized());
                        match s.eval_initializer() {
                            Ok(m) if frozen && !self.tcx.is_mutable_static(did) => format!("{{\"r\":{}}}", self.decode(e, &m, base)),
                            _ => format!("{{\"static\":{}}}", q(&s.name())),
                        }
                    }
                    _ => bad("alloc"),
                }
            }
            RigidTy::FnPtr(_) => {
                let Some((_, prov)) = a.provenance.ptrs.iter().find(|(o, _)| *o == off) else { return bad("fnptr") };
                match GlobalAlloc::from(prov.0) {
                    GlobalAlloc::Function(i) => format!("{{\"fn\":{}}}", self.instance(i)),
                    _ => bad("fnptr alloc"),
                }
            }
            RigidTy::FnDef(d, a) => self.fndef(d, &a),
            RigidTy::Closure(..) => "{\"z\":1}".into(),
            _ => bad("type"),
        }
    }
    /// the methods of the vtable an unsizing coercion attaches
    fn vtable(&mut self, from: Ty, to: Ty) -> Option<String> {
        use rustc_middle::ty::{self, TyKind as K};
        fn pointee(t: ty::Ty<'_>) -> Option<ty::Ty<'_>> {
            match t.kind() {
                K::Ref(_, e, _) => Some(*e),
                K::RawPtr(e, _) => Some(*e),
                K::Adt(_, a) => a.types().next(),
                _ => None,
            }
        }
        let tcx = self.tcx;
        let (f, t) = (pointee(internal(tcx, from))?, pointee(internal(tcx, to))?);
        let K::Dynamic(preds, ..) = t.kind() else { return None };
        if matches!(f.kind(), K::Dynamic(..)) {
            return None;
        }
        let principal = preds.principal()?;
        let tr = tcx.instantiate_bound_regions_with_erased(principal.with_self_ty(tcx, f));
        let mut es = vec![];
        for e in tcx.vtable_entries(tr) {
            es.push(match e {
                ty::VtblEntry::Method(i) => format!("{}", self.instance(rustc_public::rustc_internal::stable(*i))),
                _ => "null".into(),
            });
        }
        Some(format!("{{\"vt\":{}}}", list(es)))
    }
    fn instance(&mut self, i: Instance) -> usize {
        if let Some(n) = self.inst.get(&i) {
            return *n;
        }
        let n = self.inst.len();
        self.inst.insert(i, n);
        self.queue.push(i);
        n
    }
    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, c) => {
                let n = self.tyconst(c);
                format!("[\"rep\",{},{}]", self.operand(o), n)
            }
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", self.place(p), matches!(k, BorrowKind::Mut { .. })),
            Rvalue::Reborrow(_, _, p) => format!("[\"reb\",{}]", self.place(p)),
            Rvalue::AddressOf(_, p) => format!("[\"ref\",{},true]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let st = o.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                let mut extra = "null".to_string();
                if let CastKind::PointerCoercion(pc) = k {
                    if let Ok(ot) = o.ty(locals) {
                        match (pc, ot.kind()) {
                            (PointerCoercion::ReifyFnPointer(_), TyKind::RigidTy(RigidTy::FnDef(d, a))) => {
                                if let Ok(i) = Instance::resolve_for_fn_ptr(d, &a) {
                                    extra = format!("{}", self.instance(i));
                                }
                            }
                            (PointerCoercion::ClosureFnPointer(_), TyKind::RigidTy(RigidTy::Closure(d, a))) => {
                                if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) {
                                    extra = format!("{}", self.instance(i));
                                }
                            }
                            (PointerCoercion::Unsize, _) => {
                                if let Some(v) = self.vtable(ot, *t) {
                                    extra = v;
                                }
                            }
                            _ => {}
                        }
                    }
                }
                format!("[\"cast\",{},{},{},{},{}]", q(&format!("{:?}", k)), self.operand(o), self.ty(*t), st, extra)
            }
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.operand(x), self.operand(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"cbin\",\"{:?}\",{},{}]", b, self.operand(x), self.operand(y)),
            Rvalue::UnaryOp(u, x) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(x)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let ks = match k {
                    AggregateKind::Array(_) => "[\"array\"]".into(),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, a, _, uf) => {
                        let t = d.ty_with_args(a);
                        let ti = self.ty(t);
                        let _ = uf;
                        format!("[\"adt\",{},{}]", rustc_internal_idx(*v), ti)
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".into(),
                    _ => "[\"other\"]".into(),
                };
                let ops = ops.iter().map(|o| self.operand(o)).collect();
                format!("[\"agg\",{},{}]", ks, list(ops))
            }
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
        }
    }
    fn body(&mut self, b: &Body) -> String {
        let locals = b.locals().to_vec();
        let lt = locals.iter().map(|l| format!("{}", self.ty(l.ty))).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                names.push(format!("[{},{}]", l, q(&v.name)));
            }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                let (_, line) = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let r = self.rvalue(r, &locals);
                        ss.push(format!("[\"=\",{},{},{}]", self.place(p), r, line));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => ss.push(format!(
                        "[\"sd\",{},{},{}]",
                        self.place(place),
                        rustc_internal_idx(*variant_index),
                        line
                    )),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => {
                        ss.push(format!("[\"cpy\",{}]", line))
                    }
                    _ => {}
                }
            }
            let (file, line) = self.span(bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    let br = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    format!("[\"switch\",{},{},{},{}]", self.operand(discr), list(br), targets.otherwise(), dt)
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let dt = place.ty(&locals).ok();
                    let mut di = -1i64;
                    let mut ti = -1i64;
                    if let Some(dt) = dt {
                        ti = self.ty(dt) as i64;
                        let i = Instance::resolve_drop_in_place(dt);
                        if !i.is_empty_shim() {
                            di = self.instance(i) as i64;
                        }
                    }
                    format!("[\"drop\",{},{},{},{}]", self.place(place), target, di, ti)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "bounds",
                        AssertMessage::Overflow(..) | AssertMessage::OverflowNeg(_) => "overflow",
                        AssertMessage::DivisionByZero(_) | AssertMessage::RemainderByZero(_) => "divzero",
                        _ => "other",
                    };
                    format!("[\"assert\",{},{},\"{}\",{}]", self.operand(cond), expected, m, target)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a = args.iter().map(|o| self.operand(o)).collect();
                    let dty = destination.ty(&locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    let mut callee = "null".to_string();
                    if let Ok(ft) = func.ty(&locals) {
                        match ft.kind() {
                            TyKind::RigidTy(RigidTy::FnDef(d, ga)) => match Instance::resolve(d, &ga) {
                                Ok(i) => callee = format!("{{\"i\":{},\"d\":{}}}", self.instance(i), q(&self.def_path(d.def_id()))),
                                Err(_) => callee = format!("{{\"u\":{}}}", q(&self.def_path(d.def_id()))),
                            },
                            _ => callee = format!("{{\"p\":{}}}", self.operand(func)),
                        }
                    }
                    let tg = target.map(|t| t as i64).unwrap_or(-1);
                    format!("[\"call\",{},{},{},{},{}]", callee, list(a), self.place(destination), tg, dty)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"l\":{},\"f\":{}}}", list(ss), t, line, file));
        }
        let (file, line) = self.span(b.span);
        format!(
            "{{\"argc\":{},\"spread\":{},\"locals\":{},\"names\":{},\"file\":{},\"line\":{},\"blocks\":{}}}",
            b.arg_locals().len(),
            b.spread_arg().map(|l| l as i64).unwrap_or(-1),
            list(lt),
            list(names),
            file,
            line,
            list(blocks)
        )
    }
    fn inst_json(&mut self, i: Instance) -> String {
        let did = i.def.def_id();
        let idid = internal(self.tcx, did);
        let path = self.tcx.def_path_str(idid);
        let krate = self.tcx.crate_name(idid.krate).to_string();
        let kind = match i.kind {
            InstanceKind::Item => "item".to_string(),
            InstanceKind::Intrinsic => "intrinsic".into(),
            InstanceKind::LlvmIntrinsic => "llvm".into(),
            InstanceKind::Virtual { idx } => format!("virtual{}", idx),
            InstanceKind::Shim => "shim".into(),
        };
        let name = i.name();
        let args = i.args();
        let args = self.args(&args);
        let mut tr = "null".to_string();
        let mut selfty = -1i64;
        if let Some(ai) = self.tcx.opt_associated_item(idid) {
            if let Some(t) = ai.trait_item_def_id() {
                tr = q(&self.tcx.def_path_str(t));
            }
            if let Some(imp) = self.tcx.impl_of_assoc(idid) {
                let st = self.tcx.type_of(imp).instantiate_identity();
                let _ = st;
                selfty = 0;
            }
        }
        let _ = selfty;
        let safe_skip = self.skip.iter().any(|s| name.starts_with(s.as_str()) || path.starts_with(s.as_str()));
        let mut body = "null".to_string();
        if !safe_skip && !matches!(i.kind, InstanceKind::Virtual { .. } | InstanceKind::LlvmIntrinsic) {
            if i.has_body() || matches!(i.kind, InstanceKind::Shim) {
                if let Some(b) = i.body() {
                    body = self.body(&b);
                }
            }
        }
        let unsafe_fn = false;
        let _ = unsafe_fn;
        format!(
            "{{\"name\":{},\"path\":{},\"crate\":{},\"kind\":\"{}\",\"trait\":{},\"args\":{},\"body\":{}}}",
            q(&name),
            q(&path),
            q(&krate),
            kind,
            tr,
            args,
            body
        )
    }
}

fn rustc_internal_idx(v: VariantIdx) -> usize {
    // VariantIdx has no public accessor; its Debug form is `VariantIdx(n)`
    // (possibly with further, thread-local fields).
    let s = format!("{:?}", v);
    let d: String = s.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
    d.parse().unwrap()
}

/// What every function of a crate calls and touches, before monomorphisation.
struct Facts<'a, 't> {
    tcx: TyCtxt<'t>,
    locals: &'a [LocalDecl],
    calls: Vec<String>,
    other: Vec<String>,
    closures: Vec<rustc_public::ty::ClosureDef>,
}
impl<'a, 't> Facts<'a, 't> {
    fn at(&self, sp: Span) -> String {
        format!("{},{}", q(&sp.get_filename().to_string()), sp.get_lines().start_line)
    }
    fn callee(&mut self, d: FnDef, a: &GenericArgs, sp: Span, how: &str) {
        let did = internal(self.tcx, d.def_id());
        let path = self.tcx.def_path_str(did);
        let krate = self.tcx.crate_name(did.krate).to_string();
        if self.tcx.is_foreign_item(did) {
            self.note("foreign", &format!("calls the foreign function {}", path), sp);
        }
        let mut args = vec![];
        for g in &a.0 {
            if let GenericArgKind::Type(t) = g {
                args.push(q(&format!("{}", t)));
            }
        }
        let at = self.at(sp);
        if how == "mention" && self.calls.iter().any(|c| c.starts_with(&format!("[{},{},{},", q(&path), q(&krate), list(args.clone())))) {
            return;
        }
        self.calls.push(format!("[{},{},{},{},{}]", q(&path), q(&krate), list(args), q(how), at));
    }
    fn note(&mut self, kind: &str, what: &str, sp: Span) {
        let at = self.at(sp);
        self.other.push(format!("[{},{},{}]", q(kind), q(what), at));
    }
}
impl<'a, 't> MirVisitor for Facts<'a, 't> {
    fn visit_terminator(&mut self, t: &Terminator, l: rustc_public::mir::visit::Location) {
        let sp = t.source_info.span;
        match &t.kind {
            TerminatorKind::InlineAsm { .. } => self.note("asm", "inline assembly", sp),
            TerminatorKind::Call { func, .. } => match func.ty(self.locals).map(|t| t.kind()) {
                Ok(TyKind::RigidTy(RigidTy::FnDef(d, a))) => self.callee(d, &a, sp, "call"),
                Ok(TyKind::RigidTy(RigidTy::FnPtr(_))) => self.note("pointer", "call through a function pointer", sp),
                _ => self.note("unknown", "call of an unknown callee", sp),
            },
            _ => {}
        }
        self.super_terminator(t, l);
    }
    fn visit_rvalue(&mut self, r: &Rvalue, l: rustc_public::mir::visit::Location) {
        let sp = l.span();
        match r {
            Rvalue::ThreadLocalRef(i) => self.note("thread local", &i.name(), sp),
            Rvalue::Cast(CastKind::PointerExposeAddress, _, _) => self.note("address", "pointer turned into a number", sp),
            Rvalue::Cast(CastKind::Transmute, o, t) => {
                if let Ok(f) = o.ty(self.locals) {
                    if f.kind().is_any_ptr() && !t.kind().is_any_ptr() {
                        self.note("address", &format!("{} transmuted into {}", f, t), sp);
                    }
                }
            }
            Rvalue::Aggregate(AggregateKind::Closure(d, _), _) => self.closures.push(*d),
            Rvalue::BinaryOp(op, a, _) | Rvalue::CheckedBinaryOp(op, a, _) => {
                if let Ok(t) = a.ty(self.locals) {
                    if t.kind().is_raw_ptr() && !matches!(op, BinOp::Offset) {
                        self.note("address", "comparison of addresses", sp);
                    }
                }
            }
            _ => {}
        }
        self.super_rvalue(r, l);
    }
    fn visit_statement(&mut self, s: &Statement, l: rustc_public::mir::visit::Location) {
        if let StatementKind::Assign(p, _) = &s.kind {
            let mut base = self.locals[p.local].ty;
            for e in &p.projection {
                if matches!(e, ProjectionElem::Deref) && base.kind().is_raw_ptr() {
                    self.note("raw write", "store through a raw pointer", s.source_info.span);
                }
                match e.ty(base) {
                    Ok(t) => base = t,
                    Err(_) => break,
                }
            }
        }
        self.super_statement(s, l);
    }
    fn visit_const_operand(&mut self, c: &ConstOperand, l: rustc_public::mir::visit::Location) {
        let sp = l.span();
        if let ConstantKind::Allocated(a) = c.const_.kind() {
            for (_, p) in &a.provenance.ptrs {
                if let GlobalAlloc::Static(s) = GlobalAlloc::from(p.0) {
                    let did = internal(self.tcx, s.def_id());
                    let ty = self.tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let frozen = ty.is_freeze(self.tcx, rustc_middle::ty::TypingEnv::fully_monomorphized());
                    if self.tcx.is_mutable_static(did) {
                        self.note("static", &format!("mutable static {}", s.name()), sp);
                    } else if !frozen {
                        self.note("static", &format!("static {} with interior mutability", s.name()), sp);
                    }
                }
            }
        }
        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = c.const_.ty().kind() {
            self.callee(d, &a, sp, "mention");
        }
        self.super_const_operand(c, l);
    }
}

type ITy<'t> = rustc_middle::ty::Ty<'t>;

/// what makes a value of this type changeable behind a shared reference, if anything does
fn cell_in<'t>(tcx: TyCtxt<'t>, t: ITy<'t>, seen: &mut std::collections::HashSet<ITy<'t>>) -> Option<String> {
    use rustc_middle::ty::TyKind as K;
    if !seen.insert(t) {
        return None;
    }
    match t.kind() {
        K::Adt(d, a) => {
            if d.is_unsafe_cell() {
                return Some("UnsafeCell".into());
            }
            if d.is_phantom_data() {
                return None;
            }
            for x in a.types() {
                if let Some(w) = cell_in(tcx, x, seen) {
                    return Some(w);
                }
            }
            for f in d.all_fields() {
                let ft = f.ty(tcx, a).skip_norm_wip();
                if let Some(w) = cell_in(tcx, ft, seen) {
                    return Some(if d.did().is_local() { w } else { tcx.def_path_str(d.did()) });
                }
            }
            None
        }
        K::Tuple(l) => l.iter().find_map(|x| cell_in(tcx, x, seen)),
        K::Array(x, _) | K::Slice(x) | K::Ref(_, x, _) => cell_in(tcx, *x, seen),
        _ => None,
    }
}

/// the types of `krate` mentioned in a type
fn adts<'t>(tcx: TyCtxt<'t>, krate: &str, t: ITy<'t>, found: &mut Vec<rustc_middle::ty::AdtDef<'t>>) {
    for g in t.walk() {
        if let Some(x) = g.as_type() {
            if let rustc_middle::ty::TyKind::Adt(d, _) = x.kind() {
                if tcx.crate_name(d.did().krate).as_str() == krate && !found.contains(d) {
                    found.push(*d);
                }
            }
        }
    }
}

fn items(tcx: TyCtxt<'_>, krate: &str, out: &str) {
    let mut fns = vec![];
    let mut found = vec![];
    let mut n = 0;
    for k in rustc_public::external_crates() {
        if k.name != krate {
            continue;
        }
        for d in k.fn_defs() {
            n += 1;
            let mut work: Vec<(String, Option<Body>, Span)> = vec![(tcx.def_path_str(internal(tcx, d.def_id())), d.body(), d.span())];
            while let Some((path, body, span)) = work.pop() {
                let Some(body) = body else {
                    fns.push(format!("{{\"path\":{},\"body\":false,\"file\":{},\"line\":{},\"calls\":[],\"other\":[]}}", q(&path), q(&span.get_filename().to_string()), span.get_lines().start_line));
                    continue;
                };
                let locals = body.locals().to_vec();
                for d in &locals {
                    adts(tcx, krate, internal(tcx, d.ty), &mut found);
                }
                let mut f = Facts { tcx, locals: &locals, calls: vec![], other: vec![], closures: vec![] };
                f.visit_body(&body);
                fns.push(format!(
                    "{{\"path\":{},\"body\":true,\"file\":{},\"line\":{},\"blocks\":{},\"calls\":{},\"other\":{}}}",
                    q(&path),
                    q(&span.get_filename().to_string()),
                    span.get_lines().start_line,
                    body.blocks.len(),
                    list(f.calls.clone()),
                    list(f.other.clone())
                ));
                for c in f.closures.clone() {
                    work.push((tcx.def_path_str(internal(tcx, c.def_id())), c.body(), c.span()));
                }
            }
        }
    }
    let mut types = vec![];
    let mut i = 0;
    while i < found.len() {
        let d = found[i];
        i += 1;
        for f in d.all_fields() {
            let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
            adts(tcx, krate, ft, &mut found);
            let w = cell_in(tcx, ft, &mut Default::default());
            let sp = rustc_public::rustc_internal::stable(tcx.def_span(f.did));
            types.push(format!(
                "[{},{},{},{},{},{}]",
                q(&tcx.def_path_str(d.did())),
                q(f.name.as_str()),
                q(&format!("{}", ft)),
                w.map(|x| q(&x)).unwrap_or("null".into()),
                q(&sp.get_filename().to_string()),
                sp.get_lines().start_line
            ));
        }
    }
    std::fs::write(out, format!("{{\"defs\":{},\"types\":[\n{}\n],\"fns\":[\n{}\n]}}\n", n, types.join(",\n"), fns.join(",\n"))).expect("write items");
}

fn analyze(tcx: TyCtxt<'_>, out: String) -> ControlFlow<()> {
    rustc_middle::ty::print::with_no_visible_paths!(rustc_middle::ty::print::with_no_trimmed_paths!(analyze2(tcx, out)))
}

fn analyze2(tcx: TyCtxt<'_>, out: String) -> ControlFlow<()> {
    if let Ok(k) = std::env::var("MIRDUMP_ITEMS") {
        items(tcx, &k, &out);
        return ControlFlow::Continue(());
    }
    let skip = std::env::var("MIRDUMP_SKIP").unwrap_or_default();
    let prefix = std::env::var("MIRDUMP_ROOT").unwrap_or_else(|_| "law_".into());
    let mut cx = Cx {
        tcx,
        tys: HashMap::new(),
        ty_json: vec![],
        inst: HashMap::new(),
        queue: vec![],
        files: HashMap::new(),
        file_list: vec![],
        skip: skip.split(';').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
    };
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        let n = it.name();
        let last = n.rsplit("::").next().unwrap_or("").to_string();
        if !last.starts_with(&prefix) || it.requires_monomorphization() {
            continue;
        }
        if !matches!(it.kind(), rustc_public::ItemKind::Fn) {
            continue;
        }
        if let Ok(i) = Instance::try_from(it) {
            let id = cx.instance(i);
            roots.push(format!("[{},{}]", q(&n), id));
        }
    }
    let mut insts: Vec<String> = vec![];
    let mut pos = 0;
    while pos < cx.queue.len() {
        let i = cx.queue[pos];
        pos += 1;
        let j = cx.inst_json(i);
        insts.push(j);
    }
    let _ = CrateItem::name;
    let mut s = String::new();
    s.push_str("{\"roots\":");
    s.push_str(&list(roots));
    s.push_str(",\"files\":");
    s.push_str(&list(cx.file_list.iter().map(|f| q(f)).collect()));
    s.push_str(",\"tys\":[\n");
    s.push_str(&cx.ty_json.join(",\n"));
    s.push_str("],\"insts\":[\n");
    s.push_str(&insts.join(",\n"));
    s.push_str("]}\n");
    std::fs::write(&out, s).expect("write dump");
    ControlFlow::Continue(())
}

fn main() {
    // invoked as: mirdump <rustc> <args...> (RUSTC_WORKSPACE_WRAPPER)
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 {
        args.remove(1);
    }
    let is_target = std::env::var("CARGO_PRIMARY_PACKAGE").is_ok();
    let krate = args.iter().position(|a| a == "--crate-name").and_then(|p| args.get(p + 1)).cloned();
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    if is_target && !out.is_empty() && krate.as_deref() == Some(want.as_str()) {
        let r = run_with_tcx!(&args, |tcx| analyze(tcx, out));
        match r {
            Ok(_) => std::process::exit(0),
            Err(_) => std::process::exit(1),
        }
    } else {
        let mut cmd = std::process::Command::new("rustc");
        if let Ok(r) = std::env::var("MIRDUMP_RUSTC") {
            cmd = std::process::Command::new(r);
        }
        cmd.args(&args[1..]);
        let st = cmd.status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
}
