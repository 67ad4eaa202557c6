//! mirfacts: a rustc driver that writes the type-resolved, monomorphised MIR of the
//! primus-fhe crates (and of what they call) as JSON facts for the analyses in ../an.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_span;

use rustc_middle::ty as rty;
use rustc_middle::ty::TyCtxt;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::rustc_internal;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn join<I: IntoIterator<Item = String>>(it: I) -> String {
    it.into_iter().collect::<Vec<_>>().join(",")
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<String>,
    tyid: HashMap<Ty, usize>,
    insts: BTreeMap<String, String>,
    queue: VecDeque<(Instance, String)>,
    seen: HashSet<String>,
    statics: BTreeMap<String, String>,
    static_todo: Vec<StaticDef>,
    bodies: Vec<String>,
    allocs: BTreeMap<usize, String>,
    alloc_ids: HashMap<rustc_public::mir::alloc::AllocId, usize>,
    alloc_todo: Vec<(usize, rustc_public::mir::alloc::AllocId)>,
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tyid.get(&t) {
            return *i;
        }
        let id = self.tys.len();
        self.tys.push(String::new());
        self.tyid.insert(t, id);
        let d = self.describe(t);
        self.tys[id] = d;
        id
    }
    fn targs(&mut self, a: &GenericArgs) -> String {
        let v: Vec<String> = a
            .0
            .iter()
            .filter_map(|x| match x {
                GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => Some(match c.eval_target_usize() {
                    Ok(n) => format!("{{\"n\":{}}}", n),
                    Err(_) => esc(&format!("{:?}", c)),
                }),
                GenericArgKind::Lifetime(_) => None,
            })
            .collect();
        format!("[{}]", v.join(","))
    }
    fn describe(&mut self, t: Ty) -> String {
        let name = esc(&format!("{}", t));
        let size = match t.layout() {
            Ok(l) => {
                let sh = l.shape();
                let offs = match &sh.fields {
                    rustc_public::abi::FieldsShape::Arbitrary { offsets } => {
                        join(offsets.iter().map(|o| o.bytes().to_string()))
                    }
                    _ => String::new(),
                };
                format!(",\"size\":{},\"offs\":[{}]", sh.size.bytes(), offs)
            }
            Err(_) => String::new(),
        };
        let k = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".to_string(),
                RigidTy::Char => "\"k\":\"char\"".to_string(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":true", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":false", i.num_bytes() * 8),
                RigidTy::Float(_) => "\"k\":\"float\"".to_string(),
                RigidTy::Str => "\"k\":\"str\"".to_string(),
                RigidTy::Never => "\"k\":\"never\"".to_string(),
                RigidTy::Array(e, n) => {
                    let l = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into());
                    let e = self.ty(e);
                    format!("\"k\":\"array\",\"elem\":{},\"len\":{}", e, l)
                }
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"elem\":{}", self.ty(e)),
                RigidTy::RawPtr(e, m) => {
                    format!("\"k\":\"ptr\",\"elem\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut)
                }
                RigidTy::Ref(_, e, m) => {
                    format!("\"k\":\"ref\",\"elem\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut)
                }
                RigidTy::Tuple(es) => {
                    let v: Vec<String> = es.iter().map(|e| self.ty(*e).to_string()).collect();
                    format!("\"k\":\"tuple\",\"elems\":[{}]", v.join(","))
                }
                RigidTy::FnDef(d, a) => {
                    let key = Instance::resolve_for_fn_ptr(d, &a)
                        .or_else(|_| Instance::resolve(d, &a))
                        .map(|i| self.inst(i))
                        .unwrap_or_default();
                    format!("\"k\":\"fndef\",\"path\":{},\"inst\":{}", esc(&d.name()), esc(&key))
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".to_string(),
                RigidTy::Closure(d, a) => {
                    let internal_args = rustc_internal::internal(self.tcx, &a);
                    let ck = internal_args.as_closure().kind();
                    let (kk, kn) = match ck {
                        rty::ClosureKind::Fn => (ClosureKind::Fn, "fn"),
                        rty::ClosureKind::FnMut => (ClosureKind::FnMut, "fnmut"),
                        rty::ClosureKind::FnOnce => (ClosureKind::FnOnce, "fnonce"),
                    };
                    let key = Instance::resolve_closure(d, &a, kk).map(|i| self.inst(i)).unwrap_or_default();
                    let ups = internal_args.as_closure().upvar_tys();
                    let mut v = vec![];
                    for u in ups.iter() {
                        let su: Ty = rustc_internal::stable(u);
                        v.push(self.ty(su).to_string());
                    }
                    format!(
                        "\"k\":\"closure\",\"path\":{},\"inst\":{},\"kind\":\"{}\",\"elems\":[{}]",
                        esc(&d.name()),
                        esc(&key),
                        kn,
                        v.join(",")
                    )
                }
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
                RigidTy::Adt(d, a) => {
                    let kind = match d.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Union => "union",
                        AdtKind::Struct => "struct",
                    };
                    let mut vs = vec![];
                    for (vi, v) in d.variants().iter().enumerate() {
                        let discr = if d.kind() == AdtKind::Enum {
                            d.discriminant_for_variant(v.idx()).val.to_string()
                        } else {
                            vi.to_string()
                        };
                        let fs: Vec<String> = v
                            .fields()
                            .iter()
                            .map(|f| {
                                let ft = f.ty_with_args(&a);
                                format!("[{},{}]", esc(&f.name), self.ty(ft))
                            })
                            .collect();
                        vs.push(format!(
                            "{{\"name\":{},\"discr\":{},\"fields\":[{}]}}",
                            esc(&v.name()),
                            discr,
                            fs.join(",")
                        ));
                    }
                    let repr = d.repr();
                    format!(
                        "\"k\":\"adt\",\"adt\":\"{}\",\"path\":{},\"crate\":{},\"args\":{},\"transparent\":{},\"reprc\":{},\"variants\":[{}]",
                        kind,
                        esc(&d.name()),
                        esc(&d.krate().name),
                        self.targs(&a),
                        repr.flags.is_transparent,
                        repr.flags.is_c,
                        vs.join(",")
                    )
                }
                other => format!("\"k\":\"other\",\"d\":{}", esc(&format!("{:?}", other))),
            },
            other => format!("\"k\":\"other\",\"d\":{}", esc(&format!("{:?}", other))),
        };
        format!("{{{},\"name\":{}{}}}", k, name, size)
    }

    fn inst(&mut self, i: Instance) -> String {
        let key = i.mangled_name().to_string();
        if !self.seen.contains(&key) {
            self.seen.insert(key.clone());
            self.queue.push_back((i, key.clone()));
        }
        key
    }

    fn alloc_bytes(&mut self, a: &Allocation) -> String {
        let mut bytes = String::new();
        for b in &a.bytes {
            match b {
                Some(b) => {
                    let _ = write!(bytes, "{:02x}", b);
                }
                None => bytes.push_str("__"),
            }
        }
        let mut ptrs = vec![];
        for (off, p) in &a.provenance.ptrs {
            let id = self.alloc(p.0);
            ptrs.push(format!("[{},{}]", off, id));
        }
        format!("{{\"b\":\"{}\",\"p\":[{}]}}", bytes, ptrs.join(","))
    }
    fn alloc(&mut self, id: rustc_public::mir::alloc::AllocId) -> usize {
        if let Some(i) = self.alloc_ids.get(&id) {
            return *i;
        }
        let n = self.alloc_ids.len();
        self.alloc_ids.insert(id, n);
        self.alloc_todo.push((n, id));
        n
    }
    fn drain_allocs(&mut self) {
        while let Some((n, id)) = self.alloc_todo.pop() {
            let s = match GlobalAlloc::from(id) {
                GlobalAlloc::Function(i) => format!("{{\"fn\":{}}}", esc(&self.inst(i))),
                GlobalAlloc::VTable(t, _) => format!("{{\"vtable\":{}}}", self.ty(t)),
                GlobalAlloc::Static(s) => format!("{{\"static\":{}}}", esc(&self.stat(s))),
                GlobalAlloc::Memory(a) => format!("{{\"mem\":{}}}", self.alloc_bytes(&a)),
                GlobalAlloc::TypeId { .. } => "{\"typeid\":1}".to_string(),
            };
            self.allocs.insert(n, s);
        }
    }
    fn stat(&mut self, s: StaticDef) -> String {
        let key = s.name().to_string();
        if !self.statics.contains_key(&key) {
            self.statics.insert(key.clone(), String::new());
            let t = self.ty(s.ty());
            let int = rustc_internal::internal(self.tcx, s.def_id());
            let mutable = self.tcx.is_mutable_static(int);
            let sp = self.span(s.span());
            let tl = self.tcx.is_thread_local_static(int);
            let v = if s.krate().name == "core" || s.krate().name == "std" {
                String::new()
            } else {
                match s.eval_initializer() {
                    Ok(a) => format!(",\"init\":{}", self.alloc_bytes(&a)),
                    Err(_) => String::new(),
                }
            };
            self.statics.insert(
                key.clone(),
                format!(
                    "{{\"ty\":{},\"mut\":{},\"tls\":{},\"crate\":{},{}{}}}",
                    t,
                    mutable,
                    tl,
                    esc(&s.krate().name),
                    sp,
                    v
                ),
            );
        }
        key
    }
    fn span(&self, s: rustc_public::ty::Span) -> String {
        format!("\"file\":{},\"line\":{}", esc(&s.get_filename().to_string()), s.get_lines().start_line)
    }

    fn cnst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let id = self.ty(t);
        match c.kind() {
            ConstantKind::ZeroSized => format!("{{\"ty\":{},\"z\":1}}", id),
            ConstantKind::Allocated(a) => {
                let s = self.alloc_bytes(a);
                format!("{{\"ty\":{},\"a\":{}}}", id, s)
            }
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => {
                    let s = self.alloc_bytes(a);
                    format!("{{\"ty\":{},\"a\":{}}}", id, s)
                }
                TyConstKind::ZSTValue(_) => format!("{{\"ty\":{},\"z\":1}}", id),
                o => format!("{{\"ty\":{},\"u\":{}}}", id, esc(&format!("{:?}", o))),
            },
            o => format!("{{\"ty\":{},\"u\":{}}}", id, esc(&format!("{:?}", o))),
        }
    }
    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "[\"d\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(v) => {
                    let int = rustc_internal::internal(self.tcx, *v);
                    format!("[\"v\",{}]", int.as_usize())
                }
                ProjectionElem::OpaqueCast(t) => format!("[\"oc\",{}]", self.ty(*t)),
            });
        }
        format!("[{},[{}]]", p.local, v.join(","))
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.cnst(&c.const_)),
            Operand::RuntimeChecks(r) => format!("[\"rc\",{}]", esc(&format!("{:?}", r))),
        }
    }
    fn rv(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::AddressOf(k, p) => format!("[\"addr\",{},{}]", *k == RawPtrKind::Mut, self.place(p)),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(p))
            }
            Rvalue::Reborrow(_, m, p) => format!("[\"reborrow\",{},{}]", *m == Mutability::Mut, self.place(p)),
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"cbin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::UnaryOp(u, x) => format!("[\"un\",\"{:?}\",{}]", u, self.op(x)),
            Rvalue::Cast(k, o, t) => {
                let k = match k {
                    CastKind::PointerCoercion(p) => format!("PC:{:?}", p),
                    k => format!("{:?}", k),
                };
                format!("[\"cast\",{},{},{}]", esc(&k), self.op(o), self.ty(*t))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => {
                let l = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"rep\",{},{}]", self.op(o), l)
            }
            Rvalue::ThreadLocalRef(i) => format!("[\"tls\",{}]", esc(&i.name())),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                let os = os.join(",");
                match k {
                    AggregateKind::Array(t) => format!("[\"agg\",\"array\",[{}],{}]", os, self.ty(*t)),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",[{}]]", os),
                    AggregateKind::Adt(d, v, a, _, uf) => {
                        let int = rustc_internal::internal(self.tcx, *v);
                        let t = d.ty_with_args(a);
                        format!(
                            "[\"agg\",\"adt\",[{}],{},{},{}]",
                            os,
                            self.ty(t),
                            int.as_usize(),
                            uf.map(|x| x.to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        format!("[\"agg\",\"closure\",[{}],{}]", os, self.ty(t))
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"agg\",\"rawptr\",[{}],{}]", os, self.ty(*t)),
                    _ => format!("[\"agg\",\"other\",[{}]]", os),
                }
            }
        }
    }
    fn unwind(&self, u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => b.to_string(),
            _ => "null".into(),
        }
    }
    fn body(&mut self, b: &Body, key: &str) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{}]", esc(&v.name), self.place(p)));
            }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                let line = s.source_info.span.get_lines().start_line;
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let p = self.place(p);
                        let r = self.rv(r);
                        ss.push(format!("[\"=\",{},{},{}]", p, r, line))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let int = rustc_internal::internal(self.tcx, *variant_index);
                        let p = self.place(place);
                        ss.push(format!("[\"sd\",{},{},{}]", p, int.as_usize(), line))
                    }
                    StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{}]", l)),
                    StatementKind::StorageLive(l) => ss.push(format!("[\"live\",{}]", l)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        let o = self.op(o);
                        ss.push(format!("[\"assume\",{}]", o))
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        let a = self.op(&c.src);
                        let d = self.op(&c.dst);
                        let n = self.op(&c.count);
                        ss.push(format!("[\"cpy\",{},{},{},{}]", a, d, n, line))
                    }
                    _ => {}
                }
            }
            let line = bb.terminator.source_info.span.get_lines().start_line;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.op(discr);
                    let br = join(targets.branches().map(|(v, t)| format!("[{},{}]", v, t)));
                    format!("[\"sw\",{},[{}],{},{}]", d, br, targets.otherwise(), line)
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Resume | TerminatorKind::Abort => "[\"resume\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, unwind } => {
                    let t = place.ty(b.locals()).ok();
                    let dk = match t {
                        Some(t) => {
                            let i = Instance::resolve_drop_in_place(t);
                            if i.is_empty_shim() {
                                String::new()
                            } else {
                                self.inst(i)
                            }
                        }
                        None => String::new(),
                    };
                    let tid = t.map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!(
                        "[\"drop\",{},{},{},{},{}]",
                        self.place(place),
                        target,
                        self.unwind(unwind),
                        esc(&dk),
                        tid
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let kind = match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            let l = self.op(len);
                            let i = self.op(index);
                            format!("[\"bounds\",{},{}]", l, i)
                        }
                        AssertMessage::Overflow(o, a, c) => {
                            let a = self.op(a);
                            let c = self.op(c);
                            format!("[\"ovf\",\"{:?}\",{},{}]", o, a, c)
                        }
                        AssertMessage::OverflowNeg(_) => "[\"ovfneg\"]".into(),
                        AssertMessage::DivisionByZero(_) => "[\"div0\"]".into(),
                        AssertMessage::RemainderByZero(_) => "[\"rem0\"]".into(),
                        _ => "[\"other\"]".into(),
                    };
                    let c = self.op(cond);
                    format!(
                        "[\"assert\",{},{},{},{},{},{}]",
                        c,
                        expected,
                        kind,
                        target,
                        self.unwind(unwind),
                        line
                    )
                }
                TerminatorKind::InlineAsm { template, operands, destination, .. } => {
                    let mut ops = Vec::new();
                    for o in operands {
                        let i = o.in_value.as_ref().map(|x| self.op(x)).unwrap_or("null".into());
                        let d = o.out_place.as_ref().map(|x| self.place(x)).unwrap_or("null".into());
                        ops.push(format!("[{},{}]", i, d));
                    }
                    format!(
                        "[\"asm\",{},[{}],{},{}]",
                        esc(template),
                        ops.join(","),
                        destination.map(|t| t.to_string()).unwrap_or("null".into()),
                        line
                    )
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    let fty = func.ty(b.locals());
                    let callee = match fty.map(|t| t.kind()) {
                        Ok(TyKind::RigidTy(RigidTy::FnDef(d, a))) => {
                            let ga = self.targs(&a);
                            match Instance::resolve(d, &a) {
                                Ok(i) => {
                                    let virt = matches!(i.kind, InstanceKind::Virtual { .. });
                                    format!(
                                        "{{\"inst\":{},\"path\":{},\"args\":{},\"virt\":{}}}",
                                        esc(&self.inst(i)),
                                        esc(&d.name()),
                                        ga,
                                        virt
                                    )
                                }
                                Err(_) => format!("{{\"inst\":null,\"path\":{},\"args\":{}}}", esc(&d.name()), ga),
                            }
                        }
                        _ => format!("{{\"ptr\":{}}}", self.op(func)),
                    };
                    let a: Vec<String> = args.iter().map(|x| self.op(x)).collect();
                    let d = self.place(destination);
                    format!(
                        "[\"call\",{},[{}],{},{},{},{}]",
                        callee,
                        a.join(","),
                        d,
                        target.map(|t| t.to_string()).unwrap_or("null".into()),
                        self.unwind(unwind),
                        line
                    )
                }
            };
            blocks.push(format!("{{\"s\":[{}],\"t\":{}}}", ss.join(","), t));
        }
        format!(
            "{{\"key\":{},\"argc\":{},\"spread\":{},\"locals\":[{}],\"names\":[{}],\"blocks\":[{}]}}",
            esc(key),
            b.arg_locals().len(),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            locals.join(","),
            names.join(","),
            blocks.join(",\n ")
        )
    }

    fn process(&mut self, i: Instance, key: String) {
        let name = i.name().to_string();
        let krate = i.def.krate().name.to_string();
        let path = i.def.name().to_string();
        let kind = format!("{:?}", i.kind);
        let intr = i.intrinsic_name().map(|s| esc(&s)).unwrap_or("null".into());
        let args = self.targs(&i.args());
        let int_did = rustc_internal::internal(self.tcx, i.def.def_id());
        // impl / trait provenance of the definition
        let (mut tr, mut st, mut of) = ("null".to_string(), "null".to_string(), "null".to_string());
        if let Some(p) = self.tcx.opt_parent(int_did) {
            match self.tcx.def_kind(p) {
                rustc_hir::def::DefKind::Impl { of_trait } => {
                    let int_args = rustc_internal::internal(self.tcx, &i.args());
                    let n = self.tcx.generics_of(p).count();
                    if int_args.len() >= n {
                        let pa = self.tcx.mk_args(&int_args[..n]);
                        let env = rty::TypingEnv::fully_monomorphized();
                        let s = self.tcx.type_of(p).instantiate(self.tcx, pa);
                        if let Ok(s) = self.tcx.try_normalize_erasing_regions(env, s) {
                            let ss: Ty = rustc_internal::stable(s);
                            st = self.ty(ss).to_string();
                        }
                    }
                    if of_trait {
                        let t = self.tcx.impl_trait_ref(p).skip_binder();
                        of = esc(&self.tcx.def_path_str(t.def_id));
                    }
                }
                rustc_hir::def::DefKind::Trait => tr = esc(&self.tcx.def_path_str(p)),
                _ => {}
            }
        }
        let item = self.tcx.opt_item_name(int_did).map(|s| s.to_string()).unwrap_or_default();
        let vis = if matches!(
            self.tcx.def_kind(int_did),
            rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn
        ) {
            self.tcx.visibility(int_did).is_public()
        } else {
            false
        };
        let unsafe_fn = matches!(
            self.tcx.def_kind(int_did),
            rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn
        ) && self.tcx.fn_sig(int_did).skip_binder().safety().is_unsafe();
        let sp = self.span(i.def.span());
        self.insts.insert(
            key.clone(),
            format!(
                "{{\"name\":{},\"path\":{},\"item\":{},\"crate\":{},\"kind\":{},\"intr\":{},\"args\":{},\"trait\":{},\"implof\":{},\"self\":{},\"pub\":{},\"unsafe\":{},{}}}",
                esc(&name), esc(&path), esc(&item), esc(&krate), esc(&kind), intr, args, tr, of, st, vis, unsafe_fn, sp
            ),
        );
        if matches!(i.kind, InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic | InstanceKind::Virtual { .. }) {
            return;
        }
        let ws = ["algebra", "lattice", "fhe_core", "zkfhe", "roots"].contains(&krate.as_str());
        let aux = ["core", "alloc", "std", "num_traits", "once_cell", "bytemuck", "either", "itertools"]
            .contains(&krate.as_str());
        if !(ws || aux) {
            return;
        }
        if !i.has_body() {
            return;
        }
        if let Some(b) = i.body() {
            let s = self.body(&b, &key);
            self.bodies.push(s);
        }
    }
}

fn roots<'tcx>(tcx: TyCtxt<'tcx>, cx: &mut Cx<'tcx>) -> Vec<(String, String)> {
    let mut out = vec![];
    let wanted = ["algebra", "lattice", "fhe_core", "zkfhe"];
    let mut crates: Vec<rustc_public::Crate> =
        rustc_public::external_crates().into_iter().filter(|c| wanted.contains(&c.name.as_str())).collect();
    let local = rustc_public::local_crate();
    // candidate types: pub type aliases named Cand* in the root crate
    let mut cands: Vec<(String, rty::Ty<'tcx>)> = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        if tcx.def_kind(id) == rustc_hir::def::DefKind::TyAlias {
            let n = tcx.item_name(id.to_def_id()).to_string();
            if n.starts_with("Cand") {
                let t = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                cands.push((n, tcx.erase_and_anonymize_regions(t)));
            }
        }
    }
    cands.sort_by(|a, b| a.0.cmp(&b.0));
    crates.push(local);
    let env = rty::TypingEnv::fully_monomorphized();
    let ok = |did: rustc_span::def_id::DefId, args: rty::GenericArgsRef<'tcx>| -> bool {
        !tcx.instantiate_and_check_impossible_clauses((did, args))
    };
    // assign candidates to type params by backtracking
    fn assign<'tcx>(
        tcx: TyCtxt<'tcx>,
        did: rustc_span::def_id::DefId,
        cands: &[(String, rty::Ty<'tcx>)],
        fixed: Option<rty::Ty<'tcx>>,
        ok: &dyn Fn(rustc_span::def_id::DefId, rty::GenericArgsRef<'tcx>) -> bool,
    ) -> Option<rty::GenericArgsRef<'tcx>> {
        let _ = fixed;
        let g = tcx.generics_of(did);
        let mut n_ty = 0;
        for i in 0..g.count() {
            match g.param_at(i, tcx).kind {
                rty::GenericParamDefKind::Type { .. } => n_ty += 1,
                rty::GenericParamDefKind::Const { .. } => return None,
                _ => {}
            }
        }
        if n_ty > 4 {
            return None;
        }
        let k = cands.len();
        let total = k.pow(n_ty as u32);
        for code in 0..total {
            let mut c = code;
            let args = rty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                rty::GenericParamDefKind::Type { .. } => {
                    let t = cands[c % k].1;
                    c /= k;
                    t.into()
                }
                _ => tcx.lifetimes.re_erased.into(),
            });
            if ok(did, args) {
                return Some(args);
            }
        }
        None
    }
    let mut skipped = vec![];
    for c in &crates {
        for f in c.fn_defs() {
            let did = rustc_internal::internal(tcx, f.def_id());
            if !matches!(tcx.def_kind(did), rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn) {
                continue;
            }
            let nm = f.name().to_string();
            if !tcx.is_mir_available(did) {
                continue;
            }
            // trait items: only through impls below
            if let Some(p) = tcx.opt_parent(did) {
                if tcx.def_kind(p) == rustc_hir::def::DefKind::Trait {
                    continue;
                }
            }
            match assign(tcx, did, &cands, None, &ok) {
                Some(args) => {
                    if let Ok(Some(i)) = rty::Instance::try_resolve(tcx, env, did, args) {
                        let si: Instance = rustc_internal::stable(i);
                        let k = cx.inst(si);
                        out.push((nm, k));
                    } else {
                        skipped.push(nm);
                    }
                }
                None => skipped.push(nm),
            }
        }
        // provided trait methods of workspace traits on the impls in this crate
        for imp in c.trait_impls() {
            let idid = rustc_internal::internal(tcx, imp.def_id());
            let tr = tcx.impl_trait_ref(idid);
            let trdid = tr.skip_binder().def_id;
            let tcrate = tcx.crate_name(trdid.krate).to_string();
            if !wanted.contains(&tcrate.as_str()) {
                continue;
            }
            let Some(iargs) = assign(tcx, idid, &cands, None, &ok) else { continue };
            let trr = tr.instantiate(tcx, iargs);
            let Ok(trr) = tcx.try_normalize_erasing_regions(env, trr) else { continue };
            for m in tcx.provided_trait_methods(trdid) {
                let g = tcx.generics_of(m.def_id);
                // method-level type params: try candidates
                let extra: Vec<usize> = (trr.args.len()..g.count())
                    .filter(|i| matches!(g.param_at(*i, tcx).kind, rty::GenericParamDefKind::Type { .. }))
                    .collect();
                let k = cands.len();
                let total = k.pow(extra.len() as u32);
                for code in 0..total {
                    let mut cc = code;
                    let args = rty::GenericArgs::for_item(tcx, m.def_id, |p, _| {
                        if (p.index as usize) < trr.args.len() {
                            return trr.args[p.index as usize];
                        }
                        match p.kind {
                            rty::GenericParamDefKind::Type { .. } => {
                                let t = cands[cc % k].1;
                                cc /= k;
                                t.into()
                            }
                            _ => tcx.lifetimes.re_erased.into(),
                        }
                    });
                    if ok(m.def_id, args) {
                        if let Ok(Some(i)) = rty::Instance::try_resolve(tcx, env, m.def_id, args) {
                            let si: Instance = rustc_internal::stable(i);
                            let key = cx.inst(si);
                            out.push((si.name().to_string(), key));
                        }
                        break;
                    }
                }
            }
        }
    }
    for s in skipped {
        out.push((s, String::new()));
    }
    out
}

fn analyze(tcx: TyCtxt<'_>) -> ControlFlow<()> {
    let mut cx = Cx {
        tcx,
        tys: vec![],
        tyid: HashMap::new(),
        insts: BTreeMap::new(),
        queue: VecDeque::new(),
        seen: HashSet::new(),
        statics: BTreeMap::new(),
        static_todo: vec![],
        bodies: vec![],
        allocs: BTreeMap::new(),
        alloc_ids: HashMap::new(),
        alloc_todo: vec![],
    };
    let rs = roots(tcx, &mut cx);
    let _ = &cx.static_todo;
    // statics of the workspace crates
    let wanted = ["algebra", "lattice", "fhe_core", "zkfhe"];
    for c in rustc_public::external_crates().into_iter().chain(std::iter::once(rustc_public::local_crate())) {
        if wanted.contains(&c.name.as_str()) || c.is_local {
            for s in c.statics() {
                cx.stat(s);
            }
            for a in c.adts() {
                let did = rustc_internal::internal(tcx, a.def_id());
                if tcx.generics_of(did).count() == 0 {
                    let t = a.ty();
                    cx.ty(t);
                }
            }
        }
    }
    loop {
        cx.drain_allocs();
        match cx.queue.pop_front() {
            Some((i, k)) => cx.process(i, k),
            None => {
                if cx.alloc_todo.is_empty() {
                    break;
                }
            }
        }
    }
    let out = std::env::var("MIRFACTS_OUT").expect("MIRFACTS_OUT");
    let mut s = String::new();
    s.push_str("{\"types\":[\n");
    s.push_str(&cx.tys.join(",\n"));
    s.push_str("],\n\"insts\":{\n");
    s.push_str(&cx.insts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",\n"));
    s.push_str("},\n\"statics\":{\n");
    s.push_str(&cx.statics.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",\n"));
    s.push_str("},\n\"allocs\":{\n");
    s.push_str(&cx.allocs.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",\n"));
    s.push_str("},\n\"roots\":[\n");
    s.push_str(&rs.iter().map(|(n, k)| format!("[{},{}]", esc(n), esc(k))).collect::<Vec<_>>().join(",\n"));
    s.push_str("],\n\"bodies\":[\n");
    s.push_str(&cx.bodies.join(",\n"));
    s.push_str("]}\n");
    std::fs::write(&out, s).expect("write facts");
    let _: Option<CrateItem> = None;
    ControlFlow::Continue(())
}

fn main() {
    // As RUSTC_WORKSPACE_WRAPPER / RUSTC_WRAPPER: argv[1] is the real rustc.
    let args: Vec<String> = std::env::args().collect();
    let mut a: Vec<String> = args.iter().skip(1).cloned().collect();
    if a.is_empty() {
        return;
    }
    let name = a
        .iter()
        .position(|x| x == "--crate-name")
        .and_then(|p| a.get(p + 1).cloned())
        .unwrap_or_default();
    if name == "roots" && std::env::var("MIRFACTS_OUT").is_ok() {
        a.push("-Zalways-encode-mir".into());
        a.push("-Zmir-opt-level=0".into());
        a.push("-Zub-checks=no".into());
        let r = rustc_public::run_with_tcx!(&a, analyze);
        match r {
            Ok(_) => {}
            Err(e) => {
                eprintln!("mirfacts failed: {:?}", e);
                std::process::exit(1);
            }
        }
    } else {
        let ws = ["algebra", "lattice", "fhe_core", "zkfhe"].contains(&name.as_str());
        let mut c = std::process::Command::new(&a[0]);
        c.args(&a[1..]);
        if ws {
            c.arg("-Zalways-encode-mir").arg("-Zmir-opt-level=0").arg("-Zub-checks=no");
        } else if !name.is_empty() && name != "___" {
            c.arg("-Zalways-encode-mir");
        }
        let st = c.status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
}
