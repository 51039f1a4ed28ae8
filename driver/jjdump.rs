// jjdump: a rustc driver (rustc_public) that compiles like rustc, and, for the
// crate named in JJ_DUMP_CRATE, writes every monomorphic MIR body reachable
// from that crate's public non-generic functions to JJ_DUMP_OUT as JSON.
//
// Nothing is executed: the output is the resolved program (types, layouts,
// constants, bodies, resolved callees) that the analyser in /verif/jj reads.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;

use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::{CrateDef, CrateDefType, ItemKind, CrateItem};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dump {
    tys: HashMap<Ty, usize>,
    ty_out: Vec<String>,
    ty_queue: VecDeque<Ty>,
    insts: HashMap<Instance, usize>,
    inst_queue: VecDeque<Instance>,
    allocs: HashMap<AllocId, usize>,
    alloc_queue: VecDeque<AllocId>,
    files: HashMap<String, usize>,
    leaves: Vec<Leaf>,
    models: HashMap<String, FnDef>,
}

enum Leaf { Prefix(String), Contains(String), Exact(String) }

impl Dump {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) { return *i; }
        let i = self.tys.len();
        self.tys.insert(t, i);
        self.ty_queue.push_back(t);
        i
    }
    fn inst(&mut self, t: Instance) -> usize {
        if let Some(i) = self.insts.get(&t) { return *i; }
        let i = self.insts.len();
        self.insts.insert(t, i);
        self.inst_queue.push_back(t);
        i
    }
    fn alloc(&mut self, t: AllocId) -> usize {
        if let Some(i) = self.allocs.get(&t) { return *i; }
        let i = self.allocs.len();
        self.allocs.insert(t, i);
        self.alloc_queue.push_back(t);
        i
    }
    fn file(&mut self, f: String) -> usize {
        let n = self.files.len();
        *self.files.entry(f).or_insert(n)
    }
    fn span(&mut self, s: &Span) -> String {
        let l = s.get_lines();
        let f = self.file(s.get_filename());
        format!("[{},{}]", f, l.start_line)
    }

    fn tyconst(&mut self, c: &TyConst) -> String {
        match c.kind() {
            TyConstKind::Value(_, a) => a.read_uint().map(|v| v.to_string()).unwrap_or("null".into()),
            _ => c.eval_target_usize().map(|v| v.to_string()).unwrap_or("null".into()),
        }
    }
    fn gargs(&mut self, a: &GenericArgs) -> String {
        let mut o = String::from("[");
        let mut first = true;
        for x in &a.0 {
            let s = match x {
                GenericArgKind::Lifetime(_) => continue,
                GenericArgKind::Type(t) => self.ty(*t).to_string(),
                GenericArgKind::Const(c) => format!("{{\"const\":{}}}", self.tyconst(c)),
            };
            if !first { o.push(','); }
            first = false;
            o.push_str(&s);
        }
        o.push(']');
        o
    }

    fn fields_shape(&mut self, f: &FieldsShape) -> String {
        match f {
            FieldsShape::Arbitrary { offsets } => {
                let v: Vec<String> = offsets.iter().map(|o| o.bytes().to_string()).collect();
                format!("[{}]", v.join(","))
            }
            _ => "null".into(),
        }
    }

    fn emit_ty(&mut self, t: Ty) -> String {
        let kind = t.kind();
        let mut o = String::new();
        let _ = write!(o, "{{\"name\":{}", esc(&format!("{}", t)));
        // layouts are only needed to decode constants; a few compiler-internal
        // types (bound regions in dyn) make the query panic, which is harmless
        let hook = std::panic::take_hook();
        std::panic::set_hook(Box::new(|_| {}));
        let layout = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.layout().ok())).ok().flatten();
        std::panic::set_hook(hook);
        let shape = layout.map(|l| l.shape());
        if let Some(s) = &shape {
            let _ = write!(o, ",\"size\":{}", s.size.bytes());
            let fo = self.fields_shape(&s.fields);
            let _ = write!(o, ",\"offsets\":{}", fo);
            match &s.variants {
                VariantsShape::Empty => { let _ = write!(o, ",\"vshape\":{{\"k\":\"empty\"}}"); }
                VariantsShape::Single { index } => { let _ = write!(o, ",\"vshape\":{{\"k\":\"single\",\"i\":{}}}", vidx(index)); }
                VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                    let off = match &s.fields { FieldsShape::Arbitrary { offsets } => offsets.get(*tag_field).map(|x| x.bytes()).unwrap_or(0), _ => 0 };
                    let tagsize = match tag {
                        rustc_public::abi::Scalar::Initialized { value, .. } => value.size(&rustc_public::target::MachineInfo::target()).bytes(),
                        rustc_public::abi::Scalar::Union { value } => value.size(&rustc_public::target::MachineInfo::target()).bytes(),
                    };
                    let enc = match tag_encoding {
                        TagEncoding::Direct => "{\"k\":\"direct\"}".to_string(),
                        TagEncoding::Niche { untagged_variant, niche_variants, niche_start } =>
                            format!("{{\"k\":\"niche\",\"untagged\":{},\"lo\":{},\"hi\":{},\"start\":{}}}",
                                vidx(untagged_variant), vidx(niche_variants.start()), vidx(niche_variants.end()), niche_start),
                    };
                    let vs: Vec<String> = variants.iter().map(|v| {
                        let x: Vec<String> = v.offsets.iter().map(|o| o.bytes().to_string()).collect();
                        format!("[{}]", x.join(","))
                    }).collect();
                    let _ = write!(o, ",\"vshape\":{{\"k\":\"multi\",\"tagoff\":{},\"tagsize\":{},\"enc\":{},\"voffsets\":[{}]}}", off, tagsize, enc, vs.join(","));
                }
            }
        }
        match &kind {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => o.push_str(",\"k\":\"bool\""),
                RigidTy::Char => o.push_str(",\"k\":\"char\""),
                RigidTy::Int(i) => { let _ = write!(o, ",\"k\":\"int\",\"bits\":{}", i.num_bytes() * 8); }
                RigidTy::Uint(i) => { let _ = write!(o, ",\"k\":\"uint\",\"bits\":{}", i.num_bytes() * 8); }
                RigidTy::Float(_) => o.push_str(",\"k\":\"float\""),
                RigidTy::Never => o.push_str(",\"k\":\"never\""),
                RigidTy::Str => o.push_str(",\"k\":\"str\""),
                RigidTy::Slice(e) => { let e = self.ty(*e); let _ = write!(o, ",\"k\":\"slice\",\"elem\":{}", e); }
                RigidTy::Array(e, n) => { let e = self.ty(*e); let n = self.tyconst(n); let _ = write!(o, ",\"k\":\"array\",\"elem\":{},\"len\":{}", e, n); }
                RigidTy::RawPtr(e, m) => { let e = self.ty(*e); let _ = write!(o, ",\"k\":\"ptr\",\"elem\":{},\"mut\":{}", e, *m == Mutability::Mut); }
                RigidTy::Ref(_, e, m) => { let e = self.ty(*e); let _ = write!(o, ",\"k\":\"ref\",\"elem\":{},\"mut\":{}", e, *m == Mutability::Mut); }
                RigidTy::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    let _ = write!(o, ",\"k\":\"tuple\",\"fields\":[{}]", v.join(","));
                }
                RigidTy::Pat(e, _) => { let e = self.ty(*e); let _ = write!(o, ",\"k\":\"pat\",\"elem\":{}", e); }
                RigidTy::FnDef(d, a) => {
                    let ga = self.gargs(a);
                    let _ = write!(o, ",\"k\":\"fndef\",\"def\":{},\"args\":{}", esc(&d.name()), ga);
                    if let Ok(i) = Instance::resolve(*d, a) { let i = self.inst(i); let _ = write!(o, ",\"inst\":{}", i); }
                }
                RigidTy::FnPtr(_) => o.push_str(",\"k\":\"fnptr\""),
                RigidTy::Closure(d, a) => {
                    let mut ups = String::from("[]");
                    if let Some(GenericArgKind::Type(last)) = a.0.last() {
                        if let TyKind::RigidTy(RigidTy::Tuple(ts)) = last.kind() {
                            let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                            ups = format!("[{}]", v.join(","));
                        }
                    }
                    let sp = self.span(&d.span());
                    let _ = write!(o, ",\"k\":\"closure\",\"def\":{},\"fields\":{},\"span\":{}", esc(&d.name()), ups, sp);
                    for (nm, k) in [("fn", ClosureKind::Fn), ("fnmut", ClosureKind::FnMut), ("fnonce", ClosureKind::FnOnce)] {
                        if let Ok(i) = Instance::resolve_closure(*d, a, k) { let i = self.inst(i); let _ = write!(o, ",\"{}\":{}", nm, i); }
                    }
                }
                RigidTy::Adt(d, a) => {
                    let ga = self.gargs(a);
                    let _ = write!(o, ",\"k\":\"adt\",\"def\":{},\"args\":{},\"adtkind\":{}", esc(&d.name()), ga,
                        esc(match d.kind() { AdtKind::Enum => "enum", AdtKind::Union => "union", AdtKind::Struct => "struct" }));
                    o.push_str(",\"variants\":[");
                    let vs = d.variants();
                    for (i, v) in vs.iter().enumerate() {
                        if i > 0 { o.push(','); }
                        let disc = if matches!(d.kind(), AdtKind::Enum) { d.discriminant_for_variant(v.idx()).val } else { 0 };
                        let _ = write!(o, "{{\"name\":{},\"disc\":{},\"fields\":[", esc(&v.name()), disc);
                        for (j, f) in v.fields().iter().enumerate() {
                            if j > 0 { o.push(','); }
                            let ft = self.ty(f.ty_with_args(a));
                            let _ = write!(o, "[{},{}]", esc(&f.name), ft);
                        }
                        o.push_str("]}");
                    }
                    o.push(']');
                    if d.is_box() { o.push_str(",\"box\":true"); }
                }
                RigidTy::Dynamic(..) => o.push_str(",\"k\":\"dyn\""),
                _ => o.push_str(",\"k\":\"other\""),
            },
            _ => o.push_str(",\"k\":\"other\""),
        }
        o.push('}');
        o
    }

    fn allocation(&mut self, a: &Allocation) -> String {
        let mut o = String::from("{\"bytes\":\"");
        for b in a.bytes.iter() {
            match b { Some(b) => { let _ = write!(o, "{:02x}", b); } None => o.push_str("__") }
        }
        o.push_str("\",\"prov\":[");
        for (i, (off, p)) in a.provenance.ptrs.iter().enumerate() {
            if i > 0 { o.push(','); }
            let id = self.alloc(p.0);
            let _ = write!(o, "[{},{}]", off, id);
        }
        o.push_str("]}");
        o
    }

    fn place(&mut self, p: &Place) -> String {
        if p.projection.is_empty() { return p.local.to_string(); }
        let mut o = format!("[{}", p.local);
        for e in &p.projection {
            o.push(',');
            match e {
                ProjectionElem::Deref => o.push_str("\"*\""),
                ProjectionElem::Field(f, t) => { let t = self.ty(*t); let _ = write!(o, "[\"f\",{},{}]", f, t); }
                ProjectionElem::Index(l) => { let _ = write!(o, "[\"i\",{}]", l); }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => { let _ = write!(o, "[\"ci\",{},{},{}]", offset, min_length, from_end); }
                ProjectionElem::Subslice { from, to, from_end } => { let _ = write!(o, "[\"ss\",{},{},{}]", from, to, from_end); }
                ProjectionElem::Downcast(v) => { let _ = write!(o, "[\"d\",{}]", vidx(v)); }
                ProjectionElem::OpaqueCast(t) => { let t = self.ty(*t); let _ = write!(o, "[\"oc\",{}]", t); }
                #[allow(unreachable_patterns)]
                other => { let _ = write!(o, "[\"?\",{}]", esc(&format!("{:?}", other))); }
            }
        }
        o.push(']');
        o
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => { let a = self.allocation(a); format!("{{\"c\":{},\"a\":{}}}", t, a) }
            ConstantKind::ZeroSized => format!("{{\"c\":{},\"z\":1}}", t),
            ConstantKind::Ty(tc) => { let v = self.tyconst(tc); format!("{{\"c\":{},\"v\":{}}}", t, v) }
            other => format!("{{\"c\":{},\"u\":{}}}", t, esc(&format!("{:?}", other))),
        }
    }
    fn operand(&mut self, op: &Operand) -> String {
        match op {
            Operand::Copy(p) => format!("{{\"cp\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"mv\":{}}}", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => format!("{{\"rt\":{}}}", esc(&format!("{:?}", r))),
        }
    }
    fn operands(&mut self, ops: &[Operand]) -> String {
        let v: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
        format!("[{}]", v.join(","))
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(k, p) => format!("[\"addr\",{},{}]", esc(&format!("{:?}", k)), self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let ops = self.operands(ops);
                let k = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = self.ty(d.ty_with_args(a));
                        format!("[\"adt\",{},{},{}]", t, vidx(v), f.map(|x| x.to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, a) => format!("[\"closure\",{}]", self.ty(Ty::new_closure(*d, a.clone()))),
                    AggregateKind::RawPtr(t, m) => format!("[\"rawptr\",{},{}]", self.ty(*t), *m == Mutability::Mut),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", k, ops)
            }
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",{},{},{}]", esc(&format!("{:?}", b)), self.operand(x), self.operand(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"cbin\",{},{},{}]", esc(&format!("{:?}", b)), self.operand(x), self.operand(y)),
            Rvalue::Cast(k, o, t) => format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.operand(o), self.ty(*t)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"cp\":{}}}]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, b, p) => format!("[\"ref\",{},{}]", matches!(b, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(o), self.tyconst(n)),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",{},{}]", esc(&format!("{:?}", u)), self.operand(o)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",{{\"cp\":{}}}]", self.place(p)),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
        }
    }

    fn is_leaf(&self, name: &str) -> bool {
        self.leaves.iter().any(|l| match l {
            Leaf::Prefix(p) => name.starts_with(p.as_str()),
            Leaf::Contains(p) => name.contains(p.as_str()),
            Leaf::Exact(p) => name == p,
        })
    }

    fn emit_inst(&mut self, i: Instance) -> String {
        let mut o = String::new();
        let name = i.name();
        let defname = i.def.name();
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let ga = self.gargs(&i.args());
        let ity = i.ty();
        let _ = write!(o, "{{\"name\":{},\"def\":{},\"kind\":\"{}\",\"args\":{}", esc(&name), esc(&defname), kind, ga);
        if let Some(n) = i.intrinsic_name() { let _ = write!(o, ",\"intrinsic\":{}", esc(&n)); }
        if let Some(sig) = ity.kind().fn_sig() {
            let sig = sig.skip_binder();
            let out = self.ty(sig.output());
            let ins: Vec<String> = sig.inputs().iter().map(|t| self.ty(*t).to_string()).collect();
            let _ = write!(o, ",\"ret\":{},\"params\":[{}]", out, ins.join(","));
        }
        let sp = self.span(&i.def.span());
        let _ = write!(o, ",\"span\":{}", sp);
        if let InstanceKind::Virtual { idx } = i.kind { let _ = write!(o, ",\"vidx\":{}", idx); }
        // redirect to a model function of the harness crate, if one is named for this def
        let adt = match i.args().0.first() { Some(GenericArgKind::Type(t)) => matches!(t.kind(), TyKind::RigidTy(RigidTy::Adt(..))), _ => false };
        let m = self.models.get(&defname).cloned().or_else(|| if adt { self.models.get(&format!("{} @adt", defname)).cloned() } else { None });
        if let Some(m) = m {
            if let Ok(mi) = Instance::resolve(m, &i.args()) {
                let mi = self.inst(mi);
                let _ = write!(o, ",\"model\":{}}}", mi);
                return o;
            }
        }
        let local = defname.starts_with("justjson") || name.contains("justjson") && !defname.starts_with("std") && !defname.starts_with("core") && !defname.starts_with("alloc");
        let never = ity.kind().fn_sig().map(|s| matches!(s.skip_binder().output().kind(), TyKind::RigidTy(RigidTy::Never))).unwrap_or(false);
        let leaf = self.is_leaf(&name) || (never && !local);
        if leaf { o.push_str(",\"leaf\":1}"); return o; }
        if matches!(i.kind, InstanceKind::Virtual { .. } | InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic) { o.push('}'); return o; }
        let body = if i.has_body() || i.kind == InstanceKind::Shim { i.body() } else { None };
        let Some(body) = body else { o.push_str(",\"nobody\":1}"); return o; };
        let lt: Vec<String> = body.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let _ = write!(o, ",\"locals\":[{}],\"argc\":{}", lt.join(","), body.arg_locals().len());
        if let Some(s) = body.spread_arg() { let _ = write!(o, ",\"spread\":{}", s); }
        o.push_str(",\"vars\":{");
        let mut seen = HashSet::new();
        let mut first = true;
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() && seen.insert(p.local) {
                    if !first { o.push(','); }
                    first = false;
                    let _ = write!(o, "\"{}\":{}", p.local, esc(&v.name));
                }
            }
        }
        o.push_str("},\"blocks\":[");
        for (bi, b) in body.blocks.iter().enumerate() {
            if bi > 0 { o.push(','); }
            o.push_str("{\"s\":[");
            let mut f = true;
            for s in &b.statements {
                let st = match &s.kind {
                    StatementKind::Assign(p, r) => { let p = self.place(p); let r = self.rvalue(r); format!("[\"=\",{},{}", p, r) }
                    StatementKind::SetDiscriminant { place, variant_index } => format!("[\"sd\",{},{}", self.place(place), vidx(variant_index)),
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}", l),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(_)) => continue,
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) =>
                        format!("[\"cno\",[{},{},{}]", self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count)),
                    _ => continue,
                };
                if !f { o.push(','); }
                f = false;
                let sp = self.span(&s.source_info.span);
                let _ = write!(o, "{},{}]", st, sp);
            }
            o.push_str("],\"t\":");
            let t = &b.terminator;
            let ts = match &t.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    format!("[\"sw\",{},[{}],{}", self.operand(discr), v.join(","), targets.otherwise())
                }
                TerminatorKind::Resume => "[\"resume\"".into(),
                TerminatorKind::Abort => "[\"abort\"".into(),
                TerminatorKind::Return => "[\"ret\"".into(),
                TerminatorKind::Unreachable => "[\"unreach\"".into(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}", self.place(place), target),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let mut callee = String::from("null");
                    if let Operand::Constant(c) = func {
                        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = c.const_.ty().kind() {
                            if let Ok(inst) = Instance::resolve(d, &a) {
                                callee = self.inst(inst).to_string();
                            } else { callee = esc(&format!("unresolved {}", d.name())); }
                        }
                    }
                    let f = if callee == "null" { self.operand(func) } else { "null".into() };
                    let a = self.operands(args);
                    let d = self.place(destination);
                    format!("[\"call\",{},{},{},{},{}", callee, f, a, d, target.map(|x| x.to_string()).unwrap_or("null".into()))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops): (String, Vec<&Operand>) = match msg {
                        AssertMessage::BoundsCheck { len, index } => ("bounds".into(), vec![len, index]),
                        AssertMessage::Overflow(b, x, y) => (format!("overflow {:?}", b), vec![x, y]),
                        other => (format!("{:?}", other).split('(').next().unwrap().to_string(), vec![]),
                    };
                    let ops: Vec<String> = ops.into_iter().map(|x| self.operand(x)).collect();
                    format!("[\"assert\",{},{},{},[{}],{}", self.operand(cond), expected, esc(&k), ops.join(","), target)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"".into(),
            };
            let sp = self.span(&t.source_info.span);
            let _ = write!(o, "{},{}]}}", ts, sp);
        }
        o.push_str("]}");
        o
    }
}

fn vidx(v: &VariantIdx) -> usize {
    // VariantIdx has no public accessor for its index: read it from its Debug form
    let s = format!("{:?}", v);
    s.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap()
}

fn dump() -> ControlFlow<()> {
    let out = std::env::var("JJ_DUMP_OUT").unwrap();
    let mut d = Dump { tys: HashMap::new(), ty_out: vec![], ty_queue: VecDeque::new(), insts: HashMap::new(), inst_queue: VecDeque::new(),
        allocs: HashMap::new(), alloc_queue: VecDeque::new(), files: HashMap::new(), leaves: vec![], models: HashMap::new() };
    if let Ok(l) = std::env::var("JJ_LEAVES") {
        for line in std::fs::read_to_string(l).unwrap().lines() {
            let line = line.trim_end();
            if line.is_empty() || line.starts_with('#') { continue; }
            if let Some(x) = line.strip_prefix("~") { d.leaves.push(Leaf::Contains(x.into())); }
            else if let Some(x) = line.strip_prefix("=") { d.leaves.push(Leaf::Exact(x.into())); }
            else { d.leaves.push(Leaf::Prefix(line.into())); }
        }
    }
    let mut wanted: Vec<(String, String)> = vec![];
    if let Ok(l) = std::env::var("JJ_MODELS") {
        for line in std::fs::read_to_string(l).unwrap().lines() {
            if let Some((a, b)) = line.split_once(" => ") { wanted.push((a.trim().into(), b.trim().into())); }
        }
    }
    let mut roots = vec![];
    let items: Vec<CrateItem> = rustc_public::all_local_items();
    for it in &items {
        if it.kind() != ItemKind::Fn { continue; }
        let n = it.name();
        for (a, b) in &wanted {
            if n.ends_with(&format!("models::{}", b)) {
                if let TyKind::RigidTy(RigidTy::FnDef(def, _)) = it.ty().kind() { d.models.insert(a.clone(), def); }
            }
        }
        if let Ok(inst) = Instance::try_from(*it) {
            if n.contains("roots::") { roots.push((n.clone(), inst)); }
        }
    }
    roots.sort_by(|a, b| a.0.cmp(&b.0));
    let mut roots_out = vec![];
    for (n, i) in roots { let id = d.inst(i); roots_out.push(format!("{}:{}", esc(&n), id)); }
    let mut inst_out: Vec<String> = vec![];
    let mut alloc_out: Vec<String> = vec![];
    loop {
        if let Some(i) = d.inst_queue.pop_front() { let s = d.emit_inst(i); inst_out.push(s); continue; }
        if let Some(t) = d.ty_queue.pop_front() { let s = d.emit_ty(t); d.ty_out.push(s); continue; }
        if let Some(a) = d.alloc_queue.pop_front() {
            let s = match GlobalAlloc::from(a) {
                GlobalAlloc::Memory(m) => { let x = d.allocation(&m); format!("{{\"k\":\"mem\",\"a\":{}}}", x) }
                GlobalAlloc::Static(st) => {
                    let t = d.ty(st.ty());
                    match st.eval_initializer() {
                        Ok(m) => { let x = d.allocation(&m); format!("{{\"k\":\"static\",\"name\":{},\"ty\":{},\"a\":{}}}", esc(&st.name()), t, x) }
                        Err(_) => format!("{{\"k\":\"static\",\"name\":{},\"ty\":{}}}", esc(&st.name()), t),
                    }
                }
                GlobalAlloc::Function(i) => { let x = d.inst(i); format!("{{\"k\":\"fn\",\"inst\":{}}}", x) }
                GlobalAlloc::VTable(t, _) => { let t = d.ty(t); format!("{{\"k\":\"vtable\",\"ty\":{}}}", t) }
                GlobalAlloc::TypeId { ty } => { let t = d.ty(ty); format!("{{\"k\":\"typeid\",\"ty\":{}}}", t) }
            };
            alloc_out.push(s);
            continue;
        }
        break;
    }
    let mut files: Vec<(String, usize)> = d.files.iter().map(|(a, b)| (a.clone(), *b)).collect();
    files.sort_by_key(|x| x.1);
    let fs: Vec<String> = files.iter().map(|x| esc(&x.0)).collect();
    let mut s = String::new();
    let _ = write!(s, "{{\"roots\":{{{}}},\n\"files\":[{}],\n\"types\":[\n{}\n],\n\"insts\":[\n{}\n],\n\"allocs\":[\n{}\n]}}\n",
        roots_out.join(","), fs.join(","), d.ty_out.join(",\n"), inst_out.join(",\n"), alloc_out.join(",\n"));
    std::fs::write(&out, s).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv[1] is the real rustc path
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    let want = std::env::var("JJ_DUMP_CRATE").unwrap_or_default();
    let mut cname = String::new();
    for w in args.windows(2) { if w[0] == "--crate-name" { cname = w[1].clone(); } }
    args[0] = "rustc".into();
    if !want.is_empty() && cname == want {
        let r = rustc_public::run!(&args, dump);
        match r { Ok(_) => {}, Err(_) => std::process::exit(1) }
    } else {
        if rustc_driver::catch_fatal_errors(|| rustc_driver::compiler_entrypoint(&args, &mut Nop)).is_err() { std::process::exit(1) }
    }
}
struct Nop;
impl rustc_driver::Callbacks for Nop {}
