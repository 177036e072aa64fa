//! rustc wrapper: compiles a workspace crate normally (as `cargo check` asks) and, on the way, writes the
//! type-checked MIR of every function of that crate (before coroutine lowering), of the generic and core
//! functions they call, and the tables needed to interpret them, as JSON into $MIRDUMP_OUT/<crate>.json.
#![feature(rustc_private)]
#![allow(unused)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::{self, interpret::GlobalAlloc, interpret::Scalar, Body, ConstValue};
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

// ---------------------------------------------------------------- json
#[derive(Clone)]
enum J { N, B(bool), I(i128), S(String), A(Vec<J>), O(Vec<(&'static str, J)>), M(Vec<(String, J)>) }
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) { write!(o, "\\u{:04x}", u).unwrap(); }
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => write!(o, "{}", i).unwrap(),
            J::S(s) => esc(s, o),
            J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.w(o); } o.push(']'); }
            J::O(v) => { o.push('{'); let mut first = true; for (k, x) in v.iter() { if let J::N = x { continue; } if !first { o.push(','); } first = false; esc(k, o); o.push(':'); x.w(o); } o.push('}'); }
            J::M(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } esc(k, o); o.push(':'); x.w(o); } o.push('}'); }
        }
    }
}
fn s<T: Into<String>>(x: T) -> J { J::S(x.into()) }
fn n(x: usize) -> J { J::I(x as i128) }

// ---------------------------------------------------------------- bodies captured before they are lowered
thread_local! { static BODIES: RefCell<HashMap<LocalDefId, Body<'static>>> = RefCell::new(HashMap::new()); }
struct Ctx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tymap: HashMap<Ty<'tcx>, usize>,
    types: Vec<J>,
    adts: HashMap<DefId, ()>,
    adt_out: Vec<(String, J)>,
    inst: HashMap<(Instance<'tcx>, Option<DefId>), usize>,
    queue: VecDeque<(usize, Instance<'tcx>, ty::TypingEnv<'tcx>, DefId)>,
    out: Vec<J>,
    env: Option<(ty::TypingEnv<'tcx>, DefId)>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    ty::print::with_resolve_crate_name!(ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(tcx.def_path_str(d))))
}

impl<'tcx> Ctx<'tcx> {
    fn loc(&self, sp: Span) -> J {
        let tcx = self.tcx;
        let root = sp.source_callsite();
        let sm = tcx.sess.source_map();
        let lo = sm.lookup_char_pos(root.lo());
        let mut mac = J::N;
        if sp.from_expansion() {
            let mut cur = sp;
            let mut names: Vec<J> = vec![];
            while cur.from_expansion() {
                let e = cur.ctxt().outer_expn_data();
                let nm = match (e.macro_def_id, &e.kind) {
                    (Some(d), _) => format!("{}", path(tcx, d)),
                    (None, k) => format!("#{}", k.descr()),
                };
                names.push(s(nm));
                cur = e.call_site;
            }
            mac = J::A(names);
        }
        J::A(vec![n(lo.line), mac])
    }
    fn file(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.source_callsite().lo());
        format!("{}", lo.file.name.prefer_local_unconditionally())
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J { n(self.tyi(t)) }
    fn tyi(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) { return *i; }
        let i = self.types.len();
        self.tymap.insert(t, i);
        self.types.push(J::N);
        let j = match *t.kind() {
            ty::Bool => J::O(vec![("k", s("bool"))]),
            ty::Char => J::O(vec![("k", s("char"))]),
            ty::Int(_) => J::O(vec![("k", s("int")), ("n", s(t.to_string()))]),
            ty::Uint(_) => J::O(vec![("k", s("uint")), ("n", s(t.to_string()))]),
            ty::Float(_) => J::O(vec![("k", s("float"))]),
            ty::Str => J::O(vec![("k", s("str"))]),
            ty::Never => J::O(vec![("k", s("never"))]),
            ty::Adt(def, args) => {
                let d = def.did();
                self.adt(d);
                let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
                J::O(vec![("k", s("adt")), ("p", s(path(self.tcx, d))), ("a", J::A(a))])
            }
            ty::Array(e, c) => {
                let l = c.try_to_target_usize(self.tcx).map(|x| J::I(x as i128)).unwrap_or(J::N);
                J::O(vec![("k", s("array")), ("e", self.ty(e)), ("l", l)])
            }
            ty::Slice(e) => J::O(vec![("k", s("slice")), ("e", self.ty(e))]),
            ty::RawPtr(e, m) => J::O(vec![("k", s("ptr")), ("e", self.ty(e)), ("m", J::B(m.is_mut()))]),
            ty::Ref(_, e, m) => J::O(vec![("k", s("ref")), ("e", self.ty(e)), ("m", J::B(m.is_mut()))]),
            ty::FnDef(..) => J::O(vec![("k", s("fndef")), ("fn", self.callee_of(t))]),
            ty::FnPtr(..) => J::O(vec![("k", s("fnptr"))]),
            ty::Dynamic(..) => J::O(vec![("k", s("dyn")), ("s", s(t.to_string()))]),
            ty::Closure(d, args) => {
                let d: DefId = d.into();
                let r = self.enqueue_item(d, args);
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                J::O(vec![("k", s("closure")), ("p", s(path(self.tcx, d))), ("i", r), ("u", J::A(ups))])
            }
            ty::Coroutine(d, args) => {
                let d: DefId = d.into();
                let r = self.enqueue_item(d, args);
                let ups: Vec<J> = args.as_coroutine().upvar_tys().iter().map(|x| self.ty(x)).collect();
                let ret = self.ty(args.as_coroutine().return_ty());
                J::O(vec![("k", s("coroutine")), ("p", s(path(self.tcx, d))), ("i", r), ("u", J::A(ups)), ("r", ret)])
            }
            ty::Tuple(ts) => { let a: Vec<J> = ts.iter().map(|x| self.ty(x)).collect(); J::O(vec![("k", s("tuple")), ("a", J::A(a))]) }
            ty::Param(p) => J::O(vec![("k", s("param")), ("n", s(p.name.to_string()))]),
            _ => J::O(vec![("k", s("other")), ("s", s(t.to_string()))]),
        };
        self.types[i] = j;
        i
    }
    fn adt(&mut self, d: DefId) {
        if self.adts.contains_key(&d) { return; }
        self.adts.insert(d, ());
        let def = self.tcx.adt_def(d);
        let tcx = self.tcx;
        let mut vs = vec![];
        let disc: Vec<i128> = if def.is_enum() { def.discriminants(tcx).map(|(_, x)| {
            // sign does not matter for our users: fieldless u8/u32/isize enums
            x.val as i128 }).collect() } else { vec![0] };
        for (i, v) in def.variants().iter_enumerated() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let fty = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let vis = format!("{:?}", tcx.visibility(f.did));
                fs.push(J::O(vec![("n", s(f.name.to_string())), ("t", s(fty.to_string())), ("ti", self.ty(fty)), ("pub", J::B(tcx.visibility(f.did).is_public()))]));
            }
            vs.push(J::O(vec![("n", s(v.name.to_string())), ("d", J::I(*disc.get(i.as_usize()).unwrap_or(&0))), ("f", J::A(fs))]));
        }
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let p = path(tcx, d);
        let sp = tcx.def_span(d);
        let j = J::O(vec![("kind", s(kind)), ("local", J::B(d.is_local())), ("v", J::A(vs)), ("file", s(self.file(sp))), ("loc", self.loc(sp))]);
        self.adt_out.push((p, j));
    }
    fn follow(&self, d: DefId) -> bool {
        if d.is_local() { return true; }
        let tcx = self.tcx;
        let c = tcx.crate_name(d.krate).to_string();
        if c == "core" || c == "std" || c == "alloc" {
            let p = path(tcx, d);
            let ok = ["option::", "result::", "ops::control_flow", "ops::try_trait", "convert::", "bool::", "cmp::"];
            let rest = p.splitn(2, "::").nth(1).unwrap_or("").to_string();
            let isimpl = p.starts_with('<');
            let modpath = {
                // module of the item
                let mut m = d;
                while !matches!(tcx.def_kind(m), DefKind::Mod) { m = tcx.parent(m); }
                let mp = path(tcx, m);
                mp.splitn(2, "::").nth(1).unwrap_or("").to_string() + "::"
            };
            return ok.iter().any(|o| modpath.starts_with(o) || modpath == *o || format!("{}::", modpath).starts_with(o));
        }
        c.starts_with("apiformes") || c == "bitflags"
    }
    fn enqueue_item(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let inst = Instance::new_raw(d, self.tcx.erase_and_anonymize_regions(args));
        self.enqueue(inst)
    }
    fn enqueue(&mut self, inst: Instance<'tcx>) -> J {
        let d = inst.def_id();
        let has = if let Some(l) = d.as_local() { BODIES.with(|b| b.borrow().contains_key(&l)) } else { self.follow(d) && self.tcx.is_mir_available(d) };
        if !has || !matches!(inst.def, ty::InstanceKind::Item(_)) { return J::N; }
        let Some((env, root)) = self.env else { return J::N };
        let key = (inst, if inst.args.has_param() { Some(root) } else { None });
        if let Some(i) = self.inst.get(&key) { return n(*i); }
        let i = self.out.len();
        self.out.push(J::N);
        self.inst.insert(key, i);
        self.queue.push_back((i, inst, env, root));
        n(i)
    }
    fn callee_of(&mut self, fty: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let ty::FnDef(d, args) = *fty.kind() else { return J::N };
        let d: DefId = d.into();
        let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
        self.callee(d, args)
    }
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let p = path(tcx, d);
        let tr = tcx.trait_of_assoc(d).map(|t| s(path(tcx, t))).unwrap_or(J::N);
        let targs: Vec<J> = args.types().map(|t| self.ty(t)).collect();
        let mut r = J::N; let mut rp = J::N; let mut rk = J::N;
        if let Some((env, _)) = self.env {
            if !args.has_escaping_bound_vars() {
                if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, args) {
                    rp = s(path(tcx, i.def_id()));
                    rk = match i.def { ty::InstanceKind::Item(_) => J::N, ref k => s(format!("{:?}", k).chars().take(60).collect::<String>()) };
                    r = self.enqueue(i);
                }
            }
        }
        let krate = tcx.crate_name(d.krate).to_string();
        J::O(vec![("p", s(p)), ("c", s(krate)), ("tr", tr), ("a", J::A(targs)), ("r", r), ("rp", rp), ("rk", rk)])
    }
    fn place(&mut self, body: &Body<'tcx>, p: mir::Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut v = vec![n(p.local.as_usize())];
        for (base, el) in p.iter_projections() {
            v.push(match el {
                mir::ProjectionElem::Deref => s("*"),
                mir::ProjectionElem::Field(f, t) => {
                    let bt = base.ty(&body.local_decls, tcx);
                    let name = match *bt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = bt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if def.is_enum() && bt.variant_index.is_none() { String::new() } else { def.variant(vi).fields[f].name.to_string() }
                        }
                        _ => String::new(),
                    };
                    J::A(vec![s("f"), n(f.as_usize()), s(name), self.ty(t)])
                }
                mir::ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                mir::ProjectionElem::ConstantIndex { offset, from_end, .. } => J::A(vec![s("ci"), J::I(offset as i128), J::B(from_end)]),
                mir::ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("ss"), J::I(from as i128), J::I(to as i128), J::B(from_end)]),
                mir::ProjectionElem::Downcast(nm, v) => J::A(vec![s("d"), n(v.as_usize()), s(nm.map(|x| x.to_string()).unwrap_or_default())]),
                _ => J::A(vec![s("o")]),
            });
        }
        J::A(v)
    }
    fn cval(&mut self, cv: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let tj = self.ty(t);
        if depth > 6 { return J::O(vec![("k", s("opaque")), ("t", tj)]); }
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(si) = cv.try_to_scalar_int() {
                    let bits = si.to_bits(si.size());
                    let v = match *t.kind() { ty::Int(_) => si.size().sign_extend(bits), _ => bits as i128 };
                    return J::O(vec![("k", s("int")), ("v", J::I(v)), ("t", tj)]);
                }
                if let ConstValue::Indirect { alloc_id, offset } = cv {
                    let sz = match *t.kind() { ty::Bool => 1, ty::Char => 4, ty::Int(i) => i.bit_width().unwrap_or(64) / 8, ty::Uint(u) => u.bit_width().unwrap_or(64) / 8, _ => 0 };
                    let rng = mir::interpret::AllocRange { start: offset, size: rustc_abi::Size::from_bytes(sz) };
                    if let GlobalAlloc::Memory(alloc) = tcx.global_alloc(alloc_id) {
                        if let Ok(Scalar::Int(si)) = alloc.inner().read_scalar(&tcx, rng, false) {
                            let bits = si.to_bits(si.size());
                            let v = match *t.kind() { ty::Int(_) => si.size().sign_extend(bits), _ => bits as i128 };
                            return J::O(vec![("k", s("int")), ("v", J::I(v)), ("t", tj)]);
                        }
                    }
                }
            }
            ty::FnDef(..) => { let c = self.callee_of(t); return J::O(vec![("k", s("fn")), ("fn", c), ("t", tj)]); }
            ty::Ref(_, inner, _) => {
                if inner.is_str() || matches!(*inner.kind(), ty::Slice(e) if e == tcx.types.u8) {
                    if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(tcx) {
                        if inner.is_str() { return J::O(vec![("k", s("str")), ("v", s(String::from_utf8_lossy(b).to_string())), ("t", tj)]); }
                        return J::O(vec![("k", s("bytes")), ("v", J::A(b.iter().map(|x| J::I(*x as i128)).collect())), ("t", tj)]);
                    }
                }
                if let ConstValue::Scalar(Scalar::Ptr(ptr, _)) = cv {
                    let (prov, off) = ptr.prov_and_relative_offset();
                    if let GlobalAlloc::Memory(_) = tcx.global_alloc(prov.alloc_id()) {
                        if inner.is_sized(tcx, ty::TypingEnv::fully_monomorphized()) {
                            let v = self.cval(ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off }, inner, depth + 1);
                            return J::O(vec![("k", s("ref")), ("v", v), ("t", tj)]);
                        }
                    }
                    if let GlobalAlloc::Static(d) = tcx.global_alloc(prov.alloc_id()) {
                        return J::O(vec![("k", s("static")), ("p", s(path(tcx, d))), ("t", tj)]);
                    }
                }
                if let ConstValue::Indirect { alloc_id, offset } = cv {
                    // a reference stored in memory: read the pointer
                    let alloc = tcx.global_alloc(alloc_id).unwrap_memory();
                    let ps = tcx.data_layout.pointer_size();
                    let rng = mir::interpret::AllocRange { start: offset, size: ps };
                    if let Ok(Scalar::Ptr(ptr, _)) = alloc.inner().read_scalar(&tcx, rng, true) {
                        let (prov, off) = ptr.prov_and_relative_offset();
                        if inner.is_str() || inner.is_slice() {
                            let rng2 = mir::interpret::AllocRange { start: offset + ps, size: ps };
                            if let Ok(l) = alloc.inner().read_scalar(&tcx, rng2, false) {
                                if let Ok(len) = l.to_target_usize(&tcx).discard_err().ok_or(()) {
                                    if off.bytes() == 0 { return self.cval(ConstValue::Slice { alloc_id: prov.alloc_id(), meta: len }, t, depth + 1); }
                                }
                            }
                        } else if inner.is_sized(tcx, ty::TypingEnv::fully_monomorphized()) {
                            let v = self.cval(ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off }, inner, depth + 1);
                            return J::O(vec![("k", s("ref")), ("v", v), ("t", tj)]);
                        }
                    }
                }
                return J::O(vec![("k", s("opaque")), ("t", tj)]);
            }
            ty::Adt(def, _) if !def.is_union() => {
                if t.has_param() { return J::O(vec![("k", s("opaque")), ("t", tj)]); }
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(cv, t) {
                    let vi = d.variant.map(|x| x.as_usize()).unwrap_or(0);
                    let fs: Vec<J> = d.fields.iter().map(|(v, t)| self.cval(*v, *t, depth + 1)).collect();
                    return J::O(vec![("k", s("adt")), ("v", n(vi)), ("f", J::A(fs)), ("t", tj)]);
                }
            }
            ty::Tuple(_) | ty::Array(..) => {
                if let ty::Tuple(ts) = t.kind() { if ts.is_empty() { return J::O(vec![("k", s("tup")), ("f", J::A(vec![])), ("t", tj)]); } }
                if !t.has_param() {
                    if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(cv, t) {
                        let fs: Vec<J> = d.fields.iter().take(300).map(|(v, t)| self.cval(*v, *t, depth + 1)).collect();
                        return J::O(vec![("k", s("tup")), ("f", J::A(fs)), ("t", tj)]);
                    }
                }
            }
            ty::Closure(..) => return J::O(vec![("k", s("zst")), ("t", tj)]),
            _ => {}
        }
        if let ConstValue::ZeroSized = cv { return J::O(vec![("k", s("zst")), ("t", tj)]); }
        J::O(vec![("k", s("opaque")), ("t", tj)])
    }
    fn konst(&mut self, c: &mir::ConstOperand<'tcx>, inst: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(..) = t.kind() { let x = self.callee_of(t); let tj = self.ty(t); return J::O(vec![("k", s("fn")), ("fn", x), ("t", tj)]); }
        let env = self.env.unwrap().0;
        let name = match c.const_ { mir::Const::Unevaluated(u, _) if u.promoted.is_none() => s(path(tcx, u.def)), _ => J::N };
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if let Some(pr) = u.promoted {
                if u.args.has_param() || true {
                    // try evaluation first, else give the promoted's own body
                    if !u.args.has_param() {
                        if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                            let j = self.cval(v, t, 0);
                            if let J::O(ref f) = j { if !matches!(&f[0].1, J::S(x) if x == "opaque") { return j; } }
                        }
                    }
                    let tj = self.ty(t);
                    let pb = tcx.promoted_mir(u.def);
                    let b = &pb[pr];
                    let b = inst_body(tcx, u.args, env, b.clone());
                    let bj = self.body(&b, Instance::new_raw(u.def, u.args));
                    return J::O(vec![("k", s("promoted")), ("body", bj), ("t", tj)]);
                }
            }
        }
        let r = match c.const_.eval(tcx, env, c.span) {
            Ok(v) => { self.cval(v, t, 0) }
            Err(_) => { let tj = self.ty(t); J::O(vec![("k", s("opaque")), ("t", tj)]) }
        };
        if let (J::O(mut f), J::S(nm)) = (r.clone(), &name) { f.push(("name", s(nm.clone()))); return J::O(f); }
        r
    }
    fn operand(&mut self, body: &Body<'tcx>, o: &mir::Operand<'tcx>, inst: Instance<'tcx>) -> J {
        match o {
            mir::Operand::Copy(p) => J::A(vec![s("c"), self.place(body, *p)]),
            mir::Operand::Move(p) => J::A(vec![s("m"), self.place(body, *p)]),
            mir::Operand::Constant(c) => J::A(vec![s("k"), self.konst(c, inst)]),
            _ => { let t = self.tcx.types.bool; J::A(vec![s("k"), J::O(vec![("k", s("int")), ("v", J::I(0)), ("t", self.ty(t))])]) }
        }
    }
    fn rvalue(&mut self, body: &Body<'tcx>, r: &mir::Rvalue<'tcx>, inst: Instance<'tcx>) -> J {
        use mir::Rvalue::*;
        match r {
            Use(o, _) => J::A(vec![s("use"), self.operand(body, o, inst)]),
            Repeat(o, c) => { let l = c.try_to_target_usize(self.tcx).map(|x| J::I(x as i128)).unwrap_or(J::N); J::A(vec![s("rep"), self.operand(body, o, inst), l]) }
            Ref(_, k, p) => J::A(vec![s("ref"), self.place(body, *p), J::B(matches!(k, mir::BorrowKind::Mut { .. })), J::B(matches!(k, mir::BorrowKind::Fake(_)))]),
            RawPtr(k, p) => J::A(vec![s("ref"), self.place(body, *p), J::B(true), J::B(false)]),
            Reborrow(_, m, p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(body, *p)])]),
            Cast(k, o, t) => J::A(vec![s("cast"), s(format!("{:?}", k)), self.operand(body, o, inst), { let ot = o.ty(&body.local_decls, self.tcx); self.ty(ot) }, self.ty(*t)]),
            BinaryOp(op, b) => { let t0 = b.0.ty(&body.local_decls, self.tcx); J::A(vec![s("bin"), s(format!("{:?}", op)), self.operand(body, &b.0, inst), self.operand(body, &b.1, inst), self.ty(t0)]) }
            UnaryOp(op, o) => { let t0 = o.ty(&body.local_decls, self.tcx); J::A(vec![s("un"), s(format!("{:?}", op)), self.operand(body, o, inst), self.ty(t0)]) }
            Discriminant(p) => { let t = p.ty(&body.local_decls, self.tcx).ty; J::A(vec![s("disc"), self.place(body, *p), self.ty(t)]) }
            Aggregate(k, ops) => {
                let os: Vec<J> = ops.iter().map(|o| self.operand(body, o, inst)).collect();
                let kj = match &**k {
                    mir::AggregateKind::Array(t) => J::A(vec![s("array"), self.ty(*t)]),
                    mir::AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    mir::AggregateKind::Adt(d, v, a, _, f) => {
                        self.adt(*d);
                        let ta: Vec<J> = a.types().map(|x| self.ty(x)).collect();
                        J::A(vec![s("adt"), s(path(self.tcx, *d)), n(v.as_usize()), J::A(ta), f.map(|x| n(x.as_usize())).unwrap_or(J::N)])
                    }
                    mir::AggregateKind::Closure(d, a) => { let r = self.enqueue_item(*d, a); J::A(vec![s("closure"), s(path(self.tcx, *d)), r]) }
                    mir::AggregateKind::Coroutine(d, a) => { let r = self.enqueue_item(*d, a); J::A(vec![s("coroutine"), s(path(self.tcx, *d)), r]) }
                    mir::AggregateKind::CoroutineClosure(d, a) => J::A(vec![s("corclosure"), s(path(self.tcx, *d)), J::N]),
                    mir::AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                };
                J::A(vec![s("agg"), kj, J::A(os)])
            }
            CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(body, *p)])]),
            _ => J::A(vec![s("other"), s(format!("{:?}", r))]),
        }
    }
    fn body(&mut self, body: &Body<'tcx>, inst: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upv: Vec<(String, J)> = vec![];
        for vdi in body.var_debug_info.iter() {
            if let mir::VarDebugInfoContents::Place(p) = vdi.value {
                if p.projection.is_empty() { names.entry(p.local.as_usize()).or_insert(vdi.name.to_string()); }
                else { let pj = self.place(body, p); upv.push((vdi.name.to_string(), pj)); }
            }
        }
        let locals: Vec<J> = body.local_decls.iter_enumerated().map(|(i, d)| { let t = self.ty(d.ty); J::A(vec![t, names.get(&i.as_usize()).map(|x| s(x.clone())).unwrap_or(J::N)]) }).collect();
        let mut blocks = vec![];
        for (bi, b) in body.basic_blocks.iter_enumerated() {
            if b.is_cleanup { blocks.push(J::N); continue; }
            let mut st = vec![];
            for x in &b.statements {
                match &x.kind {
                    mir::StatementKind::Assign(a) => { st.push(J::A(vec![s("="), self.place(body, a.0), self.rvalue(body, &a.1, inst), self.loc(x.source_info.span)])); }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => { st.push(J::A(vec![s("sd"), self.place(body, **place), n(variant_index.as_usize())])); }
                    mir::StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), n(l.as_usize())])),
                    mir::StatementKind::StorageLive(l) => st.push(J::A(vec![s("live"), n(l.as_usize())])),
                    mir::StatementKind::Intrinsic(i) => { if let mir::NonDivergingIntrinsic::Assume(o) = &**i { st.push(J::A(vec![s("assume"), self.operand(body, o, inst)])); } }
                    _ => {}
                }
            }
            let t = b.terminator();
            let sp = self.loc(t.source_info.span);
            use mir::TerminatorKind::*;
            let bb = |x: mir::BasicBlock| n(x.as_usize());
            let term = match &t.kind {
                Goto { target, .. } => J::A(vec![s("goto"), bb(*target)]),
                SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let vs: Vec<J> = targets.iter().map(|(v, b)| J::A(vec![J::I(v as i128), bb(b)])).collect();
                    J::A(vec![s("switch"), self.operand(body, discr, inst), J::A(vs), bb(targets.otherwise()), self.ty(dt), sp])
                }
                Return => J::A(vec![s("ret"), sp]),
                Unreachable => J::A(vec![s("unreachable"), sp]),
                Drop { place, target, .. } => { let pt = place.ty(&body.local_decls, tcx).ty; J::A(vec![s("drop"), self.place(body, *place), bb(*target), self.ty(pt), sp]) }
                Call { func, args, destination, target, fn_span, .. } => {
                    let fj = match func { mir::Operand::Constant(c) => { let f = self.callee_of(c.const_.ty()); match f { J::N => self.operand(body, func, inst), x => x } }, _ => self.operand(body, func, inst) };
                    let aj: Vec<J> = args.iter().map(|a| self.operand(body, &a.node, inst)).collect();
                    let atys: Vec<J> = args.iter().map(|a| { let t = a.node.ty(&body.local_decls, tcx); self.ty(t) }).collect();
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    J::A(vec![s("call"), fj, J::A(aj), self.place(body, *destination), target.map(bb).unwrap_or(J::N), sp, self.ty(dt), J::A(atys)])
                }
                Assert { cond, expected, msg, target, .. } => {
                    let (mk, ops): (String, Vec<J>) = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![self.operand(body, len, inst), self.operand(body, index, inst)]),
                        mir::AssertKind::Overflow(op, a, b) => (format!("overflow:{:?}", op), vec![self.operand(body, a, inst), self.operand(body, b, inst)]),
                        mir::AssertKind::OverflowNeg(a) => ("overflow:Neg".into(), vec![]),
                        mir::AssertKind::DivisionByZero(a) => ("divzero".into(), vec![]),
                        mir::AssertKind::RemainderByZero(a) => ("remzero".into(), vec![]),
                        x => (format!("other:{:?}", std::mem::discriminant(x)), vec![]),
                    };
                    J::A(vec![s("assert"), self.operand(body, cond, inst), J::B(*expected), s(mk), J::A(ops), bb(*target), sp])
                }
                Yield { value, resume, resume_arg, .. } => J::A(vec![s("yield"), bb(*resume), self.place(body, *resume_arg), sp]),
                FalseEdge { real_target, .. } => J::A(vec![s("goto"), bb(*real_target)]),
                FalseUnwind { real_target, .. } => J::A(vec![s("goto"), bb(*real_target)]),
                UnwindResume | UnwindTerminate(_) | CoroutineDrop => J::A(vec![s("unreachable"), sp]),
                TailCall { .. } | InlineAsm { .. } => J::A(vec![s("other"), sp]),
            };
            blocks.push(J::A(vec![J::A(st), term]));
        }
        J::O(vec![("args", n(body.arg_count)), ("locals", J::A(locals)), ("upv", J::M(upv)), ("spread", body.spread_arg.map(|l| n(l.as_usize())).unwrap_or(J::N)), ("blocks", J::A(blocks))])
    }
    fn run_queue(&mut self) {
        let tcx = self.tcx;
        while let Some((i, inst, env, root)) = self.queue.pop_front() {
            self.env = Some((env, root));
            let d = inst.def_id();
            let raw: Body<'tcx> = if let Some(l) = d.as_local() {
                BODIES.with(|b| { let b = b.borrow(); let x = b.get(&l).unwrap().clone(); unsafe { std::mem::transmute::<Body<'static>, Body<'tcx>>(x) } })
            } else { tcx.instance_mir(inst.def).clone() };
            let body = inst_body(tcx, inst.args, env, raw);
            let bj = self.body(&body, inst);
            let sp = tcx.def_span(d);
            let kind = match tcx.def_kind(d) { DefKind::Closure => if tcx.is_coroutine(d) { "coroutine" } else { "closure" }, _ => "fn" };
            let targs: Vec<J> = inst.args.types().map(|t| self.ty(t)).collect();
            let (vis, name) = if kind == "fn" { (J::B(tcx.visibility(d).is_public()), tcx.item_name(d).to_string()) } else { (J::N, String::new()) };
            let (imp, slf, tr) = if kind == "fn" {
                match tcx.assoc_parent(d) {
                    Some((p, DefKind::Impl { of_trait })) => {
                        let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                        let trp = if of_trait { s(path(tcx, tcx.impl_trait_ref(p).skip_binder().def_id)) } else { J::N };
                        (J::B(true), self.ty(st), trp)
                    }
                    Some((p, _)) => (J::N, J::N, s(path(tcx, p))),
                    None => (J::N, J::N, J::N),
                }
            } else { (J::N, J::N, J::N) };
            let parent = if kind != "fn" { s(path(tcx, tcx.parent(d))) } else { J::N };
            // safe public reachability
            let reach = if let Some(l) = d.as_local() { J::B(tcx.effective_visibilities(()).is_reachable(l)) } else { J::N };
            let ret = self.ty(body.local_decls[mir::RETURN_PLACE].ty);
            let isroot = inst.args == tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, d));
            let asyncness = if kind == "fn" { J::B(tcx.asyncness(d).is_async()) } else { J::N };
            self.out[i] = J::O(vec![
                ("id", n(i)), ("p", s(path(tcx, d))), ("n", s(name)), ("c", s(tcx.crate_name(d.krate).to_string())), ("kind", s(kind)), ("targs", J::A(targs)),
                ("local", J::B(d.is_local())), ("root", J::B(isroot && d.is_local())), ("vis", vis), ("reach", reach), ("self", slf), ("trait", tr), ("parent", parent), ("async", asyncness),
                ("file", s(self.file(sp))), ("line", self.loc(sp)), ("ret", ret), ("body", bj),
            ]);
        }
    }
}
fn inst_body<'tcx>(tcx: TyCtxt<'tcx>, args: GenericArgsRef<'tcx>, env: ty::TypingEnv<'tcx>, b: Body<'tcx>) -> Body<'tcx> {
    tcx.instantiate_and_normalize_erasing_regions(args, env, ty::EarlyBinder::bind(tcx, b))
}

struct Cb { out: String, krate: String, bodies: bool }
impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        // clone every body before later queries steal and lower it
        for d in tcx.hir_body_owners() {
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) { continue; }
            let (b, _) = tcx.mir_promoted(d);
            let b: Body<'tcx> = b.borrow().clone();
            let b = unsafe { std::mem::transmute::<Body<'tcx>, Body<'static>>(b) };
            BODIES.with(|m| { m.borrow_mut().insert(d, b); });
        }
        Compilation::Continue
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Ctx { tcx, tymap: HashMap::new(), types: vec![], adts: HashMap::new(), adt_out: vec![], inst: HashMap::new(), queue: VecDeque::new(), out: vec![], env: None };
        let mut owners: Vec<LocalDefId> = tcx.hir_body_owners().filter(|d| matches!(tcx.def_kind(*d), DefKind::Fn | DefKind::AssocFn)).collect();
        owners.sort_by_key(|d| d.local_def_index.as_u32());
        for d in owners {
            let env = ty::TypingEnv::post_analysis(tcx, d.to_def_id());
            cx.env = Some((env, d.to_def_id()));
            let inst = Instance::new_raw(d.to_def_id(), tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, d)));
            cx.enqueue(inst);
            cx.run_queue();
        }
        // values of non-generic constants (flag bits and the like)
        let mut consts: Vec<(String, J)> = vec![];
        let mut cs: Vec<LocalDefId> = tcx.hir_body_owners().filter(|d| matches!(tcx.def_kind(*d), DefKind::Const { .. } | DefKind::AssocConst { .. })).collect();
        cs.sort_by_key(|d| d.local_def_index.as_u32());
        for d in cs {
            let d = d.to_def_id();
            if tcx.generics_of(d).requires_monomorphization(tcx) { continue; }
            if let Ok(cv) = tcx.const_eval_poly(d) {
                let env = ty::TypingEnv::post_analysis(tcx, d);
                cx.env = Some((env, d));
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let v = cx.cval(cv, t, 0);
                consts.push((path(tcx, d), v));
            }
        }
        let mut o = String::new();
        let files: Vec<J> = vec![];
        let Ctx { types, out, adt_out, .. } = cx;
        J::O(vec![("crate", s(self.krate.clone())), ("types", J::A(types)), ("adts", J::M(adt_out)), ("consts", J::M(consts)), ("insts", J::A(out))]).w(&mut o);
        std::fs::create_dir_all(&self.out).unwrap();
        let tmp = format!("{}/.{}.{}", self.out, self.krate, std::process::id());
        std::fs::write(&tmp, o).unwrap();
        std::fs::rename(&tmp, format!("{}/{}.json", self.out, self.krate)).unwrap();
        Compilation::Continue
    }
}
struct Nop;
impl rustc_driver::Callbacks for Nop {}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    let pos = args.iter().position(|a| a == "--crate-name");
    let krate = pos.and_then(|i| args.get(i + 1).cloned()).unwrap_or_default();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let is_test = args.iter().any(|a| a == "--test");
    if !out.is_empty() && !krate.is_empty() && krate != "build_script_build" && krate != "___" && !is_test {
        args.push("-Zalways-encode-mir".into());
        let mut cb = Cb { out, krate, bodies: true };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}
