// mirdump: a rustc wrapper that writes the type-checked program (MIR after
// promotion, before drop elaboration) of the crate being compiled as JSON, with every
// callee resolved to an instance.  It changes nothing about the compilation.
//
//   RUSTC_WORKSPACE_WRAPPER=mirdump MIRDUMP_OUT=<dir> cargo check
//
// Crates listed in MIRDUMP_CRATES (comma separated) are dumped to <dir>/<crate>.<type>.json.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_resolve_crate_name;
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv, Unnormalized};
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque};

mod json;
use json::{arr, int, obj, s, J};

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        dump(tcx, &self.out);
        rustc_driver::Compilation::Continue
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Key<'tcx> {
    def: DefId,
    args: GenericArgsRef<'tcx>,
    identity: bool,
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    bodies: HashMap<LocalDefId, (Body<'tcx>, Vec<Body<'tcx>>)>,
    types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    queue: VecDeque<Key<'tcx>>,
    seen: HashMap<Key<'tcx>, String>,
    env: TypingEnv<'tcx>,
    env_mono: bool,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_resolve_crate_name!(ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(tcx.def_path_str(d))))
}
fn path_args<'tcx>(tcx: TyCtxt<'tcx>, d: DefId, a: GenericArgsRef<'tcx>) -> String {
    with_resolve_crate_name!(ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(tcx.def_path_str_with_args(d, a))))
}
fn ty_str(t: Ty<'_>) -> String {
    with_resolve_crate_name!(ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(format!("{}", t))))
}

const STD_DUMP: &[&str] = &[
    "core::option::", "core::result::", "core::bool::", "core::ops::control_flow::", "core::convert::", "core::tuple::",
    "core::ops::try_trait::", "core::ops::bit", "core::cmp::", "core::ops::function::", "core::ops::arith", "core::default::",
];

impl<'tcx> D<'tcx> {
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let c = sp.source_callsite();
        let lo = sm.lookup_char_pos(c.lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        let mut v = vec![("f", s(&name)), ("l", int(lo.line as i128))];
        if sp.from_expansion() {
            let data = sp.ctxt().outer_expn_data();
            v.push(("m", s(&format!("{:?}", data.kind))));
            // outermost macro too
            let mut cur = sp;
            let mut last = String::new();
            while cur.from_expansion() {
                let e = cur.ctxt().outer_expn_data();
                last = format!("{:?}", e.kind);
                cur = e.call_site;
            }
            v.push(("om", s(&last)));
        }
        obj(v)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        int(self.ty_id(t) as i128)
    }
    fn ty_id(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(J::Null);
        self.tymap.insert(t, id);
        let mut o: Vec<(&str, J)> = vec![("s", s(&ty_str(t)))];
        match t.kind() {
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(&path(self.tcx, def.did()))));
                o.push(("local", J::Bool(def.did().is_local())));
                o.push(("adt", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                let a: Vec<J> = args.types().map(|t| self.ty(t)).collect();
                o.push(("args", arr(a)));
                let deep = def.did().is_local() || def.is_enum();
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let mut fo = vec![("name", s(f.name.as_str()))];
                        if deep {
                            let ft = f.ty(self.tcx, args).skip_norm_wip();
                            let ft = self.tcx.try_normalize_erasing_regions(self.env, Unnormalized::new_wip(ft)).unwrap_or(ft);
                            fo.push(("ty", self.ty(ft)));
                        }
                        fs.push(obj(fo));
                    }
                    let discr = if def.is_enum() { def.discriminant_for_variant(self.tcx, vi).val as i128 } else { 0 };
                    vs.push(obj(vec![("name", s(v.name.as_str())), ("discr", int(discr)), ("fields", arr(fs))]));
                }
                o.push(("variants", arr(vs)));
            }
            ty::Ref(_, inner, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::Bool(m.is_mut())));
                o.push(("args", arr(vec![self.ty(*inner)])));
            }
            ty::RawPtr(inner, m) => {
                o.push(("k", s("ptr")));
                o.push(("mut", J::Bool(m.is_mut())));
                o.push(("args", arr(vec![self.ty(*inner)])));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let a: Vec<J> = ts.iter().map(|t| self.ty(t)).collect();
                o.push(("args", arr(a)));
            }
            ty::Slice(t) => {
                o.push(("k", s("slice")));
                o.push(("args", arr(vec![self.ty(*t)])));
            }
            ty::Array(t, n) => {
                o.push(("k", s("array")));
                o.push(("args", arr(vec![self.ty(*t)])));
                if let Some(n) = n.try_to_target_usize(self.tcx) {
                    o.push(("len", int(n as i128)));
                }
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("path", s(&path(self.tcx, *d))));
                let inst = self.enqueue(*d, args);
                o.push(("inst", inst));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                let c = self.callee(*d, args.skip_binder());
                o.push(("callee", c));
            }
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Int(_) | ty::Uint(_) => o.push(("k", s("int"))),
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("name", s(p.name.as_str())));
            }
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            _ => o.push(("k", s("other"))),
        }
        self.types[id] = obj(o);
        id
    }

    fn enqueue(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let mono = !args.has_param();
        let key = if mono {
            Key { def: d, args: self.tcx.erase_and_anonymize_regions(args), identity: false }
        } else {
            // generic context: fall back to the identity body of the callee
            if !d.is_local() {
                return J::Null;
            }
            Key { def: d, args: ty::GenericArgs::identity_for_item(self.tcx, d), identity: true }
        };
        if let Some(n) = self.seen.get(&key) {
            return s(n);
        }
        let has = if d.is_local() {
            self.bodies.contains_key(&d.expect_local())
        } else {
            let p = path(self.tcx, d);
            let pp = p.trim_start_matches('<');
            mono && STD_DUMP.iter().any(|x| pp.starts_with(x)) && self.tcx.is_mir_available(d)
        };
        if !has {
            return J::Null;
        }
        let mut name = path_args(self.tcx, d, key.args);
        if key.identity && key.args.has_param() {
            name = format!("{} [generic]", name);
        }
        // instances of closures in different monomorphisations share a path
        if self.seen.values().any(|v| *v == name) {
            name = format!("{}#{}", name, self.seen.len());
        }
        self.seen.insert(key, name.clone());
        self.queue.push_back(key);
        s(&name)
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let mut o: Vec<(&str, J)> = vec![];
        // declared
        let decl = self.name_of(d, args);
        o.push(("name", s(&decl)));
        o.push(("krate", s(tcx.crate_name(d.krate).as_str())));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(&path(tcx, tr))));
            o.push(("method", s(tcx.item_name(d).as_str())));
            if let Some(t) = args.types().next() {
                o.push(("self_ty", self.ty(t)));
            }
        }
        let targs: Vec<J> = args.types().map(|t| self.ty(t)).collect();
        o.push(("targs", arr(targs)));
        // resolved
        let mut inst = J::Null;
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => {
                let r = if self.env_mono || !args.has_param() {
                    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::try_resolve(tcx, if args.has_param() { self.env } else { TypingEnv::fully_monomorphized() }, d, args))).unwrap_or(Ok(None))
                } else {
                    Instance::try_resolve(tcx, self.env, d, args)
                };
                if let Ok(Some(i)) = r {
                    let rd = i.def_id();
                    match i.def {
                        InstanceKind::Item(rd) => {
                            if rd != d {
                                o.push(("rname", s(&self.name_of(rd, i.args))));
                                o.push(("rkrate", s(tcx.crate_name(rd.krate).as_str())));
                            }
                            o.push(("rpath", s(&path(tcx, rd))));
                            o.push(("derived", J::Bool(self.is_derived(rd))));
                            inst = self.enqueue(rd, i.args);
                        }
                        InstanceKind::Virtual(..) => o.push(("virtual", J::Bool(true))),
                        InstanceKind::Intrinsic(_) => o.push(("intrinsic", J::Bool(true))),
                        InstanceKind::Shim(ty::ShimKind::Clone(..)) => o.push(("cloneshim", J::Bool(true))),
                        InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => {
                            o.push(("shim", s("once")));
                            let _ = rd;
                        }
                        _ => o.push(("shim", s("other"))),
                    }
                } else {
                    o.push(("unresolved", J::Bool(true)));
                }
            }
            DefKind::Ctor(..) => {
                o.push(("ctor", J::Bool(true)));
                let fnty = tcx.type_of(d).instantiate(tcx, args).skip_norm_wip();
                let sig = fnty.fn_sig(tcx).skip_binder();
                let out = sig.output();
                o.push(("out", self.ty(out)));
                if let ty::Adt(def, _) = out.kind() {
                    let vi = def.variant_index_with_ctor_id(d);
                    o.push(("variant", int(vi.as_usize() as i128)));
                }
            }
            _ => {}
        }
        let span = tcx.def_span(d);
        let _ = span;
        o.push(("inst", inst));
        obj(o)
    }

    fn is_derived(&self, d: DefId) -> bool {
        let tcx = self.tcx;
        match tcx.opt_parent(d) {
            Some(p) if matches!(tcx.def_kind(p), DefKind::Impl { .. }) => tcx.is_automatically_derived(p),
            _ => false,
        }
    }

    /// trait methods: "Trait::method"; inherent: "Type::method"; functions: path
    fn name_of(&self, d: DefId, _args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        if let Some(tr) = tcx.trait_of_assoc(d) {
            return format!("{}::{}", path(tcx, tr), tcx.item_name(d));
        }
        if let Some(im) = tcx.opt_parent(d) {
            if let DefKind::Impl { of_trait } = tcx.def_kind(im) {
                if of_trait {
                    let tr = tcx.impl_trait_ref(im).skip_binder().def_id;
                    return format!("{}::{}", path(tcx, tr), tcx.item_name(d));
                }
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let base = match st.kind() {
                    ty::Adt(def, _) => path(tcx, def.did()),
                    ty::Slice(_) => "slice".to_string(),
                    ty::Array(..) => "array".to_string(),
                    ty::RawPtr(..) => "ptr".to_string(),
                    _ => ty_str(st),
                };
                return format!("{}::{}", base, tcx.item_name(d));
            }
        }
        path(tcx, d)
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => arr(vec![s("f"), int(f.as_usize() as i128), self.ty(t)]),
                ProjectionElem::Index(l) => arr(vec![s("i"), int(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => arr(vec![s("ci"), int(offset as i128), J::Bool(from_end), int(min_length as i128)]),
                ProjectionElem::Subslice { from, to, from_end } => arr(vec![s("ss"), int(from as i128), int(to as i128), J::Bool(from_end)]),
                ProjectionElem::Downcast(_, v) => arr(vec![s("v"), int(v.as_usize() as i128)]),
                _ => s("?"),
            });
        }
        arr(vec![int(p.local.as_usize() as i128), arr(pr)])
    }

    fn operand(&mut self, o: &Operand<'tcx>, owner: &str) -> J {
        match o {
            Operand::Copy(p) => arr(vec![s("copy"), self.place(p)]),
            Operand::Move(p) => arr(vec![s("move"), self.place(p)]),
            Operand::Constant(c) => arr(vec![s("const"), self.constant(&c.const_, c.span, owner)]),
            _ => arr(vec![s("const"), obj(vec![("k", s("bool")), ("v", J::Bool(false)), ("rtcheck", J::Bool(true))])]),
        }
    }

    fn constant(&mut self, c: &Const<'tcx>, span: Span, owner: &str) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let mut o: Vec<(&'static str, J)> = vec![("ty", self.ty(t))];
        if let ty::FnDef(..) = t.kind() {
            o.push(("k", s("fn")));
            return obj(o);
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                o.push(("k", s("promoted")));
                // promoted of this body (or of the generic it was inlined from)
                let own = self.promoted_owner(u.def, u.args, owner);
                o.push(("owner", own));
                o.push(("idx", int(p.as_usize() as i128)));
                return obj(o);
            }
            o.push(("name", s(&path(tcx, u.def))));
        }
        let env = self.env;
        let is_generic = c.has_param();
        let v = if is_generic { None } else { c.eval(tcx, env, span).ok() };
        match v {
            Some(v) => self.const_value(v, t, &mut o),
            None => o.push(("k", s("unknown"))),
        }
        obj(o)
    }

    fn promoted_owner(&mut self, def: DefId, args: GenericArgsRef<'tcx>, owner: &str) -> J {
        let _ = owner;
        self.enqueue(def, args)
    }

    fn const_value(&mut self, v: ConstValue, t: Ty<'tcx>, o: &mut Vec<(&'static str, J)>) {
        let tcx = self.tcx;
        match v {
            ConstValue::Scalar(sc) => match t.kind() {
                ty::Bool => {
                    o.push(("k", s("bool")));
                    o.push(("v", J::Bool(sc.to_bool().discard_err().unwrap_or(false))));
                }
                ty::Char => {
                    o.push(("k", s("char")));
                    o.push(("v", s(&sc.to_char().discard_err().map(|c| c.to_string()).unwrap_or_default())));
                }
                ty::Int(_) | ty::Uint(_) => {
                    o.push(("k", s("int")));
                    if let Ok(i) = sc.try_to_scalar_int() {
                        let signed = matches!(t.kind(), ty::Int(_));
                        let n = if signed { i.to_int(i.size()) } else { i.to_uint(i.size()) as i128 };
                        o.push(("v", int(n)));
                    }
                }
                ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                    // &[u8; N] byte strings, &statics
                    if let interpret::Scalar::Ptr(p, _) = sc {
                        let (prov, off) = p.prov_and_relative_offset();
                        let aid = prov.alloc_id();
                        if let (ty::Array(et, n), Some(interpret::GlobalAlloc::Memory(m))) = (inner.kind(), tcx.try_get_global_alloc(aid)) {
                            if matches!(et.kind(), ty::Uint(ty::UintTy::U8)) {
                                if let Some(n) = n.try_to_target_usize(tcx) {
                                    let st = off.bytes_usize();
                                    let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(st..st + n as usize);
                                    o.push(("k", s("bytes")));
                                    o.push(("v", arr(b.iter().map(|x| int(*x as i128)).collect())));
                                    return;
                                }
                            }
                        }
                        if let Some(interpret::GlobalAlloc::Memory(_)) = tcx.try_get_global_alloc(aid) {
                            let mut inn = vec![("ty", self.ty(*inner))];
                            self.mem(aid, off.bytes(), *inner, &mut inn, 1);
                            o.push(("k", s("ref")));
                            o.push(("to", obj(inn)));
                            return;
                        }
                        if let Some(interpret::GlobalAlloc::Static(d)) = tcx.try_get_global_alloc(aid) {
                            o.push(("k", s("static")));
                            o.push(("static", s(&path(tcx, d))));
                            o.push(("mutable", J::Bool(tcx.is_mutable_static(d))));
                            return;
                        }
                    }
                    o.push(("k", s("ptr")));
                }
                ty::Adt(def, _) if def.is_enum() => {
                    o.push(("k", s("enumscalar")));
                    if let Ok(i) = sc.try_to_scalar_int() {
                        o.push(("v", int(i.to_uint(i.size()) as i128)));
                    }
                }
                _ => o.push(("k", s("scalar"))),
            },
            ConstValue::ZeroSized => o.push(("k", s("zst"))),
            ConstValue::Slice { alloc_id, meta } => {
                if let ty::Ref(_, i, _) = t.kind() {
                    self.slice_mem(alloc_id, 0, meta, *i, o, 0);
                } else {
                    o.push(("k", s("ptr")));
                }
            }
            ConstValue::Indirect { alloc_id, offset } => {
                self.mem(alloc_id, offset.bytes(), t, o, 0);
            }
        }
    }

    fn scalar_at(&self, aid: interpret::AllocId, off: u64, size: u64, prov: bool) -> Option<interpret::Scalar> {
        let a = match self.tcx.try_get_global_alloc(aid) {
            Some(interpret::GlobalAlloc::Memory(m)) => m,
            _ => return None,
        };
        if off + size > a.inner().len() as u64 {
            return None;
        }
        a.inner().read_scalar(&self.tcx, interpret::alloc_range(rustc_abi::Size::from_bytes(off), rustc_abi::Size::from_bytes(size)), prov).ok()
    }

    /// the value of type `t` at `off` in constant memory
    fn mem(&mut self, aid: interpret::AllocId, off: u64, t: Ty<'tcx>, o: &mut Vec<(&'static str, J)>, depth: u32) {
        let tcx = self.tcx;
        if depth > 8 {
            o.push(("k", s("deep")));
            return;
        }
        let lay = match tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(t)) {
            Ok(l) => l,
            Err(_) => {
                o.push(("k", s("nolayout")));
                return;
            }
        };
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(sc) = self.scalar_at(aid, off, lay.size.bytes(), false) {
                    self.const_value(ConstValue::Scalar(sc), t, o);
                } else {
                    o.push(("k", s("uninit")));
                }
            }
            ty::Ref(_, inner, _) => {
                let psz = tcx.data_layout.pointer_size().bytes();
                let sc = self.scalar_at(aid, off, psz, true);
                let p = match sc {
                    Some(interpret::Scalar::Ptr(p, _)) => p,
                    _ => {
                        o.push(("k", s("ptr")));
                        return;
                    }
                };
                let (prov, poff) = p.prov_and_relative_offset();
                let naid = prov.alloc_id();
                match inner.kind() {
                    ty::Str | ty::Slice(_) => {
                        let len = match self.scalar_at(aid, off + psz, psz, false).and_then(|x| x.try_to_scalar_int().ok()) {
                            Some(i) => i.to_uint(i.size()) as u64,
                            None => {
                                o.push(("k", s("ptr")));
                                return;
                            }
                        };
                        self.slice_mem(naid, poff.bytes(), len, *inner, o, depth);
                    }
                    _ => {
                        if !matches!(tcx.try_get_global_alloc(naid), Some(interpret::GlobalAlloc::Memory(_))) {
                            o.push(("k", s("ptr")));
                            return;
                        }
                        let mut inn = vec![("ty", self.ty(*inner))];
                        self.mem(naid, poff.bytes(), *inner, &mut inn, depth + 1);
                        o.push(("k", s("ref")));
                        o.push(("to", obj(inn)));
                    }
                }
            }
            ty::Array(et, n) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(0);
                self.slice_mem(aid, off, n, Ty::new_slice(tcx, *et), o, depth);
            }
            ty::Tuple(ts) => {
                let mut fs = vec![];
                for (i, ft) in ts.iter().enumerate() {
                    let mut fo = vec![("ty", self.ty(ft))];
                    self.mem(aid, off + lay.fields.offset(i).bytes(), ft, &mut fo, depth + 1);
                    fs.push(obj(fo));
                }
                o.push(("k", s("agg")));
                o.push(("fields", arr(fs)));
            }
            ty::Adt(def, args) if def.is_struct() => {
                let mut fs = vec![];
                for (i, f) in def.non_enum_variant().fields.iter().enumerate() {
                    let ft = f.ty(tcx, args).skip_norm_wip();
                    let ft = tcx.try_normalize_erasing_regions(TypingEnv::fully_monomorphized(), Unnormalized::new_wip(ft)).unwrap_or(ft);
                    let mut fo = vec![("ty", self.ty(ft))];
                    self.mem(aid, off + lay.fields.offset(i).bytes(), ft, &mut fo, depth + 1);
                    fs.push(obj(fo));
                }
                o.push(("k", s("agg")));
                o.push(("fields", arr(fs)));
            }
            ty::Adt(def, _) if def.is_enum() => {
                let v = ConstValue::Indirect { alloc_id: aid, offset: rustc_abi::Size::from_bytes(off) };
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    o.push(("k", s("agg")));
                    if let Some(vi) = d.variant {
                        o.push(("variant", int(vi.as_usize() as i128)));
                    }
                    let mut fs = vec![];
                    for (fv, ft) in d.fields.iter() {
                        let mut fo: Vec<(&'static str, J)> = vec![("ty", self.ty(*ft))];
                        self.const_value(*fv, *ft, &mut fo);
                        fs.push(obj(fo));
                    }
                    o.push(("fields", arr(fs)));
                } else {
                    o.push(("k", s("indirect")));
                }
            }
            _ => o.push(("k", s("indirect"))),
        }
    }

    fn slice_mem(&mut self, aid: interpret::AllocId, off: u64, len: u64, t: Ty<'tcx>, o: &mut Vec<(&'static str, J)>, depth: u32) {
        let tcx = self.tcx;
        let m = match tcx.try_get_global_alloc(aid) {
            Some(interpret::GlobalAlloc::Memory(m)) => m,
            _ => {
                o.push(("k", s("ptr")));
                return;
            }
        };
        match t.kind() {
            ty::Str => {
                let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize);
                o.push(("k", s("str")));
                o.push(("v", s(&String::from_utf8_lossy(b))));
            }
            ty::Slice(et) if matches!(et.kind(), ty::Uint(ty::UintTy::U8)) => {
                let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize);
                o.push(("k", s("bytes")));
                o.push(("v", arr(b.iter().map(|x| int(*x as i128)).collect())));
            }
            ty::Slice(et) => {
                let esz = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(*et)).map(|l| l.size.bytes()).unwrap_or(0);
                let mut fs = vec![];
                for i in 0..len.min(4096) {
                    let mut fo = vec![("ty", self.ty(*et))];
                    self.mem(aid, off + i * esz, *et, &mut fo, depth + 1);
                    fs.push(obj(fo));
                }
                o.push(("k", s("arr")));
                o.push(("items", arr(fs)));
            }
            _ => o.push(("k", s("ptr"))),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, owner: &str) -> J {
        match r {
            Rvalue::Use(o, _) => arr(vec![s("use"), self.operand(o, owner)]),
            Rvalue::Repeat(o, n) => arr(vec![s("repeat"), self.operand(o, owner), n.try_to_target_usize(self.tcx).map(|x| int(x as i128)).unwrap_or(J::Null)]),
            Rvalue::Ref(_, k, p) => {
                let kind = match k {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    _ => "mut",
                };
                arr(vec![s("ref"), s(kind), self.place(p)])
            }
            Rvalue::Reborrow(_, m, p) => arr(vec![s("ref"), s(if m.is_mut() { "mut" } else { "shared" }), self.place(p)]),
            Rvalue::RawPtr(k, p) => arr(vec![s("ref"), s(if matches!(k, RawPtrKind::Mut) { "mut" } else { "shared" }), self.place(p)]),
            Rvalue::Cast(k, o, t) => arr(vec![s("cast"), s(&format!("{:?}", k)), self.operand(o, owner), self.ty(*t)]),
            Rvalue::BinaryOp(b, ops) => arr(vec![s("bin"), s(&format!("{:?}", b)), self.operand(&ops.0, owner), self.operand(&ops.1, owner)]),
            Rvalue::UnaryOp(u, o) => arr(vec![s("un"), s(&format!("{:?}", u)), self.operand(o, owner)]),
            Rvalue::Discriminant(p) => {
                arr(vec![s("discr"), self.place(p)])
            }
            Rvalue::CopyForDeref(p) => arr(vec![s("use"), arr(vec![s("copy"), self.place(p)])]),
            Rvalue::Aggregate(k, ops) => {
                let fs: Vec<J> = ops.iter().map(|o| self.operand(o, owner)).collect();
                match &**k {
                    AggregateKind::Tuple => arr(vec![s("agg"), s("tuple"), J::Null, J::Null, arr(fs)]),
                    AggregateKind::Array(_) => arr(vec![s("agg"), s("array"), J::Null, J::Null, arr(fs)]),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let p = path(self.tcx, *d);
                        let _ = active;
                        arr(vec![s("agg"), s("adt"), s(&p), int(v.as_usize() as i128), arr(fs)])
                    }
                    AggregateKind::Closure(d, args) => {
                        let i = self.enqueue(*d, args);
                        arr(vec![s("agg"), s("closure"), i, s(&path(self.tcx, *d)), arr(fs)])
                    }
                    _ => arr(vec![s("unknown"), s(&format!("{:?}", k))]),
                }
            }
            _ => arr(vec![s("unknown"), s(&format!("{:?}", r))]),
        }
    }

    fn body(&mut self, b: &Body<'tcx>, owner: &str) -> J {
        let mut locals = vec![];
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        for (l, d) in b.local_decls.iter_enumerated() {
            let mut o = vec![("ty", self.ty(d.ty))];
            if let Some(n) = names.get(&l.as_usize()) {
                o.push(("name", s(n)));
            }
            locals.push(obj(o));
        }
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rvalue(&a.1, owner);
                        st.push(arr(vec![s("="), p, r, self.span(x.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(arr(vec![s("setd"), self.place(place), int(variant_index.as_usize() as i128)]));
                    }
                    _ => {}
                }
            }
            let tm = bb.terminator();
            let sp = self.span(tm.source_info.span);
            let t = match &tm.kind {
                TerminatorKind::Goto { target, .. } => arr(vec![s("goto"), int(target.as_usize() as i128)]),
                TerminatorKind::FalseEdge { real_target, .. } => arr(vec![s("goto"), int(real_target.as_usize() as i128)]),
                TerminatorKind::FalseUnwind { real_target, .. } => arr(vec![s("goto"), int(real_target.as_usize() as i128)]),
                TerminatorKind::Drop { target, .. } => arr(vec![s("goto"), int(target.as_usize() as i128)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr, owner);
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let ts: Vec<J> = targets.iter().map(|(v, t)| arr(vec![int(v as i128), int(t.as_usize() as i128)])).collect();
                    arr(vec![s("switch"), d, arr(ts), int(targets.otherwise().as_usize() as i128), self.ty(dt)])
                }
                TerminatorKind::Return => arr(vec![s("return")]),
                TerminatorKind::Unreachable => arr(vec![s("unreachable")]),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, owner);
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node, owner)).collect();
                    let dst = self.place(destination);
                    arr(vec![s("call"), f, arr(a), dst, target.map(|t| int(t.as_usize() as i128)).unwrap_or(J::Null)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, owner);
                    let m = format!("{:?}", msg).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
                    arr(vec![s("assert"), c, J::Bool(*expected), s(&m), int(target.as_usize() as i128)])
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => arr(vec![s("unwind")]),
                other => arr(vec![s("other"), s(&format!("{:?}", other))]),
            };
            blocks.push(obj(vec![("s", arr(st)), ("t", t), ("sp", sp), ("cl", J::Bool(bb.is_cleanup))]));
        }
        obj(vec![("argc", int(b.arg_count as i128)), ("locals", arr(locals)), ("blocks", arr(blocks)), ("span", self.span(b.span))])
    }

    fn run_queue(&mut self, out: &mut Vec<(String, J)>) {
        while let Some(k) = self.queue.pop_front() {
            let name = self.seen[&k].clone();
            let tcx = self.tcx;
            let (raw, proms): (Body<'tcx>, Vec<Body<'tcx>>) = if let Some(l) = k.def.as_local() {
                self.bodies[&l].clone()
            } else {
                let b = tcx.instance_mir(InstanceKind::Item(k.def)).clone();
                let p = tcx.promoted_mir(k.def).iter().cloned().collect();
                (b, p)
            };
            let generic = k.identity && k.args.has_param();
            let (body, proms) = if generic {
                self.env = TypingEnv::post_analysis(tcx, k.def);
                self.env_mono = false;
                (raw, proms)
            } else {
                self.env = TypingEnv::fully_monomorphized();
                self.env_mono = true;
                let f = |b: Body<'tcx>| tcx.instantiate_and_normalize_erasing_regions(k.args, TypingEnv::fully_monomorphized(), EarlyBinder::bind(tcx, b));
                (f(raw), proms.into_iter().map(f).collect())
            };
            let mut o = vec![];
            o.push(("path", s(&path(tcx, k.def))));
            o.push(("name", s(&self.name_of(k.def, k.args))));
            o.push(("krate", s(tcx.crate_name(k.def.krate).as_str())));
            o.push(("local", J::Bool(k.def.is_local())));
            o.push(("generic", J::Bool(generic)));
            o.push(("closure", J::Bool(tcx.is_closure_like(k.def))));
            // enclosing function of closures
            let mut base = k.def;
            while tcx.is_closure_like(base) {
                base = tcx.parent(base);
            }
            o.push(("parent", s(&path(tcx, base))));
            o.push(("derived", J::Bool(self.is_derived(base))));
            if let Some(im) = tcx.opt_parent(base) {
                if let DefKind::Impl { of_trait } = tcx.def_kind(im) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    o.push(("self_ty", s(&ty_str(st))));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(im).skip_binder();
                        o.push(("trait", s(&path(tcx, tr.def_id))));
                        let ta: Vec<J> = tr.args.types().map(|t| s(&ty_str(t))).collect();
                        o.push(("trait_args", arr(ta)));
                    }
                }
            }
            if matches!(tcx.def_kind(k.def), DefKind::Fn | DefKind::AssocFn) {
                o.push(("vis", s(&format!("{:?}", tcx.visibility(k.def)))));
                let sig = tcx.fn_sig(k.def).skip_binder().skip_binder();
                let ins: Vec<J> = sig.inputs().iter().map(|t| s(&ty_str(*t))).collect();
                o.push(("inputs", arr(ins)));
                o.push(("output", s(&ty_str(sig.output()))));
            }
            o.push(("body", self.body(&body, &name)));
            let ps: Vec<J> = proms.iter().map(|p| self.body(p, &name)).collect();
            o.push(("promoted", arr(ps)));
            out.push((name, obj(o)));
        }
    }
}

fn dump(tcx: TyCtxt<'_>, outdir: &str) {
    let krate = tcx.crate_name(LOCAL_CRATE).to_string();
    let kind = format!("{:?}", tcx.crate_types().first());
    let want = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    if !want.split(',').any(|x| x == krate) {
        return;
    }
    let test = tcx.sess.opts.test;
    if test {
        return;
    }
    let kind = if kind.contains("Executable") { "bin" } else { "lib" };
    let mut bodies = HashMap::new();
    let keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
    for d in keys.iter() {
        let dk = tcx.def_kind(d.to_def_id());
        if !matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Static { .. }) {
            continue;
        }
        if tcx.is_constructor(d.to_def_id()) {
            continue;
        }
        let (b, p) = tcx.mir_promoted(*d);
        if b.is_stolen() {
            bodies.insert(*d, (tcx.mir_for_ctfe(*d).clone(), tcx.promoted_mir(d.to_def_id()).iter().cloned().collect()));
            continue;
        }
        let body = b.borrow().clone();
        let ps: Vec<Body<'_>> = p.borrow().iter().cloned().collect();
        bodies.insert(*d, (body, ps));
    }
    let mut d = D {
        tcx,
        bodies,
        types: vec![],
        tymap: HashMap::new(),
        queue: VecDeque::new(),
        seen: HashMap::new(),
        env: TypingEnv::fully_monomorphized(),
        env_mono: true,
    };
    let mut fns = vec![];
    let mut statics = vec![];
    let mut unsafe_items = vec![];
    for k in keys.iter() {
        let id = k.to_def_id();
        let dk = tcx.def_kind(id);
        if let DefKind::Static { .. } = dk {
            statics.push(obj(vec![("path", s(&path(tcx, id))), ("mutable", J::Bool(tcx.is_mutable_static(id))), ("ty", s(&ty_str(tcx.type_of(id).instantiate_identity().skip_norm_wip())))]));
        }
        if !d.bodies.contains_key(k) {
            continue;
        }
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(id).skip_binder();
            if sig.safety().is_unsafe() {
                unsafe_items.push(s(&path(tcx, id)));
            }
        }
        if tcx.is_closure_like(id) {
            continue;
        }
        let args = ty::GenericArgs::identity_for_item(tcx, id);
        let mono = !args.has_param();
        let args = if mono { tcx.erase_and_anonymize_regions(args) } else { args };
        let key = Key { def: id, args, identity: !mono };
        if !d.seen.contains_key(&key) {
            let mut name = path_args(tcx, id, args);
            if !mono {
                name = format!("{} [generic]", name);
            }
            if d.seen.values().any(|v| *v == name) {
                name = format!("{}#{}", name, d.seen.len());
            }
            d.seen.insert(key, name);
            d.queue.push_back(key);
        }
        d.run_queue(&mut fns);
    }
    d.run_queue(&mut fns);
    // consts and their values (for bounds such as MAX_DESCRIPTION_LENGTH) are inlined where used
    let mut aut = HashSet::new();
    aut.insert(0);
    let types = std::mem::take(&mut d.types);
    let root = obj(vec![
        ("crate", s(&krate)),
        ("kind", s(kind)),
        ("features", s(&std::env::var("MIRDUMP_FEATURES").unwrap_or_default())),
        ("fns", J::Obj(fns)),
        ("types", arr(types)),
        ("statics", arr(statics)),
        ("unsafe_fns", arr(unsafe_items)),
    ]);
    let mut text = String::new();
    root.write(&mut text);
    let p = format!("{}/{}.{}.json", outdir, krate, kind);
    std::fs::write(&p, text).expect("write dump");
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as the first argument
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_else(|_| ".".into());
    rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Cb { out }))
}
