//! rustc driver: dumps monomorphised MIR reachable from the harness crate's `#[no_mangle]` roots.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_data_structures;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{AllocId, AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv, VtblEntry};
use rustc_span::DUMMY_SP;
use std::collections::HashMap;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    write!(o, "\\u{:04x}", u).unwrap();
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default, Clone)]
struct Model {
    needs: Vec<(String, usize)>,
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_out: Vec<String>,
    insts: HashMap<Instance<'tcx>, usize>,
    queue: Vec<(usize, Instance<'tcx>)>,
    inst_out: Vec<String>,
    vtables: HashMap<(Ty<'tcx>, Ty<'tcx>), usize>,
    vt_out: Vec<String>,
    exact: HashMap<String, Model>,
    prefix: Vec<(String, Model)>,
    stop_crates: Vec<String>,
    statics: HashMap<AllocId, usize>,
    static_out: Vec<String>,
    impls: HashMap<(usize, String), String>,
}

fn path<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> String {
    let p = with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d))));
    p
}
fn tystr<'tcx>(t: Ty<'tcx>) -> String {
    with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(t.to_string())))
}

impl<'tcx> Cx<'tcx> {
    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new(t)).unwrap_or(t)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.norm(self.tcx.erase_and_anonymize_regions(t));
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let i = self.type_out.len();
        self.types.insert(t, i);
        self.type_out.push(String::new());
        let tcx = self.tcx;
        let s = js(&tystr(t));
        let r = match t.kind() {
            ty::Bool => format!("{{\"k\":\"bool\",\"s\":{s}}}"),
            ty::Char => format!("{{\"k\":\"char\",\"s\":{s}}}"),
            ty::Int(x) => format!("{{\"k\":\"int\",\"w\":{},\"sg\":1,\"s\":{s}}}", x.bit_width().unwrap_or(64)),
            ty::Uint(x) => format!("{{\"k\":\"int\",\"w\":{},\"sg\":0,\"s\":{s}}}", x.bit_width().unwrap_or(64)),
            ty::Float(x) => format!("{{\"k\":\"float\",\"w\":{},\"s\":{s}}}", x.bit_width()),
            ty::Str => format!("{{\"k\":\"str\",\"s\":{s}}}"),
            ty::Never => format!("{{\"k\":\"never\",\"s\":{s}}}"),
            ty::Slice(e) => {
                let e = self.ty(*e);
                format!("{{\"k\":\"slice\",\"of\":{e},\"s\":{s}}}")
            }
            ty::Array(e, n) => {
                let e = self.ty(*e);
                let n = n.try_to_target_usize(tcx).map(|x| x as i64).unwrap_or(-1);
                format!("{{\"k\":\"array\",\"of\":{e},\"n\":{n},\"s\":{s}}}")
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(*e);
                format!("{{\"k\":\"ref\",\"to\":{e},\"m\":{},\"s\":{s}}}", m.is_mut() as u8)
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(*e);
                format!("{{\"k\":\"ptr\",\"to\":{e},\"m\":{},\"s\":{s}}}", m.is_mut() as u8)
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"e\":[{}],\"s\":{s}}}", v.join(","))
            }
            ty::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{s}}}"),
            ty::FnPtr(..) => format!("{{\"k\":\"fnptr\",\"s\":{s}}}"),
            ty::FnDef(..) => format!("{{\"k\":\"fndef\",\"s\":{s}}}"),
            ty::Closure(d, a) => {
                let inst = Instance::new_raw(*d, a);
                let id = self.inst(inst);
                let kind = a.as_closure().kind();
                format!("{{\"k\":\"closure\",\"s\":{s},\"i\":{id},\"ck\":\"{:?}\"}}", kind)
            }
            ty::Coroutine(d, a) => {
                let mut vf = String::new();
                if let Ok(l) = tcx.coroutine_layout(*d, a) {
                    for (_, f) in l.variant_fields.iter_enumerated() {
                        if !vf.is_empty() { vf.push(','); }
                        let v: Vec<String> = f.iter().map(|x| x.as_usize().to_string()).collect();
                        write!(vf, "[{}]", v.join(",")).unwrap();
                    }
                }
                let id = self.inst(Instance::new_raw(*d, a));
                format!("{{\"k\":\"coroutine\",\"s\":{s},\"vf\":[{vf}],\"i\":{id}}}")
            }
            ty::Adt(def, args) => {
                let name = js(&path(tcx, def.did()));
                let mut vs = String::new();
                let simple = def.is_struct() || def.is_enum();
                if simple {
                    let discrs: Vec<(rustc_abi::VariantIdx, i128)> = if def.is_enum() {
                        def.discriminants(tcx).map(|(i, d)| {
                            let (sz, sg) = match d.ty.kind() { ty::Int(x) => (x.bit_width().unwrap_or(64), true), ty::Uint(x) => (x.bit_width().unwrap_or(64), false), _ => (64, false) };
                            let v = if sg { let sh = 128 - sz; ((d.val as i128) << sh) >> sh } else { d.val as i128 };
                            (i, v)
                        }).collect()
                    } else { vec![(rustc_abi::VariantIdx::from_usize(0), 0)] };
                    for (i, v) in def.variants().iter_enumerated() {
                        if !vs.is_empty() { vs.push(','); }
                        let dv = discrs.iter().find(|x| x.0 == i).map(|x| x.1).unwrap_or(0);
                        let fs: Vec<String> = v.fields.iter().map(|f| js(f.name.as_str())).collect();
                        write!(vs, "[{},{},[{}]]", js(v.name.as_str()), dv, fs.join(",")).unwrap();
                    }
                }
                let ga: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
                format!("{{\"k\":\"adt\",\"n\":{name},\"u\":{},\"vs\":[{vs}],\"ga\":[{}],\"s\":{s}}}", if def.is_union() { 2 } else if def.is_enum() { 1 } else { 0 }, ga.join(","))
            }
            _ => format!("{{\"k\":\"other\",\"s\":{s}}}"),
        };
        self.type_out[i] = r;
        i
    }
    fn find_model(&self, name: &str) -> Option<Model> {
        if let Some(m) = self.exact.get(name) { return Some(m.clone()); }
        for (p, m) in &self.prefix {
            if name.starts_with(p.as_str()) { return Some(m.clone()); }
        }
        None
    }
    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(x) = self.insts.get(&i) { return *x; }
        let id = self.inst_out.len();
        self.insts.insert(i, id);
        self.inst_out.push(String::new());
        self.queue.push((id, i));
        id
    }
    fn resolve_trait(&mut self, trait_method: (&str, &str), t: Ty<'tcx>, extra: &[Ty<'tcx>]) -> Option<usize> {
        let tcx = self.tcx;
        let tr = self.find_trait(trait_method.0)?;
        let m = tcx.associated_items(tr).in_definition_order().find(|x| x.is_fn() && x.name().as_str() == trait_method.1)?.def_id;
        let mut a: Vec<ty::GenericArg<'tcx>> = vec![t.into()];
        a.extend(extra.iter().map(|x| ty::GenericArg::from(*x)));
        let gens = tcx.generics_of(m);
        if gens.count() != a.len() {
            // pad lifetimes
            let args = ty::GenericArgs::for_item(tcx, m, |p, _| match p.kind {
                ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                _ => { if a.is_empty() { t.into() } else { a.remove(0) } }
            });
            a = args.iter().collect();
        }
        let args = tcx.mk_args(&a);
        // check the trait predicate holds
        let trait_args = tcx.mk_args(&a[..tcx.generics_of(tr).count().min(a.len())]);
        let tref = ty::TraitRef::new_from_args(tcx, tr, trait_args);
        if tcx.codegen_select_candidate(self.env.as_query_input(tref)).is_err() { return None; }
        let r = Instance::try_resolve(tcx, self.env, m, args).ok().flatten()?;
        Some(self.inst(r))
    }
    fn find_trait(&self, name: &str) -> Option<DefId> {
        let tcx = self.tcx;
        for t in tcx.all_traits_including_private() {
            if path(tcx, t) == name { return Some(t); }
        }
        None
    }
    fn need(&mut self, what: &str, t: Ty<'tcx>) {
        let t = self.norm(t);
        let tid = self.ty(t);
        if self.impls.contains_key(&(tid, what.to_string())) { return; }
        self.impls.insert((tid, what.to_string()), "null".into());
        let tcx = self.tcx;
        let r: Option<String> = match what {
            "iter" => {
                // IntoIterator::into_iter + Iterator::next of IntoIter
                let into = self.resolve_trait(("core::iter::traits::collect::IntoIterator", "into_iter"), t, &[]);
                let tr = self.find_trait("core::iter::traits::collect::IntoIterator");
                let mut out = None;
                if let (Some(into), Some(tr)) = (into, tr) {
                    let assoc = tcx.associated_items(tr).in_definition_order().find(|x| x.name().as_str() == "IntoIter").unwrap().def_id;
                    let it = self.norm(Ty::new_projection(tcx, ty::IsRigid::No, assoc, [ty::GenericArg::from(t)]));
                    let next = self.resolve_trait(("core::iter::traits::iterator::Iterator", "next"), it, &[]);
                    let back = self.resolve_trait(("core::iter::traits::double_ended::DoubleEndedIterator", "next_back"), it, &[]);
                    out = Some(format!("[{},{},{}]", into, next.map(|x| x.to_string()).unwrap_or("null".into()), back.map(|x| x.to_string()).unwrap_or("null".into())));
                }
                out
            }
            "next" => self.resolve_trait(("core::iter::traits::iterator::Iterator", "next"), t, &[]).map(|x| x.to_string()),
            "next_back" => self.resolve_trait(("core::iter::traits::double_ended::DoubleEndedIterator", "next_back"), t, &[]).map(|x| x.to_string()),
            "eq" => self.resolve_trait(("core::cmp::PartialEq", "eq"), t, &[t]).map(|x| x.to_string()),
            "cmp" => self.resolve_trait(("core::cmp::Ord", "cmp"), t, &[]).map(|x| x.to_string()),
            "partial_cmp" => self.resolve_trait(("core::cmp::PartialOrd", "partial_cmp"), t, &[t]).map(|x| x.to_string()),
            "display" => self.resolve_trait(("core::fmt::Display", "fmt"), t, &[]).map(|x| x.to_string()),
            "debug" => self.resolve_trait(("core::fmt::Debug", "fmt"), t, &[]).map(|x| x.to_string()),
            "clone" => self.resolve_trait(("core::clone::Clone", "clone"), t, &[]).map(|x| x.to_string()),
            "default" => self.resolve_trait(("core::default::Default", "default"), t, &[]).map(|x| x.to_string()),
            "from_str" => self.resolve_trait(("core::str::traits::FromStr", "from_str"), t, &[]).map(|x| x.to_string()),
            "hash" => {
                // Hash::hash::<DefaultHasher>
                None
            }
            "poll" => {
                let into = self.resolve_trait(("core::future::into_future::IntoFuture", "into_future"), t, &[]);
                let p = self.resolve_trait(("core::future::future::Future", "poll"), t, &[]);
                match (into, p) { (_, Some(p)) => Some(format!("{}", p)), _ => None }
            }
            "poll_next" => self.resolve_trait(("futures_core::stream::Stream", "poll_next"), t, &[]).map(|x| x.to_string()),
            "poll_read" => self.resolve_trait(("futures_io::if_std::AsyncRead", "poll_read"), t, &[]).map(|x| x.to_string()),
            "read" => self.resolve_trait(("std::io::Read", "read"), t, &[]).map(|x| x.to_string()),
            "write" => self.resolve_trait(("core::io::write::Write", "write"), t, &[]).map(|x| x.to_string()),
            "asref_path" => { let p = self.ty_by_name("std::path::Path"); p.and_then(|p| self.resolve_trait(("core::convert::AsRef", "as_ref"), t, &[p])).map(|x| x.to_string()) }
            "asref_osstr" => { let p = self.ty_by_name("std::ffi::os_str::OsStr"); p.and_then(|p| self.resolve_trait(("core::convert::AsRef", "as_ref"), t, &[p])).map(|x| x.to_string()) }
            "asref_str" => { let p = tcx.types.str_; self.resolve_trait(("core::convert::AsRef", "as_ref"), t, &[p]).map(|x| x.to_string()) }
            "asref_u8" => { let p = Ty::new_slice(tcx, tcx.types.u8); self.resolve_trait(("core::convert::AsRef", "as_ref"), t, &[p]).map(|x| x.to_string()) }
            "elem_clone" => None,
            _ => None,
        };
        if let Some(r) = r {
            self.impls.insert((tid, what.to_string()), r);
        }
    }
    fn ty_by_name(&self, name: &str) -> Option<Ty<'tcx>> {
        for (t, _) in &self.types {
            if let ty::Adt(d, _) = t.kind() {
                if path(self.tcx, d.did()) == name { return Some(*t); }
            }
        }
        None
    }

    fn konst_bytes(&self, id: AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(m) => {
                let a = m.inner();
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize).to_vec())
            }
            _ => None,
        }
    }
    fn static_ref(&mut self, d: DefId) -> String {
        // by def id
        let tcx = self.tcx;
        let id = tcx.reserve_and_set_static_alloc(d);
        if let Some(i) = self.statics.get(&id) { return format!("[\"static\",{}]", i); }
        let i = self.static_out.len();
        self.statics.insert(id, i);
        self.static_out.push(String::new());
        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let tid = self.ty(t);
        let v = if tcx.is_foreign_item(d) || tcx.is_thread_local_static(d) { "[\"opaque\"]".to_string() } else {
            match tcx.eval_static_initializer(d) {
                Ok(a) => {
                    let aid = tcx.reserve_and_set_memory_alloc(a);
                    self.val(ConstValue::Indirect { alloc_id: aid, offset: rustc_abi::Size::ZERO }, t, 0)
                }
                Err(_) => "[\"opaque\"]".to_string(),
            }
        };
        self.static_out[i] = format!("{{\"n\":{},\"t\":{},\"v\":{}}}", js(&path(tcx, d)), tid, v);
        format!("[\"static\",{}]", i)
    }
    fn pointer_val(&mut self, id: AllocId, off: u64, meta: Option<u64>, pointee: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        match tcx.global_alloc(id) {
            GlobalAlloc::Function { instance } => { let i = self.inst(instance); format!("[\"fn\",{i}]") }
            GlobalAlloc::Static(d) => { if off != 0 { return "[\"opaque\"]".into(); } self.static_ref(d) }
            GlobalAlloc::Memory(_) => {
                match pointee.kind() {
                    ty::Str => {
                        let b = self.konst_bytes(id, off, meta.unwrap_or(0)).unwrap();
                        format!("[\"str\",\"{}\"]", b.iter().map(|x| format!("{:02x}", x)).collect::<String>())
                    }
                    ty::Slice(e) => {
                        let n = meta.unwrap_or(0);
                        if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) {
                            let b = self.konst_bytes(id, off, n).unwrap();
                            return format!("[\"bytes\",\"{}\"]", b.iter().map(|x| format!("{:02x}", x)).collect::<String>());
                        }
                        let sz = tcx.layout_of(self.env.as_query_input(*e)).map(|l| l.size.bytes()).unwrap_or(0);
                        let mut v = vec![];
                        for k in 0..n {
                            v.push(self.val(ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::from_bytes(off + k * sz) }, *e, depth + 1));
                        }
                        format!("[\"slice\",[{}]]", v.join(","))
                    }
                    ty::Dynamic(..) => "[\"opaque\"]".into(),
                    _ => {
                        let v = self.val(ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::from_bytes(off) }, pointee, depth + 1);
                        format!("[\"ref\",{}]", v)
                    }
                }
            }
            _ => "[\"opaque\"]".into(),
        }
    }
    fn val(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let t = self.norm(t);
        let tcx = self.tcx;
        if depth > 12 { return "[\"opaque\"]".into(); }
        match t.kind() {
            ty::FnDef(d, a) => {
                let a = a.no_bound_vars().unwrap();
                return self.fndef(*d, a);
            }
            ty::Closure(_, a) => {
                let id = self.ty(t);
                let mut ups = Vec::new();
                for u in a.as_closure().upvar_tys() {
                    let z = matches!(tcx.layout_of(self.env.as_query_input(u)), Ok(l) if l.size.bytes() == 0);
                    ups.push(if z { self.val(ConstValue::ZeroSized, u, depth + 1) } else { "[\"opaque\"]".to_string() });
                }
                return format!("[\"clos\",{id},[{}]]", ups.join(","));
            }
            ty::Coroutine(..) => return "[\"opaque\"]".into(),
            ty::Pat(b, _) => return self.val(v, *b, depth + 1),
            _ => {}
        }
        let size = match tcx.layout_of(self.env.as_query_input(t)) { Ok(l) => l.size.bytes(), Err(_) => return "[\"opaque\"]".into() };
        let scalar: Option<Scalar> = match v {
            ConstValue::Scalar(s) => Some(s),
            ConstValue::Indirect { alloc_id, offset } if (t.is_primitive() || ((t.is_ref() || t.is_raw_ptr() || t.is_fn_ptr()) && size == 8)) => match tcx.global_alloc(alloc_id) {
                GlobalAlloc::Memory(m) => m.inner().read_scalar(&tcx, AllocRange { start: offset, size: rustc_abi::Size::from_bytes(size) }, t.is_any_ptr()).ok(),
                _ => None,
            },
            _ => None,
        };
        match t.kind() {
            ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Char | ty::Float(_) => {
                if let Some(Scalar::Int(i)) = scalar {
                    let bits = i.to_bits(i.size());
                    let r: i128 = if let ty::Int(_) = t.kind() { let sh = 128 - i.size().bits(); ((bits as i128) << sh) >> sh } else { bits as i128 };
                    return if t.is_bool() { (if r != 0 { "true" } else { "false" }).to_string() } else if t.is_floating_point() { format!("[\"float\",{},{}]", r, i.size().bits()) } else { r.to_string() };
                }
                "[\"opaque\"]".into()
            }
            ty::Ref(_, p, _) | ty::RawPtr(p, _) => {
                let p = self.norm(*p);
                match v {
                    ConstValue::Slice { alloc_id, meta } => self.pointer_val(alloc_id, 0, Some(meta), p, depth),
                    _ => match scalar {
                        Some(Scalar::Ptr(ptr, _)) => {
                            let (prov, off) = ptr.into_raw_parts();
                            self.pointer_val(prov.alloc_id(), off.bytes(), None, p, depth)
                        }
                        Some(Scalar::Int(i)) => format!("[\"addr\",{}]", i.to_bits(i.size())),
                        None => {
                            // wide pointer in memory
                            if let ConstValue::Indirect { alloc_id, offset } = v {
                                if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                                    let a = m.inner();
                                    let s8 = rustc_abi::Size::from_bytes(8);
                                    let p0 = a.read_scalar(&tcx, AllocRange { start: offset, size: s8 }, true);
                                    let p1 = a.read_scalar(&tcx, AllocRange { start: offset + s8, size: s8 }, false);
                                    if let (Ok(Scalar::Ptr(ptr, _)), Ok(Scalar::Int(n))) = (&p0, &p1) {
                                        let (prov, off) = ptr.into_raw_parts();
                                        return self.pointer_val(prov.alloc_id(), off.bytes(), Some(n.to_bits(n.size()) as u64), p, depth);
                                    }
                                    if let (Ok(Scalar::Int(_)), Ok(Scalar::Int(n))) = (&p0, &p1) {
                                        if n.to_bits(n.size()) == 0 { return if p.is_str() { "[\"str\",\"\"]".into() } else { "[\"slice\",[]]".into() }; }
                                    }
                                }
                            }
                            "[\"opaque\"]".into()
                        }
                    },
                }
            }
            ty::FnPtr(..) => match scalar {
                Some(Scalar::Ptr(ptr, _)) => { let (prov, _) = ptr.into_raw_parts(); self.pointer_val(prov.alloc_id(), 0, None, tcx.types.unit, depth) }
                _ => "[\"opaque\"]".into(),
            },
            ty::Adt(d, _) if d.is_union() => "[\"opaque\"]".into(),
            ty::Array(e, n) if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(0);
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let Some(b) = self.konst_bytes(alloc_id, offset.bytes(), n) {
                        return format!("[\"u8arr\",\"{}\"]", b.iter().map(|x| format!("{:02x}", x)).collect::<String>());
                    }
                }
                self.destr(v, t, depth)
            }
            ty::Tuple(_) | ty::Array(..) | ty::Adt(..) => self.destr(v, t, depth),
            _ => "[\"opaque\"]".into(),
        }
    }
    fn destr(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        match self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
            Some(d) => {
                let mut out = vec![];
                for (fv, ft) in d.fields { out.push(self.val(*fv, *ft, depth + 1)); }
                let tid = self.ty(t);
                format!("[\"agg\",{},{},[{}]]", d.variant.map(|x| x.as_usize()).unwrap_or(0), tid, out.join(","))
            }
            None => "[\"opaque\"]".into(),
        }
    }
    fn fndef(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        if let Some(tr) = tcx.trait_of_assoc(d) {
            if tcx.is_fn_trait(tr) { return "[\"callval\"]".into(); }
        }
        match tcx.def_kind(d) {
            DefKind::Ctor(of, _) => {
                let (adt, variant) = match of {
                    rustc_hir::def::CtorOf::Struct => (tcx.parent(d), 0usize),
                    rustc_hir::def::CtorOf::Variant => { let v = tcx.parent(d); let e = tcx.parent(v); (e, tcx.adt_def(e).variant_index_with_id(v).as_usize()) }
                };
                let _ = adt;
                return format!("[\"ctor\",{}]", variant);
            }
            _ => {}
        }
        match Instance::try_resolve(tcx, self.env, d, a) {
            Ok(Some(i)) => { let i = self.inst(i); format!("[\"fn\",{i}]") }
            _ => format!("[\"unresolved\",{}]", js(&path(tcx, d))),
        }
    }
    fn place(&mut self, p: Place<'tcx>, body: &Body<'tcx>) -> String {
        let mut o = format!("[{}", p.local.as_usize());
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => o.push_str(",\"*\""),
                ProjectionElem::Field(f, _) => {
                    let bt = self.norm(pt.ty);
                    // coroutine saved locals
                    if let ty::Coroutine(d, a) = bt.kind() {
                        if let Some(v) = pt.variant_index {
                            let l = self.tcx.coroutine_layout(*d, a).unwrap();
                            let s = l.variant_fields[v][f];
                            write!(o, ",[\"cs\",{}]", s.as_usize()).unwrap();
                        } else { write!(o, ",[\"cu\",{}]", f.as_usize()).unwrap(); }
                    } else { write!(o, ",{}", f.as_usize()).unwrap(); }
                }
                ProjectionElem::Index(l) => write!(o, ",[\"i\",{}]", l.as_usize()).unwrap(),
                ProjectionElem::ConstantIndex { offset, min_length: _, from_end } => write!(o, ",[\"c\",{},{}]", offset, from_end as u8).unwrap(),
                ProjectionElem::Subslice { from, to, from_end } => write!(o, ",[\"s\",{},{},{}]", from, to, from_end as u8).unwrap(),
                ProjectionElem::Downcast(_, v) => {
                    let bt = self.norm(pt.ty);
                    if !matches!(bt.kind(), ty::Coroutine(..)) { write!(o, ",[\"v\",{}]", v.as_usize()).unwrap(); }
                }
                _ => {}
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        o.push(']');
        o
    }
    fn pty(&mut self, p: Place<'tcx>, body: &Body<'tcx>) -> Ty<'tcx> {
        let t = p.ty(&body.local_decls, self.tcx).ty;
        self.norm(t)
    }
    fn oty(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>) -> Ty<'tcx> {
        let t = o.ty(&body.local_decls, self.tcx);
        self.norm(t)
    }
    fn is_scalar(&self, t: Ty<'tcx>) -> bool {
        t.is_primitive() || t.is_any_ptr() || t.is_fn() || t.is_unit()
    }
    fn operand(&mut self, op: &Operand<'tcx>, body: &Body<'tcx>) -> String {
        match op {
            Operand::Copy(p) => {
                let t = self.pty(*p, body);
                let s = self.is_scalar(t);
                let p = self.place(*p, body);
                format!("[\"{}\",{}]", if s { "m" } else { "c" }, p)
            }
            Operand::Move(p) => { let p = self.place(*p, body); format!("[\"m\",{}]", p) }
            Operand::Constant(c) => {
                let t = self.norm(c.const_.ty());
                let tid = self.ty(t);
                let v = match t.kind() {
                    ty::FnDef(d, a) => { let a = a.no_bound_vars().unwrap(); self.fndef(*d, a) }
                    _ => match c.const_.eval(self.tcx, self.env, DUMMY_SP) {
                        Ok(v) => {
                            // statics: pointer to static
                            self.val(v, t, 0)
                        }
                        Err(_) => "[\"opaque\"]".into(),
                    },
                };
                format!("[\"k\",{},{}]", v, tid)
            }
            Operand::RuntimeChecks(c) => format!("[\"k\",{},0]", if matches!(c, RuntimeChecks::OverflowChecks) { "true" } else { "false" }),
        }
    }
    fn unsize_peel(&mut self, a: Ty<'tcx>, b: Ty<'tcx>) -> Option<(Ty<'tcx>, Ty<'tcx>)> {
        let a = self.norm(a);
        let b = self.norm(b);
        match (a.kind(), b.kind()) {
            (ty::Ref(_, x, _) | ty::RawPtr(x, _), ty::Ref(_, y, _) | ty::RawPtr(y, _)) => Some(self.tcx.struct_lockstep_tails_for_codegen(*x, *y, self.env)),
            (ty::Adt(d1, a1), ty::Adt(d2, a2)) if d1 == d2 => {
                for (x, y) in a1.types().zip(a2.types()) {
                    if x != y {
                        let y = self.norm(y);
                        if matches!(y.kind(), ty::Dynamic(..) | ty::Slice(..) | ty::Str) {
                            return Some((self.norm(x), y));
                        }
                        if let Some(r) = self.unsize_peel(x, y) { return Some(r); }
                        return Some(self.tcx.struct_lockstep_tails_for_codegen(x, y, self.env));
                    }
                }
                None
            }
            _ => None,
        }
    }
    fn vtable(&mut self, conc: Ty<'tcx>, dynt: Ty<'tcx>) -> usize {
        if let Some(i) = self.vtables.get(&(conc, dynt)) { return *i; }
        let id = self.vt_out.len();
        self.vtables.insert((conc, dynt), id);
        self.vt_out.push(String::new());
        let mut out = vec![];
        if let ty::Dynamic(preds, _) = dynt.kind() {
            if let Some(p) = preds.principal() {
                let p = self.tcx.instantiate_bound_regions_with_erased(p);
                let tref = p.with_self_ty(self.tcx, conc);
                let tref = self.tcx.erase_and_anonymize_regions(tref);
                if !self.tcx.is_fn_trait(tref.def_id) {
                    for e in self.tcx.vtable_entries(tref) {
                        out.push(match e { VtblEntry::Method(i) => self.inst(*i).to_string(), _ => "null".into() });
                    }
                }
            }
        }
        let c = self.ty(conc);
        let d = self.ty(dynt);
        self.vt_out[id] = format!("{{\"c\":{},\"d\":{},\"m\":[{}]}}", c, d, out.join(","));
        id
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => self.operand(o, body),
            Rvalue::CopyForDeref(p) => { let p = self.place(*p, body); format!("[\"m\",{}]", p) }
            Rvalue::Repeat(o, n) => { let o = self.operand(o, body); let n = n.try_to_target_usize(self.tcx).unwrap_or(0); format!("[\"rep\",{},{}]", o, n) }
            Rvalue::Ref(_, k, p) => { let t = self.pty(*p, body); let tid = self.ty(t); let p = self.place(*p, body); format!("[\"ref\",{},{},{}]", p, matches!(k, BorrowKind::Mut { .. }) as u8, tid) }
            Rvalue::RawPtr(_, p) => { let t = self.pty(*p, body); let tid = self.ty(t); let p = self.place(*p, body); format!("[\"ref\",{},2,{}]", p, tid) }
            Rvalue::Reborrow(_, _, p) => { let p = self.place(*p, body); format!("[\"m\",{}]", p) }
            Rvalue::ThreadLocalRef(d) => { let s = self.static_ref(*d); format!("[\"k\",{},0]", s) }
            Rvalue::Cast(k, o, t) => {
                let from = self.oty(o, body);
                let t = self.norm(*t);
                let (f, tt) = (self.ty(from), self.ty(t));
                let os = self.operand(o, body);
                match k {
                    CastKind::PointerCoercion(ty::adjustment::PointerCoercion::Unsize, _) => {
                        match self.unsize_peel(from, t) {
                            Some((a, b)) => match b.kind() {
                                ty::Dynamic(..) => {
                                    if matches!(a.kind(), ty::Dynamic(..)) { format!("[\"cast\",\"upcast\",{os},{f},{tt}]") }
                                    else { let v = self.vtable(a, b); format!("[\"cast\",\"dyn\",{os},{f},{tt},{v}]") }
                                }
                                _ => format!("[\"cast\",\"unslice\",{os},{f},{tt}]"),
                            },
                            None if f == tt => format!("[\"cast\",\"noop\",{os},{f},{tt}]"),
                            None => format!("[\"cast\",\"unsize?\",{os},{f},{tt}]"),
                        }
                    }
                    CastKind::PointerCoercion(_, _) => format!("[\"cast\",\"noop\",{os},{f},{tt}]"),
                    CastKind::IntToInt => format!("[\"cast\",\"int\",{os},{f},{tt}]"),
                    CastKind::Transmute => format!("[\"cast\",\"transmute\",{os},{f},{tt}]"),
                    CastKind::BoxDerefTransmute => format!("[\"cast\",\"boxderef\",{os},{f},{tt}]"),
                    CastKind::PtrToPtr | CastKind::FnPtrToPtr | CastKind::Subtype => format!("[\"cast\",\"noop\",{os},{f},{tt}]"),
                    _ => format!("[\"cast\",{},{os},{f},{tt}]", js(&format!("{:?}", k))),
                }
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = self.oty(&ab.0, body);
                let tid = self.ty(t);
                let (a, b) = (self.operand(&ab.0, body), self.operand(&ab.1, body));
                format!("[\"bin\",\"{:?}\",{},{},{}]", op, a, b, tid)
            }
            Rvalue::UnaryOp(op, a) => { let t = self.oty(a, body); let tid = self.ty(t); let a = self.operand(a, body); format!("[\"un\",\"{:?}\",{},{}]", op, a, tid) }
            Rvalue::Discriminant(p) => { let t = self.pty(*p, body); let tid = self.ty(t); let p = self.place(*p, body); format!("[\"disc\",{},{}]", p, tid) }
            Rvalue::Aggregate(k, fs) => {
                let v: Vec<String> = fs.iter().map(|o| self.operand(o, body)).collect();
                let v = v.join(",");
                match &**k {
                    AggregateKind::Array(_) => format!("[\"arr\",[{v}]]"),
                    AggregateKind::Tuple => format!("[\"agg\",0,-1,[{v}]]"),
                    AggregateKind::Adt(d, vi, a, _, fld) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, a).skip_norm_wip();
                        let tid = self.ty(t);
                        if fld.is_some() { return format!("[\"union\",[{v}]]"); }
                        format!("[\"agg\",{},{},[{v}]]", vi.as_usize(), tid)
                    }
                    AggregateKind::Closure(d, a) => { let t = Ty::new_closure(self.tcx, *d, a); let tid = self.ty(t); format!("[\"closure\",{tid},[{v}]]") }
                    AggregateKind::Coroutine(d, a) => { let t = Ty::new_coroutine(self.tcx, *d, a); let tid = self.ty(t); format!("[\"corou\",{tid},[{v}]]") }
                    AggregateKind::RawPtr(..) => format!("[\"rawptr\",[{v}]]"),
                    _ => "[\"unsup\"]".into(),
                }
            }
            _ => "[\"unsup\"]".into(),
        }
    }
    fn body(&mut self, inst: Instance<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        let b0 = tcx.instance_mir(inst.def);
        let body: Body<'tcx> = inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, b0.clone())).map_err(|e| { if std::env::var("VH_DEBUG").is_ok() { eprintln!("normalise {:?}: {:?}", inst, e) } }).ok()?;
        let body = &body;
        let mut o = String::new();
        let ltys: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        write!(o, "\"na\":{},\"spread\":{},\"lt\":[{}],\"bb\":[", body.arg_count, body.spread_arg.map(|x| x.as_usize() as i64).unwrap_or(-1), ltys.join(",")).unwrap();
        for (bi, bb) in body.basic_blocks.iter().enumerate() {
            if bi > 0 { o.push(','); }
            if bb.is_cleanup { o.push_str("null"); continue; }
            o.push_str("[[");
            let mut first = true;
            for s in &bb.statements {
                let r = match &s.kind {
                    StatementKind::Assign(pr) => {
                        let p = self.place(pr.0, body);
                        let r = self.rvalue(&pr.1, body);
                        format!("[\"=\",{},{}]", p, r)
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(**place, body);
                        let t = self.pty(**place, body);
                        format!("[\"sd\",{},{},{}]", p, variant_index.as_usize(), matches!(t.kind(), ty::Coroutine(..)) as u8)
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => { let o = self.operand(o, body); format!("[\"assume\",{}]", o) }
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let (a, b, n) = (self.operand(&c.src, body), self.operand(&c.dst, body), self.operand(&c.count, body));
                            format!("[\"cno\",{},{},{}]", a, b, n)
                        }
                    },
                    StatementKind::StorageDead(_) | StatementKind::StorageLive(_) => continue,
                    _ => continue,
                };
                if !first { o.push(','); }
                first = false;
                o.push_str(&r);
            }
            o.push_str("],");
            let sp = bb.terminator().source_info.span;
            let t = match &bb.terminator().kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = self.pty(*place, body);
                    let tid = self.ty(t);
                    let dg = self.drop_needed(t);
                    let p = self.place(*place, body);
                    format!("[\"drop\",{},{},{},{}]", p, tid, target.as_usize(), dg)
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = self.oty(discr, body);
                    let tid = self.ty(t);
                    let d = self.operand(discr, body);
                    let sg = if let ty::Int(x) = t.kind() { Some(x.bit_width().unwrap_or(64)) } else { None };
                    let v: Vec<String> = targets.iter().map(|(v, b)| {
                        let v: i128 = match sg { Some(w) => { let sh = 128 - w; ((v as i128) << sh) >> sh } None => v as i128 };
                        format!("[{},{}]", v, b.as_usize()) }).collect();
                    format!("[\"switch\",{},{},[{}],{}]", d, tid, v.join(","), targets.otherwise().as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, body);
                    let a: Vec<String> = args.iter().map(|a| self.operand(&a.node, body)).collect();
                    let d = self.place(*destination, body);
                    let loc = self.loc(sp);
                    format!("[\"call\",{},[{}],{},{},{}]", f, a.join(","), d, target.map(|t| t.as_usize() as i64).unwrap_or(-1), js(&loc))
                }
                TerminatorKind::TailCall { func, args, .. } => {
                    let f = self.operand(func, body);
                    let a: Vec<String> = args.iter().map(|a| self.operand(&a.node, body)).collect();
                    format!("[\"tail\",{},[{}]]", f, a.join(","))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, body);
                    let m = format!("{:?}", msg);
                    let loc = self.loc(sp);
                    format!("[\"assert\",{},{},{},{},{}]", c, *expected as u8, js(&m.chars().take(60).collect::<String>()), target.as_usize(), js(&loc))
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                x => format!("[\"unsup\",{}]", js(&format!("{:?}", x).chars().take(60).collect::<String>())),
            };
            o.push_str(&t);
            o.push(']');
        }
        o.push(']');
        Some(o)
    }
    fn drop_needed(&mut self, t: Ty<'tcx>) -> String {
        // Explicit user Drop impls in workspace crates only.
        let tcx = self.tcx;
        if matches!(t.kind(), ty::Adt(..) | ty::Tuple(..)) {
            let s = format!("{t:?}");
            if s.contains("MutexGuard") || s.starts_with("pin_project_lite::__private::UnsafeOverwriteGuard") || s.contains("tempfile::") || s.contains("SpanGuard") {
                let i = Instance::resolve_drop_glue(tcx, t);
                return self.inst(i).to_string();
            }
        }
        if let ty::Adt(d, args) = t.kind() {
            if let Some(dd) = d.destructor(tcx) {
                let c = tcx.crate_name(d.did().krate).to_string();
                if c.starts_with("oro") || c == "nassun" || c == "node_maintainer" || c == "base64" || c.starts_with("vh") {
                    let i = Instance::new_raw(dd.did, args);
                    return self.inst(i).to_string();
                }
            }
        }
        "-1".into()
    }
    fn loc(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
    }
    fn process(&mut self, id: usize, inst: Instance<'tcx>) {
        let tcx = self.tcx;
        let d = inst.def_id();
        let name = path(tcx, d);
        let krate = tcx.crate_name(d.krate).to_string();
        let ga: Vec<String> = inst.args.types().map(|t| self.ty(t).to_string()).collect();
        let head = |kind: &str| format!("\"n\":{},\"c\":{},\"k\":\"{}\",\"ga\":[{}]", js(&name), js(&krate), kind, ga.join(","));
        let r = match inst.def {
            InstanceKind::Virtual(_, i) => format!("{{{},\"vi\":{}}}", head("virtual"), i),
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => {
                let n = tcx.item_name(d).to_string();
                if n == "type_name" || n == "type_id" {}
                format!("{{{}}}", head("intrinsic"))
            }
            InstanceKind::Shim(ShimKind::DropGlue(..)) => format!("{{{}}}", head("dropglue")),
            InstanceKind::Shim(ShimKind::Clone(_, t)) => { let tid = self.ty(t); self.clone_needs(t); format!("{{{},\"t\":{}}}", head("cloneshim"), tid) },
            InstanceKind::Shim(_) => {
                match self.body(inst) { Some(b) => format!("{{{},{}}}", head("body"), b), None => format!("{{{}}}", head("none")) }
            }
            InstanceKind::Item(_) => {
                let is_closure = tcx.is_closure_like(d);
                let model = if is_closure { None } else { self.find_model(&name) };
                if let Some(m) = model {
                    for (w, i) in m.needs {
                        if let Some(t) = inst.args.types().nth(i) { self.need(&w, t); }
                    }
                    format!("{{{}}}", head("model"))
                } else if self.stop_crates.contains(&krate) {
                    format!("{{{}}}", head("stop"))
                } else if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
                    format!("{{{}}}", head("none"))
                } else if tcx.is_mir_available(d) {
                    match self.body(inst) { Some(b) => { let l = self.loc(tcx.def_span(d)); format!("{{{},\"l\":{},\"cl\":{},{}}}", head("body"), js(&l), is_closure as u8, b) }, None => format!("{{{}}}", head("none")) }
                } else {
                    format!("{{{}}}", head("none"))
                }
            }
        };
        self.inst_out[id] = r;
    }
    fn clone_needs(&mut self, _t: Ty<'tcx>) {}
    fn run(&mut self, roots: Vec<Instance<'tcx>>, out: &str) {
        let mut rs = vec![];
        for r in roots {
            let n = self.tcx.item_name(r.def_id()).to_string();
            let i = self.inst(r);
            rs.push(format!("{}:{}", js(&n), i));
        }
        let mut n = 0;
        while let Some((id, inst)) = self.queue.pop() {
            n += 1;
            if n > 120000 { eprintln!("too many instances"); break; }
            self.process(id, inst);
        }
        let mut s = String::new();
        s.push_str("{\"roots\":{");
        s.push_str(&rs.join(","));
        s.push_str("},\n\"types\":[\n");
        s.push_str(&self.type_out.join(",\n"));
        s.push_str("],\n\"vt\":[\n");
        s.push_str(&self.vt_out.join(",\n"));
        s.push_str("],\n\"statics\":[\n");
        s.push_str(&self.static_out.join(",\n"));
        s.push_str("],\n\"impls\":[\n");
        let v: Vec<String> = self.impls.iter().map(|((t, w), r)| format!("[{},{},{}]", t, js(w), r)).collect();
        s.push_str(&v.join(",\n"));
        s.push_str("],\n\"fns\":[\n");
        s.push_str(&self.inst_out.iter().map(|x| if x.is_empty() { "null" } else { x.as_str() }).collect::<Vec<_>>().join(",\n"));
        s.push_str("]}\n");
        std::fs::write(out, s).unwrap();
    }
}

struct Cb { dump: bool }
impl Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::interface::Config) {
        c.opts.unstable_opts.always_encode_mir = true;
        c.opts.unstable_opts.mir_opt_level = Some(0);
        c.opts.unstable_opts.inline_mir = Some(false);
        // overflow checks stay on, like the dev profile; alignment/null UB checks are not encoded
        c.opts.unstable_opts.ub_checks = Some(false);
        c.opts.cg.overflow_checks = Some(true);
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if !self.dump { return Compilation::Continue; }
        let out = std::env::var("ORO_OUT").unwrap();
        let sel = std::env::var("ORO_ROOTS").unwrap_or_default();
        let mut roots = vec![];
        for d in tcx.hir_crate_items(()).definitions() {
            let did = d.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Fn) { continue; }
            let n = tcx.item_name(did).to_string();
            let pre = if sel.is_empty() { n.starts_with("h_") } else { sel.split(',').any(|s| n.starts_with(s)) };
            if pre && tcx.generics_of(did).count() == 0 { roots.push(Instance::mono(tcx, did)); }
        }
        let mut exact = HashMap::new();
        let mut prefix = vec![];
        let mut stop_crates = vec![];
        for l in std::fs::read_to_string(std::env::var("ORO_MODELS").unwrap()).unwrap().lines() {
            let mut it = l.split('\t');
            let n = it.next().unwrap_or("").to_string();
            if n.is_empty() { continue; }
            if let Some(c) = n.strip_prefix("crate:") { stop_crates.push(c.to_string()); continue; }
            let mut m = Model::default();
            for x in it.next().unwrap_or("").split(',') {
                if let Some((w, i)) = x.split_once(':') { m.needs.push((w.to_string(), i.parse().unwrap())); }
            }
            if let Some(p) = n.strip_suffix('*') { prefix.push((p.to_string(), m)); } else { exact.insert(n, m); }
        }
        prefix.sort_by_key(|p: &(String, Model)| std::cmp::Reverse(p.0.len()));
        let mut cx = Cx { tcx, env: TypingEnv::fully_monomorphized(), types: HashMap::new(), type_out: vec![], insts: HashMap::new(), queue: vec![], inst_out: vec![], vtables: HashMap::new(), vt_out: vec![], exact, prefix, stop_crates, statics: HashMap::new(), static_out: vec![], impls: HashMap::new() };
        cx.run(roots, &out);
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if !args.iter().any(|a| a == "--sysroot") {
        args.push("--sysroot".into());
        args.push(std::env::var("ORO_SYSROOT").unwrap());
    }
    let cn = args.iter().position(|a| a == "--crate-name").map(|i| args[i + 1].clone()).unwrap_or_default();
    let dump = cn == "vh";
    let mut cb = Cb { dump };
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
