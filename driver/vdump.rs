// rustc driver that dumps the type-checked program (monomorphic MIR, types,
// constants, impls, layouts) of a crate as JSON.  Used as RUSTC_WORKSPACE_WRAPPER.
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_json: Vec<String>,
    insts: HashMap<Instance<'tcx>, String>,
    used_keys: HashMap<String, u32>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>)>,
    out_fns: Vec<String>,
    seen_generic: HashSet<DefId>,
}

// external functions whose MIR is dumped (so the analysis inlines the real code)
const EXT_OK: &[&str] = &[
    "core::option::", "core::result::", "core::ops::", "core::convert::", "core::cmp::",
    "core::mem::replace", "core::mem::swap", "core::mem::take", "arrayref::", "num_traits::", "core::num::", "core::iter::", "core::slice::iter", "core::slice::", "core::array::",
    "core::cell::", "core::clone::", "core::default::", "core::bool::", "core::tuple::", "core::hint::must_use",
    "core::ptr::swap", "without_alloc::", "alloc_traits::", "either::", "itertools::", "alloc::vec::", "alloc::slice::", "alloc::borrow::",
    "solana_program::", "bytemuck::", "safe_transmute::", "enumflags2::", "serum_pool_schema::", "serum_dex::", "serum_common::", "anchor_lang::", "spl_token::",
];

impl<'tcx> D<'tcx> {
    fn path(&self, id: DefId) -> String {
        let p = with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(id)));
        if id.is_local() {
            format!("{}::{}", self.tcx.crate_name(LOCAL_CRATE), p)
        } else {
            p
        }
    }
    fn path_args(&self, id: DefId, args: GenericArgsRef<'tcx>) -> String {
        let p = with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str_with_args(id, args)));
        if id.is_local() {
            format!("{}::{}", self.tcx.crate_name(LOCAL_CRATE), p)
        } else {
            p
        }
    }
    fn span(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }
    fn ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let i = self.type_json.len();
        self.types.insert(t, i);
        self.type_json.push(String::new());
        let mut o = String::from("{");
        let s = with_no_visible_paths!(with_no_trimmed_paths!(t.to_string()));
        let _ = write!(o, "\"s\":{}", esc(&s));
        match *t.kind() {
            ty::Bool => o.push_str(",\"k\":\"bool\""),
            ty::Char => o.push_str(",\"k\":\"char\""),
            ty::Int(x) => {
                let _ = write!(o, ",\"k\":\"int\",\"bits\":{}", x.bit_width().unwrap_or(64));
            }
            ty::Uint(x) => {
                let _ = write!(o, ",\"k\":\"uint\",\"bits\":{}", x.bit_width().unwrap_or(64));
            }
            ty::Float(_) => o.push_str(",\"k\":\"float\""),
            ty::Str => o.push_str(",\"k\":\"str\""),
            ty::Never => o.push_str(",\"k\":\"never\""),
            ty::Array(e, n) => {
                let e = self.ty(e, env);
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                let _ = write!(o, ",\"k\":\"array\",\"e\":{},\"n\":{}", e, n);
            }
            ty::Slice(e) => {
                let e = self.ty(e, env);
                let _ = write!(o, ",\"k\":\"slice\",\"e\":{}", e);
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(e, env);
                let _ = write!(o, ",\"k\":\"ptr\",\"e\":{},\"mut\":{}", e, m.is_mut());
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(e, env);
                let _ = write!(o, ",\"k\":\"ref\",\"e\":{},\"mut\":{}", e, m.is_mut());
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x, env).to_string()).collect();
                let _ = write!(o, ",\"k\":\"tuple\",\"f\":[{}]", v.join(","));
            }
            ty::FnDef(..) => {
                o.push_str(",\"k\":\"fndef\"");
            }
            ty::FnPtr(..) => o.push_str(",\"k\":\"fnptr\""),
            ty::Dynamic(..) => o.push_str(",\"k\":\"dyn\""),
            ty::Closure(id, args) => {
                let ups: Vec<String> =
                    args.as_closure().upvar_tys().iter().map(|x| self.ty(x, env).to_string()).collect();
                let _ = write!(o, ",\"k\":\"closure\",\"path\":{},\"f\":[{}]", esc(&self.path(id.into())), ups.join(","));
            }
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                let targs: Vec<String> = args.types().map(|x| self.ty(x, env).to_string()).collect();
                let k = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let _ = write!(o, ",\"k\":\"{}\",\"path\":{},\"args\":[{}],\"local\":{}", k, esc(&p), targs.join(","), def.did().is_local());
                let deep = def.did().is_local()
                    || p.starts_with("core::option")
                    || p.starts_with("core::result")
                    || p.starts_with("core::ops")
                    || p.starts_with("solana_program::account_info")
                    || p.starts_with("solana_program::instruction")
                    || p.starts_with("solana_program::program_error")
                    || p.starts_with("spl_token::state")
                    || p.starts_with("serum_")
                    || p.starts_with("solana_program::pubkey");
                let repr = def.repr();
                let _ = write!(o, ",\"repr\":{{\"c\":{},\"packed\":{},\"transparent\":{},\"int\":{}}}", repr.c(), repr.packed(), repr.transparent(), repr.int.is_some());
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() { def.discriminant_for_variant(self.tcx, vi).val.to_string() } else { "0".into() };
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = if deep {
                            let fty = self.tcx.normalize_erasing_regions(env, f.ty(self.tcx, args));
                            self.ty(fty, env).to_string()
                        } else {
                            "null".into()
                        };
                        let vis = if f.vis.is_public() { 1 } else { 0 };
                        fs.push(format!("[{},{},{}]", esc(f.name.as_str()), ft, vis));
                    }
                    vs.push(format!("{{\"n\":{},\"d\":\"{}\",\"f\":[{}]}}", esc(v.name.as_str()), discr, fs.join(",")));
                }
                let _ = write!(o, ",\"v\":[{}]", vs.join(","));
            }
            ty::Param(p) => {
                let _ = write!(o, ",\"k\":\"param\",\"n\":{}", esc(p.name.as_str()));
            }
            _ => o.push_str(",\"k\":\"other\""),
        }
        // layout
        if !t.has_param() && !t.has_escaping_bound_vars() && !matches!(t.kind(), ty::Never) {
            if let Ok(l) = self.tcx.layout_of(env.as_query_input(t)) {
                if !l.is_unsized() {
                    let _ = write!(o, ",\"size\":{},\"align\":{}", l.size.bytes(), l.align.abi.bytes());
                    if let ty::Adt(def, _) = t.kind() {
                        if !def.is_enum() {
                            let n = l.fields.count();
                            let offs: Vec<String> = (0..n).map(|i| l.fields.offset(i).bytes().to_string()).collect();
                            let _ = write!(o, ",\"off\":[{}]", offs.join(","));
                        }
                    }
                }
            }
        }
        o.push('}');
        self.type_json[i] = o;
        i
    }

    fn inst_key(&mut self, inst: Instance<'tcx>) -> String {
        if let Some(k) = self.insts.get(&inst) {
            return k.clone();
        }
        let mut k = self.path_args(inst.def_id(), inst.args);
        match inst.def {
            ty::InstanceKind::Item(_) => {}
            ty::InstanceKind::Virtual(..) => k.push_str("#virtual"),
            ty::InstanceKind::Intrinsic(_) => k.push_str("#intrinsic"),
            _ => k.push_str("#shim"),
        }
        let n = self.used_keys.entry(k.clone()).or_insert(0);
        *n += 1;
        if *n > 1 {
            k = format!("{}#{}", k, n);
        }
        self.insts.insert(inst, k.clone());
        k
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let mut o = format!("[{}", p.local.as_usize());
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref | ProjectionElem::PhantomDeref => o.push_str(",\"*\""),
                ProjectionElem::Field(f, t) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(d, _) if !d.is_enum() || pt.variant_index.is_some() => {
                            let v = d.variant(pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT));
                            v.fields.get(f).map(|x| x.name.as_str().to_string()).unwrap_or_default()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let ti = self.ty(t, env);
                    let _ = write!(o, ",[\"f\",{},{},{}]", f.as_usize(), esc(&name), ti);
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, ",[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(o, ",[\"ci\",{},{},{}]", offset, min_length, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, ",[\"ss\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(n, v) => {
                    let _ = write!(o, ",[\"d\",{},{}]", v.as_usize(), esc(n.map(|x| x.as_str().to_string()).unwrap_or_default().as_str()));
                }
                _ => o.push_str(",[\"?\"]"),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        o.push(']');
        o
    }

    fn bytes_of(&self, aid: interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        if let GlobalAlloc::Memory(m) = self.tcx.global_alloc(aid) {
            let a = m.inner();
            let end = (off + len) as usize;
            if end <= a.len() {
                return Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..end).to_vec());
            }
        }
        None
    }

    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: u32) -> String {
        let tid = self.ty(t, env);
        if depth > 8 {
            return format!("{{\"t\":{}}}", tid);
        }
        // scalars
        match v {
            ConstValue::Scalar(Scalar::Int(i)) => {
                let size = i.size();
                if matches!(t.kind(), ty::Bool | ty::Char | ty::Uint(_) | ty::Float(_) | ty::RawPtr(..) | ty::Ref(..) | ty::FnPtr(..)) {
                    return format!("{{\"t\":{},\"i\":\"{}\"}}", tid, i.to_bits(size));
                }
                if matches!(t.kind(), ty::Int(_)) {
                    return format!("{{\"t\":{},\"i\":\"{}\"}}", tid, i.to_int(size));
                }
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                let aid = prov.alloc_id();
                match self.tcx.global_alloc(aid) {
                    GlobalAlloc::Function { instance } => {
                        let k = self.inst_key(instance);
                        let callee = self.callee_json(instance, env);
                        let _ = k;
                        return format!("{{\"t\":{},\"fnptr\":{}}}", tid, callee);
                    }
                    GlobalAlloc::Static(d) => {
                        let mut hex = String::new();
                        if d.is_local() {
                            if let Ok(al) = self.tcx.eval_static_initializer(d) {
                                let al = al.inner();
                                if al.provenance().ptrs().is_empty() && al.len() <= 256 {
                                    for b in al.inspect_with_uninit_and_ptr_outside_interpreter(0..al.len()) {
                                        hex.push_str(&format!("{:02x}", b));
                                    }
                                }
                            }
                        }
                        return format!("{{\"t\":{},\"static\":{},\"sbytes\":\"{}\"}}", tid, esc(&self.path(d)), hex);
                    }
                    GlobalAlloc::Memory(_) => {
                        if let Some(pt) = t.builtin_deref(true) {
                            if let Ok(l) = self.tcx.layout_of(env.as_query_input(pt)) {
                                if l.is_sized() {
                                    let inner = self.constval(ConstValue::Indirect { alloc_id: aid, offset: off }, pt, env, depth + 1);
                                    return format!("{{\"t\":{},\"ref\":{}}}", tid, inner);
                                }
                            }
                        }
                        return format!("{{\"t\":{}}}", tid);
                    }
                    _ => return format!("{{\"t\":{}}}", tid),
                }
            }
            ConstValue::ZeroSized => {
                if let ty::FnDef(id, args) = t.kind() {
                    let c = self.fn_callee((*id).into(), args.skip_binder(), env);
                    return format!("{{\"t\":{},\"fn\":{}}}", tid, c);
                }
                return format!("{{\"t\":{},\"zst\":1}}", tid);
            }
            ConstValue::Slice { alloc_id, meta } => {
                let el = match t.builtin_deref(true).map(|x| *x.kind()) {
                    Some(ty::Str) => Some((1u64, None)),
                    Some(ty::Slice(e)) => self.tcx.layout_of(env.as_query_input(e)).ok().map(|l| (l.size.bytes(), Some(e))),
                    _ => None,
                };
                if let Some((sz, e)) = el {
                    if let Some(b) = self.bytes_of(alloc_id, 0, sz * meta) {
                        if let Some(e) = e {
                            if !matches!(e.kind(), ty::Uint(ty::UintTy::U8)) && meta <= 64 {
                                let mut els = vec![];
                                for i in 0..meta {
                                    els.push(self.constval(ConstValue::Indirect { alloc_id, offset: rustc_abi::Size::from_bytes(i * sz) }, e, env, depth + 1));
                                }
                                return format!("{{\"t\":{},\"slice\":[{}]}}", tid, els.join(","));
                            }
                            let h: String = b.iter().map(|x| format!("{:02x}", x)).collect();
                            return format!("{{\"t\":{},\"bytes\":\"{}\"}}", tid, h);
                        }
                        return format!("{{\"t\":{},\"str\":{}}}", tid, esc(&String::from_utf8_lossy(&b)));
                    }
                }
                return format!("{{\"t\":{}}}", tid);
            }
            ConstValue::Indirect { alloc_id, offset } => {
                // thin scalars
                if let Ok(l) = self.tcx.layout_of(env.as_query_input(t)) {
                    let sz = l.size.bytes();
                    match t.kind() {
                        ty::Bool | ty::Char | ty::Uint(_) => {
                            if let Some(b) = self.bytes_of(alloc_id, offset.bytes(), sz) {
                                let mut x: u128 = 0;
                                for (i, by) in b.iter().enumerate() {
                                    x |= (*by as u128) << (8 * i);
                                }
                                return format!("{{\"t\":{},\"i\":\"{}\"}}", tid, x);
                            }
                        }
                        ty::Int(_) => {
                            if let Some(b) = self.bytes_of(alloc_id, offset.bytes(), sz) {
                                let mut x: u128 = 0;
                                for (i, by) in b.iter().enumerate() {
                                    x |= (*by as u128) << (8 * i);
                                }
                                let sh = 128 - 8 * sz as u32;
                                return format!("{{\"t\":{},\"i\":\"{}\"}}", tid, ((x << sh) as i128) >> sh);
                            }
                        }
                        ty::Array(e, n) => {
                            if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) {
                                if let Some(b) = self.bytes_of(alloc_id, offset.bytes(), sz) {
                                    let h: String = b.iter().map(|x| format!("{:02x}", x)).collect();
                                    return format!("{{\"t\":{},\"bytes\":\"{}\"}}", tid, h);
                                }
                            }
                            if let Some(n) = n.try_to_target_usize(self.tcx) {
                                if n <= 64 {
                                    if let Ok(el) = self.tcx.layout_of(env.as_query_input(*e)) {
                                        let mut els = vec![];
                                        for i in 0..n {
                                            els.push(self.constval(ConstValue::Indirect { alloc_id, offset: offset + rustc_abi::Size::from_bytes(i * el.size.bytes()) }, *e, env, depth + 1));
                                        }
                                        return format!("{{\"t\":{},\"arr\":[{}]}}", tid, els.join(","));
                                    }
                                }
                            }
                        }
                        ty::Ref(_, pt, _) | ty::RawPtr(pt, _) => {
                            if let GlobalAlloc::Memory(m) = self.tcx.global_alloc(alloc_id) {
                                if let Some(prov) = m.inner().provenance().ptrs().get(&offset) {
                                    let b = self.bytes_of(alloc_id, offset.bytes(), sz).unwrap_or_default();
                                    let rd = |o: usize| -> u64 {
                                        let mut x = 0u64;
                                        for i in 0..8 {
                                            x |= (b[o + i] as u64) << (8 * i);
                                        }
                                        x
                                    };
                                    let poff = rustc_abi::Size::from_bytes(rd(0));
                                    let aid = prov.alloc_id();
                                    if b.len() == 16 {
                                        return self.constval(ConstValue::Slice { alloc_id: aid, meta: rd(8) }, t, env, depth + 1);
                                    }
                                    let inner = self.constval(ConstValue::Indirect { alloc_id: aid, offset: poff }, *pt, env, depth + 1);
                                    return format!("{{\"t\":{},\"ref\":{}}}", tid, inner);
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        if matches!(t.kind(), ty::Adt(..) | ty::Tuple(..)) && !t.has_param() {
            if let ty::Adt(d, _) = t.kind() {
                if d.is_union() {
                    return format!("{{\"t\":{}}}", tid);
                }
            }
            if let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
                let fs: Vec<String> = d.fields.iter().map(|(v, t)| self.constval(*v, *t, env, depth + 1)).collect();
                return format!("{{\"t\":{},\"var\":{},\"fields\":[{}]}}", tid, d.variant.map(|x| x.as_usize()).unwrap_or(0), fs.join(","));
            }
        }
        format!("{{\"t\":{}}}", tid)
    }

    fn konst(&mut self, c: &Const<'tcx>, env: TypingEnv<'tcx>) -> String {
        let t = c.ty();
        let mut name = String::new();
        if let Const::Unevaluated(u, _) = c {
            if u.promoted.is_none() {
                name = self.path(u.def);
            }
        }
        let j = match c.eval(self.tcx, env, rustc_span::DUMMY_SP) {
            Ok(v) => self.constval(v, t, env, 0),
            Err(_) => {
                let tid = self.ty(t, env);
                format!("{{\"t\":{},\"uneval\":{}}}", tid, esc(&format!("{:?}", c)))
            }
        };
        if name.is_empty() {
            j
        } else {
            format!("{},\"name\":{}}}", &j[..j.len() - 1], esc(&name))
        }
    }

    fn operand(&mut self, op: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(p, body, env)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(p, body, env)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.konst(&c.const_, env)),
            Operand::RuntimeChecks(_) => "{\"rc\":1}".into(),
        }
    }

    fn callee_json(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> String {
        let id = inst.def_id();
        let key = self.inst_key(inst);
        let path = self.path(id);
        let kind = match inst.def {
            ty::InstanceKind::Item(_) => "item",
            ty::InstanceKind::Intrinsic(_) => "intrinsic",
            ty::InstanceKind::Virtual(..) => "virtual",
            ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "closure_once",
            ty::InstanceKind::Shim(ty::ShimKind::Clone(..)) => "clone",
            ty::InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => "fnptr",
            ty::InstanceKind::Shim(ty::ShimKind::DropGlue(..)) => "drop",
            _ => "shim",
        };
        let clos = self.tcx.is_closure_like(id);
        let targs: Vec<String> = inst.args.types().map(|x| self.ty(x, env).to_string()).collect();
        let mut extra = String::new();
        if let ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) = inst.def {
            // the actual closure instance
            if let Some(t) = inst.args.types().next() {
                if let ty::Closure(cid, cargs) = t.kind() {
                    let ci = Instance::new_raw((*cid).into(), cargs);
                    let ck = self.inst_key(ci);
                    self.queue.push_back((ci, env));
                    extra = format!(",\"closure\":{}", esc(&ck));
                }
            }
        }
        if let ty::InstanceKind::Shim(ty::ShimKind::FnPtr(_, t)) = inst.def {
            if let ty::FnDef(fid, fargs) = t.kind() {
                let tc = self.fn_callee((*fid).into(), fargs.skip_binder(), env);
                extra = format!(",\"target\":{}", tc);
            }
        }
        if let ty::InstanceKind::Item(_) = inst.def {
            self.queue.push_back((inst, env));
        }
        let local = id.is_local();
        format!("{{\"key\":{},\"path\":{},\"kind\":\"{}\",\"clos\":{},\"targs\":[{}],\"local\":{}{}}}", esc(&key), esc(&path), kind, clos, targs.join(","), local, extra)
    }

    fn provided_fold(&self, id: DefId, imp: DefId) -> bool {
        let t = self.path(id);
        if !matches!(t.as_str(), "core::iter::traits::iterator::Iterator::fold" | "core::iter::traits::iterator::Iterator::try_fold" | "core::iter::traits::iterator::Iterator::for_each") {
            return false;
        }
        let p = self.path(imp);
        ["<alloc::vec::into_iter::IntoIter<", "<core::array::iter::IntoIter<", "<core::slice::iter::", "<core::iter::adapters::chain::", "<core::iter::adapters::zip::", "<core::iter::adapters::skip::", "<core::iter::adapters::take::"].iter().any(|x| p.starts_with(x))
    }

    fn fn_callee(&mut self, id: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let args = self.tcx.erase_and_anonymize_regions(args);
        let orig = self.path(id);
        match Instance::try_resolve(self.tcx, env, id, args) {
            Ok(Some(inst)) => {
                // a library iterator's own fold is a faster version of the one the trait provides
                let inst = if inst.def_id() != id && self.provided_fold(id, inst.def_id()) { Instance::new_raw(id, args) } else { inst };
                let j = self.callee_json(inst, env);
                if inst.def_id() != id {
                    return format!("{},\"trait\":{}}}", &j[..j.len() - 1], esc(&orig));
                }
                j
            }
            _ => {
                let key = self.path_args(id, args);
                let targs: Vec<String> = args.types().map(|x| self.ty(x, env).to_string()).collect();
                format!("{{\"key\":{},\"path\":{},\"kind\":\"unresolved\",\"clos\":false,\"targs\":[{}],\"local\":{}}}", esc(&key), esc(&orig), targs.join(","), id.is_local())
            }
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, body, env)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(o, body, env), n)
            }
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", self.place(p, body, env), matches!(bk, BorrowKind::Mut { .. })),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},true]", self.place(p, body, env)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",{{\"c\":{}}}]", self.place(p, body, env)),
            Rvalue::Cast(k, o, t) => {
                let ks = match k {
                    CastKind::PointerCoercion(c, _) => format!("coerce:{:?}", c),
                    k => format!("{:?}", k),
                };
                // reified fn pointers carry the callee
                let from = o.ty(&body.local_decls, self.tcx);
                let mut ex = String::new();
                if let ty::FnDef(id, args) = from.kind() {
                    ex = format!(",{}", self.fn_callee((*id).into(), args.skip_binder(), env));
                }
                let fid = self.ty(from, env);
                let tid = self.ty(*t, env);
                format!("[\"cast\",{},{},{},{}{}]", esc(&ks), self.operand(o, body, env), tid, fid, ex)
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = self.ty(ab.0.ty(&body.local_decls, self.tcx), env);
                format!("[\"bin\",\"{:?}\",{},{},{}]", op, self.operand(&ab.0, body, env), self.operand(&ab.1, body, env), t)
            }
            Rvalue::UnaryOp(op, a) => {
                let t = self.ty(a.ty(&body.local_decls, self.tcx), env);
                format!("[\"un\",\"{:?}\",{},{}]", op, self.operand(a, body, env), t)
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let tid = self.ty(t, env);
                format!("[\"discr\",{},{}]", self.place(p, body, env), tid)
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o, body, env)).collect();
                let ks = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, args, _, af) => {
                        let ty = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let tid = self.ty(ty, env);
                        let vn = self.tcx.adt_def(*d).variant(*v).name;
                        format!("[\"adt\",{},{},{},{}]", tid, v.as_usize(), esc(vn.as_str()), af.map(|x| x.as_usize().to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, args) => {
                        let ci = Instance::new_raw(*d, self.tcx.erase_and_anonymize_regions(*args));
                        let ck = self.inst_key(ci);
                        self.queue.push_back((ci, env));
                        format!("[\"closure\",{}]", esc(&ck))
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", ks, os.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(p, body, env)),
            Rvalue::ThreadLocalRef(_) => "[\"other\"]".into(),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(o, body, env)),
        }
    }

    fn body(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>, generic: bool) {
        let tcx = self.tcx;
        let id = inst.def_id();
        let key = self.inst_key(inst);
        let raw = tcx.instance_mir(inst.def);
        let body: Body<'tcx> = if generic {
            raw.clone()
        } else {
            match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, raw.clone())) {
                Ok(b) => b,
                Err(_) => return,
            }
        };
        let body = &body;
        let mut o = String::new();
        let vis = if matches!(tcx.def_kind(id), DefKind::Fn | DefKind::AssocFn) { format!("{}", tcx.visibility(id).is_public()) } else { "false".into() };
        let _ = write!(o, "{{\"key\":{},\"path\":{},\"local\":{},\"generic\":{},\"clos\":{},\"pub\":{},\"span\":{},\"argc\":{}", esc(&key), esc(&self.path(id)), id.is_local(), generic, tcx.is_closure_like(id), vis, esc(&self.span(body.span)), body.arg_count);
        if let Some(tr) = tcx.trait_of_assoc(id) {
            let _ = write!(o, ",\"trait_default\":{}", esc(&self.path(tr)));
        }
        if let Some(im) = tcx.impl_of_assoc(id) {
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let _ = write!(o, ",\"impl_trait\":{}", esc(&self.path(tr.skip_binder().def_id)));
            }
        }
        if let Some(s) = body.spread_arg {
            let _ = write!(o, ",\"spread\":{}", s.as_usize());
        }
        let targs: Vec<String> = inst.args.types().map(|x| self.ty(x, env).to_string()).collect();
        let _ = write!(o, ",\"targs\":[{}]", targs.join(","));
        let ls: Vec<String> = body.local_decls.iter().map(|d| self.ty(d.ty, env).to_string()).collect();
        let _ = write!(o, ",\"locals\":[{}]", ls.join(","));
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local.as_usize(), esc(v.name.as_str())));
                } else {
                    names.push(format!("[{},{}]", self.place(&p, body, env), esc(v.name.as_str())));
                }
            }
        }
        let _ = write!(o, ",\"names\":[{}]", names.join(","));
        let mut bbs = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut b = String::from("{\"s\":[");
            let mut first = true;
            for st in &data.statements {
                let s = match &st.kind {
                    StatementKind::Assign(x) => {
                        let p = self.place(&x.0, body, env);
                        let r = self.rvalue(&x.1, body, env);
                        format!("[\"=\",{},{},{}]", p, r, esc(&self.span(st.source_info.span)))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => format!("[\"sd\",{},{}]", self.place(place, body, env), variant_index.as_usize()),
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_usize()),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => format!("[\"assume\",{}]", self.operand(o, body, env)),
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let (a, b2, c2) = (self.operand(&c.src, body, env), self.operand(&c.dst, body, env), self.operand(&c.count, body, env));
                            format!("[\"copy\",{},{},{},{}]", a, b2, c2, esc(&self.span(st.source_info.span)))
                        }
                    },
                    _ => continue,
                };
                if !first {
                    b.push(',');
                }
                first = false;
                b.push_str(&s);
            }
            b.push_str("],\"t\":");
            let t = data.terminator();
            let sp = esc(&self.span(t.source_info.span));
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = self.ty(discr.ty(&body.local_decls, tcx), env);
                    let vs: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())).collect();
                    format!("[\"switch\",{},[{}],{},{},{}]", self.operand(discr, body, env), vs.join(","), targets.otherwise().as_usize(), t, sp)
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"unwind\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}]", self.place(place, body, env), target.as_usize()),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(&body.local_decls, tcx);
                    let callee = match fty.kind() {
                        ty::FnDef(id, a) => self.fn_callee((*id).into(), a.skip_binder(), env),
                        _ => format!("{{\"kind\":\"indirect\",\"op\":{}}}", self.operand(func, body, env)),
                    };
                    let os: Vec<String> = args.iter().map(|o| self.operand(&o.node, body, env)).collect();
                    let tys: Vec<String> = args.iter().map(|o| { let t = o.node.ty(&body.local_decls, tcx); self.ty(t, env).to_string() }).collect();
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dti = self.ty(dt, env);
                    format!("[\"call\",{},[{}],{},{},{},{},[{}]]", callee, os.join(","), self.place(destination, body, env), target.map(|x| x.as_usize().to_string()).unwrap_or("null".into()), sp, dti, tys.join(","))
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let k = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) | AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) | AssertKind::RemainderByZero(..) => "div0",
                        _ => "other",
                    };
                    format!("[\"assert\",{},{},{},\"{}\",{}]", self.operand(cond, body, env), expected, target.as_usize(), k, sp)
                }
                _ => "[\"other\"]".into(),
            };
            b.push_str(&ts);
            if data.is_cleanup {
                b.push_str(",\"cl\":1");
            }
            b.push('}');
            bbs.push(b);
        }
        let _ = write!(o, ",\"bbs\":[{}]}}", bbs.join(","));
        self.out_fns.push(o);
    }

    /// argument lists for a generic fn with one type parameter that is bounded by a trait of this crate:
    /// one per local non-generic implementor
    fn local_instances(&self, did: DefId) -> Vec<ty::GenericArgsRef<'tcx>> {
        let tcx = self.tcx;
        let mut tys: Vec<ty::Ty<'tcx>> = vec![];
        let mut params = HashSet::new();
        for a in ty::GenericArgs::identity_for_item(tcx, did).iter() {
            match a.kind() {
                ty::GenericArgKind::Type(t) => {
                    params.insert(t);
                }
                ty::GenericArgKind::Const(_) => return vec![],
                _ => {}
            }
        }
        if params.len() != 1 {
            return vec![];
        }
        for c in tcx.param_env(did).caller_bounds() {
            if let Some(tp) = c.as_trait_clause() {
                let tr = tp.skip_binder().trait_ref;
                if !tr.def_id.is_local() || !params.contains(&tr.self_ty()) {
                    continue;
                }
                for im in tcx.all_impls(tr.def_id) {
                    let st = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip().self_ty();
                    let st = tcx.erase_and_anonymize_regions(st);
                    if !st.has_param() && !tys.contains(&st) {
                        tys.push(st);
                    }
                }
            }
        }
        tys.iter()
            .map(|t| {
                ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                    ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                    _ => (*t).into(),
                })
            })
            .collect()
    }

    fn run(&mut self, dir: &str) {
        let tcx = self.tcx;
        let mono = TypingEnv::fully_monomorphized();
        let mut roots = vec![];
        let mut items = vec![];
        for id in tcx.hir_body_owners() {
            let did = id.to_def_id();
            let kind = tcx.def_kind(did);
            match kind {
                DefKind::Fn | DefKind::AssocFn => {
                    let g = tcx.generics_of(did);
                    let requires = g.requires_monomorphization(tcx);
                    items.push(format!("{{\"path\":{},\"pub\":{},\"span\":{},\"generic\":{}}}", esc(&self.path(did)), tcx.visibility(did).is_public(), esc(&self.span(tcx.def_span(did))), requires));
                    if !requires {
                        let args = ty::GenericArgs::identity_for_item(tcx, did);
                        let args = tcx.erase_and_anonymize_regions(args);
                        roots.push((Instance::new_raw(did, args), mono));
                    } else {
                        self.seen_generic.insert(did);
                        for a in self.local_instances(did) {
                            roots.push((Instance::new_raw(did, a), mono));
                        }
                    }
                }
                _ => {}
            }
        }
        for r in roots {
            self.queue.push_back(r);
        }
        let mut done: HashSet<Instance<'tcx>> = HashSet::new();
        let mut generic_pending: Vec<DefId> = self.seen_generic.iter().copied().collect();
        generic_pending.sort_by_key(|d| self.path(*d));
        let mut covered: HashSet<DefId> = HashSet::new();
        loop {
            while let Some((inst, env)) = self.queue.pop_front() {
                if !done.insert(inst) {
                    continue;
                }
                let id = inst.def_id();
                if !matches!(inst.def, ty::InstanceKind::Item(_)) {
                    continue;
                }
                if !matches!(tcx.def_kind(id), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                    continue;
                }
                if tcx.is_coroutine(id) {
                    continue;
                }
                if inst.args.has_param() && env == mono {
                    continue;
                }
                if !id.is_local() {
                    let p = self.path(id);
                    let p2 = p.trim_start_matches('<').trim_start_matches('&').trim_start_matches("'a ");
                    let conv = p.contains(" as core::convert::") || p.contains(" as core::iter::") || p.contains(" as core::cmp::") || p.contains(" as core::ops::") || p.contains(" as core::clone::") || p.contains(" as core::default::");
                    if !conv && !EXT_OK.iter().any(|x| p2.starts_with(x)) {
                        continue;
                    }
                    if !tcx.is_mir_available(id) {
                        continue;
                    }
                }
                covered.insert(id);
                self.body(inst, env, false);
            }
            // generic local fns never instantiated: dump identity form
            let mut more = false;
            while let Some(d) = generic_pending.pop() {
                if covered.contains(&d) {
                    continue;
                }
                let args = tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, d));
                let env = TypingEnv::post_analysis(tcx, d);
                let inst = Instance::new_raw(d, args);
                if done.insert(inst) {
                    self.body(inst, env, true);
                    more = true;
                }
                break;
            }
            if !more && generic_pending.is_empty() && self.queue.is_empty() {
                break;
            }
        }
        // local ADTs, consts, impls
        let mut adts = vec![];
        let mut consts = vec![];
        let mut impls = vec![];
        let mut defs: Vec<DefId> = tcx.hir_crate_items(()).definitions().map(|d| d.to_def_id()).collect();
        defs.sort_by_key(|d| tcx.def_path_hash(*d));
        defs.dedup();
        for did in defs {
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let gen = tcx.generics_of(did).requires_monomorphization(tcx);
                    let env = if gen { TypingEnv::post_analysis(tcx, did) } else { mono };
                    let ti = self.ty(t, env);
                    adts.push(format!("{{\"path\":{},\"t\":{},\"span\":{}}}", esc(&self.path(did)), ti, esc(&self.span(tcx.def_span(did)))));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    if tcx.generics_of(did).requires_monomorphization(tcx) {
                        continue;
                    }
                    if tcx.trait_of_assoc(did).is_some() {
                        continue;
                    }
                    let t = tcx.normalize_erasing_regions(mono, tcx.type_of(did).instantiate_identity());
                    if let Ok(v) = tcx.const_eval_poly(did) {
                        let j = self.constval(v, t, mono, 0);
                        consts.push(format!("{{\"path\":{},\"v\":{}}}", esc(&self.path(did)), j));
                    }
                }
                DefKind::Impl { of_trait: true } => {
                    let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                    let gen = tcx.generics_of(did).requires_monomorphization(tcx);
                    let env = if gen { TypingEnv::post_analysis(tcx, did) } else { mono };
                    let sti = self.ty(tr.self_ty(), env);
                    let derived = tcx.is_automatically_derived(did);
                    let ta: Vec<String> = tr.args.types().skip(1).map(|x| self.ty(x, env).to_string()).collect();
                    impls.push(format!("{{\"trait\":{},\"self\":{},\"targs\":[{}],\"derived\":{},\"span\":{}}}", esc(&self.path(tr.def_id)), sti, ta.join(","), derived, esc(&self.span(tcx.def_span(did)))));
                }
                _ => {}
            }
        }
        while let Some((inst, env)) = self.queue.pop_front() {
            if !done.insert(inst) || !inst.def_id().is_local() || !matches!(inst.def, ty::InstanceKind::Item(_)) {
                continue;
            }
            if matches!(tcx.def_kind(inst.def_id()), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) && !inst.args.has_param() {
                self.body(inst, env, false);
            }
        }
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let suffix = std::env::var("VDUMP_SUFFIX").unwrap_or_default();
        // a library and a binary may share their name
        let bin = if tcx.crate_types().iter().all(|c| format!("{:?}", c) == "Executable") { "-bin" } else { "" };
        let f = format!("{}/{}{}{}.json", dir, name, bin, suffix);
        let feats: Vec<String> = tcx.sess.config.iter().map(|(n, v)| esc(&format!("{}={}", n, v.map(|x| x.as_str().to_string()).unwrap_or_default()))).collect();
        let out = format!(
            "{{\"crate\":{},\"cfg\":[{}],\"types\":[\n{}\n],\"items\":[{}],\"adts\":[{}],\"consts\":[{}],\"impls\":[{}],\"fns\":[\n{}\n]}}",
            esc(&name), feats.join(","), self.type_json.join(",\n"), items.join(","), adts.join(","), consts.join(","), impls.join(","), self.out_fns.join(",\n")
        );
        std::fs::write(&f, out).expect("write dump");
    }
}

struct Cb {
    dir: Option<String>,
}
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(dir) = &self.dir {
            let mut d = D {
                tcx,
                types: HashMap::new(),
                type_json: vec![],
                insts: HashMap::new(),
                used_keys: HashMap::new(),
                queue: VecDeque::new(),
                out_fns: vec![],
                seen_generic: HashSet::new(),
            };
            d.run(dir);
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // wrapper invocation: vdump <rustc> args...
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.sh")) {
        args.remove(1);
    }
    let joined = args.join("\u{1}");
    let is_build_script = joined.contains("--crate-name\u{1}build_script");
    let is_info = args.iter().any(|a| a == "-vV" || a == "--version" || a == "-V" || a.starts_with("--print"));
    let dir = if is_build_script || is_info { None } else { std::env::var("VDUMP_DIR").ok() };
    if dir.is_some() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=off".into());
        args.push("-Cdebug-assertions=off".into());
        args.push("--cap-lints=allow".into());
    }
    let mut cb = Cb { dir };
    rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut cb))
}
