//! Calls: dispatch, virtual calls, and models of library functions whose bodies are
//! either unavailable or outside the memory model.

use crate::dom::*;
use crate::interp::*;
use crate::terms::*;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::rc::Rc;

type Rs = Vec<(St, V)>;

/// `std::option::Option::<T>::map` -> `core::option::Option::map`
pub fn norm_name(n: &str) -> String {
    let mut o = String::new();
    let b: Vec<char> = n.chars().collect();
    let mut i = 0;
    // keep `<impl ...>` / `<X as Y>` heads, drop `::<..>` turbofish segments
    while i < b.len() {
        if b[i] == ':' && i + 2 < b.len() && b[i + 1] == ':' && b[i + 2] == '<' {
            let is_impl = b[i + 3..].starts_with(&['i', 'm', 'p', 'l', ' ']);
            if !is_impl {
                let mut d = 0;
                let mut j = i + 2;
                while j < b.len() {
                    if b[j] == '<' {
                        d += 1;
                    }
                    if b[j] == '>' && b[j - 1] != '-' {
                        d -= 1;
                        if d == 0 {
                            break;
                        }
                    }
                    j += 1;
                }
                i = j + 1;
                continue;
            }
        }
        o.push(b[i]);
        i += 1;
    }
    o.replace("std::", "core::").replace("alloc::", "core::")
}

/// Whether callers of a function carry safety obligations.
pub fn is_unsafe(i: &Instance) -> bool {
    if i.intrinsic_name().is_some() {
        return true;
    }
    match i.ty().kind() {
        TyKind::RigidTy(RigidTy::FnDef(d, _)) => {
            matches!(d.fn_sig().skip_binder().safety, rustc_public::mir::Safety::Unsafe)
        }
        _ => false,
    }
}

fn is_panic(n: &str) -> bool {
    n.starts_with("core::panicking::")
        || n.starts_with("core::rt::begin_panic")
        || n.starts_with("core::rt::panic")
        || n == "core::option::unwrap_failed"
        || n == "core::option::expect_failed"
        || n == "core::result::unwrap_failed"
        || n.contains("::panic_const")
        || n == "core::process::abort"
        || n == "core::cell::panic_already_borrowed"
        || n == "core::slice::index::slice_index_fail"
        || n == "core::str::slice_error_fail"
        || n.ends_with("slice_end_index_len_fail")
        || n.ends_with("slice_start_index_len_fail")
        || n.ends_with("slice_index_order_fail")
}

impl Interp {
    pub fn event(&mut self, st: &mut St, name: &str, args: Vec<T>) -> T {
        let mut occ = inti(0);
        for e in st.evs.iter() {
            match e {
                Ev::Call { name: n, args: a, .. } => {
                    if **n == *name && *a == args {
                        occ = add_c(occ, 1);
                    }
                }
                Ev::Rep { count, .. } => {
                    occ = add(occ, *count);
                }
            }
        }
        let mut ra = args.clone();
        ra.push(occ);
        let ret = app(&format!("ret:{name}"), ra);
        Rc::make_mut(&mut st.evs).push(Ev::Call { name: name.into(), args, ret });
        ret
    }

    pub fn call(
        &mut self,
        mut st: St,
        inst: Instance,
        orig: Option<(FnDef, GenericArgs)>,
        mut vals: Vec<V>,
        tys: &[Ty],
        dty: Ty,
    ) -> Rs {
        let tn = orig.as_ref().map(|(d, _)| norm_name(&d.name())).unwrap_or_default();
        let mut tys: Vec<Ty> = tys.to_vec();

        // dynamic dispatch
        if let InstanceKind::Virtual { .. } = inst.kind {
            let (d, ga) = orig.clone().expect("virtual call through a trait method");
            let p = match self.as_ptr(&mut st, &vals[0], tys[0]) {
                Ok(p) => p,
                Err(m) => {
                    self.fail(&st, m);
                    return vec![];
                }
            };
            match &p.meta {
                Meta::Vt(t) => {
                    let mut na = ga.clone();
                    na.0[0] = GenericArgKind::Type(*t);
                    let (path, pty) = match self.reconcile(p.path.clone(), p.pty, *t) {
                        Ok(x) => x,
                        Err(m) => {
                            self.fail(&st, m);
                            return vec![];
                        }
                    };
                    let unsized_recv = !matches!(&*kind(tys[0]), RigidTy::Ref(..) | RigidTy::RawPtr(..))
                        && !is_ptr_adt(tys[0]);
                    let _ = unsized_recv;
                    let q = Ptr { al: p.al, path, pty, meta: Meta::None };
                    vals[0] = V::ptr(q);
                    tys[0] = Ty::new_ref_like(tys[0], *t);
                    return match Instance::resolve(d, &na) {
                        Ok(i) => self.call(st, i, Some((d, na)), vals, &tys, dty),
                        Err(e) => {
                            self.fail(&st, format!("unresolved virtual call {e:?}"));
                            vec![]
                        }
                    };
                }
                _ => {
                    // user code behind an unknown trait object
                    let mut at = vec![];
                    for (v, t) in vals.iter().zip(&tys) {
                        at.push(self.freeze(&mut st, v, *t));
                    }
                    let r = self.event(&mut st, &format!("dyn {tn}"), at);
                    let v = self.typed(&st, V::Op(r), dty).unwrap();
                    return vec![(st, v)];
                }
            }
        }

        let name = norm_name(&def_name(&inst));
        if let Some(r) = self.model(&st, &inst, &name, &tn, orig.as_ref(), &vals, &tys, dty) {
            *self.models_used.entry(if tn.is_empty() { name } else { tn }).or_default() += 1;
            return match r {
                Ok(rs) => rs,
                Err(m) => {
                    // a safe library function cannot itself be misused
                    let m = match m.strip_prefix("UB: ") {
                        Some(x) if !is_unsafe(&inst) => format!("model of {}: {x}", def_name(&inst)),
                        _ => m,
                    };
                    self.fail(&st, m);
                    vec![]
                }
            };
        }
        if is_panic(&name) {
            self.fail(&st, format!("PANIC: {name}"));
            return vec![];
        }
        // opaque user code
        if let Some(p) = name.find("opaque::") {
            let label: String = name[p + 8..].to_string();
            let mut at = vec![];
            for (v, t) in vals.iter().zip(&tys) {
                at.push(self.freeze(&mut st, v, *t));
            }
            // generic instances are distinct user functions
            let mut label = label;
            for g in inst.args().0.iter() {
                if let Some(t) = g.ty() {
                    label.push_str(&format!("<{}>", tname(*t)));
                }
            }
            let r = self.event(&mut st, &label, at);
            let v = match self.typed(&st, V::Op(r), dty) {
                Ok(v) => v,
                Err(m) => {
                    self.fail(&st, m);
                    return vec![];
                }
            };
            let v = if is_zst(dty) { self.zst(dty).unwrap_or(v) } else { v };
            return vec![(st, v)];
        }
        if inst.is_empty_shim() {
            return vec![(st, V::unit())];
        }
        // rust-call ABI
        let rust_call = matches!(
            &*tn,
            "core::ops::FnOnce::call_once" | "core::ops::FnMut::call_mut" | "core::ops::Fn::call"
        );
        if rust_call {
            if let Some(last) = vals.pop() {
                let lt = tys.pop().unwrap();
                match last {
                    V::Agg(_, fs) => vals.extend(fs.iter().cloned()),
                    V::Op(t) => {
                        for (i, ft) in fields(lt, 0).iter().enumerate() {
                            let v = self.typed(&st, V::Op(fterm(t, 0, i as u32, false)), *ft).unwrap();
                            vals.push(v);
                        }
                    }
                    o => vals.push(o),
                }
            }
        }
        let bi = match self.body(inst) {
            Some(b) => b,
            None => {
                // a tuple constructor used as a function
                if let RigidTy::Adt(d, _) = &*kind(dty) {
                    let last = |s: &str| s.rsplit("::").next().unwrap_or("").to_string();
                    let vs = d.variants();
                    let k = vs.iter().position(|v| {
                        last(&name) == if vs.len() == 1 { last(&d.name()) } else { last(&v.name()) }
                    });
                    if let Some(k) = k {
                        if fields(dty, k as u32).len() == vals.len() {
                            return vec![(st, V::agg(k as u32, vals))];
                        }
                    }
                }
                self.fail(&st, format!("no model for {} ({})", name, inst.name()));
                return vec![];
            }
        };
        let n = bi.body.arg_locals().len();
        if let Some(sp) = bi.body.spread_arg() {
            let first = sp - 1;
            if rust_call || vals.len() != n {
                let tail: Vec<V> = vals.split_off(first);
                vals.push(V::agg(0, tail));
            }
        } else if vals.len() + 1 == n && !rust_call {
            // never
        } else if vals.len() != n && !rust_call && !vals.is_empty() {
            if let Some(V::Agg(_, fs)) = vals.last().cloned() {
                if vals.len() - 1 + fs.len() == n {
                    vals.pop();
                    vals.extend(fs.iter().cloned());
                }
            }
        }
        if vals.len() != n {
            self.fail(&st, format!("arity of {}: {} vs {}", name, vals.len(), n));
            return vec![];
        }
        self.run(st, inst, vals)
    }

    /// Runs a generic helper written in the witness crate.
    pub fn shim(&mut self, st: St, name: &str, args: Vec<GenericArgKind>, vals: Vec<V>) -> R<Rs> {
        let d = *self.shims.get(name).ok_or_else(|| format!("no shim {name}"))?;
        let i = Instance::resolve(d, &GenericArgs(args)).map_err(|e| format!("{e:?}"))?;
        Ok(self.run(st, i, vals))
    }

    pub fn load(&mut self, st: &mut St, v: &V, ty: Ty) -> R<V> {
        let p = self.as_ptr(st, v, ty)?;
        let want = pointee(ty).unwrap();
        let (path, ty) = self.reconcile(p.path.clone(), p.pty, want)?;
        self.read(st, &Pl { al: p.al, path, ty, meta: p.meta.clone(), variant: None })
    }

    pub fn store(&mut self, st: &mut St, v: &V, ty: Ty, x: V) -> R<()> {
        let p = self.as_ptr(st, v, ty)?;
        let want = pointee(ty).unwrap();
        let (path, ty) = self.reconcile(p.path.clone(), p.pty, want)?;
        self.write(st, &Pl { al: p.al, path, ty, meta: p.meta.clone(), variant: None }, x)
    }

    pub fn text_of(&mut self, st: &mut St, v: &V, ty: Ty) -> R<T> {
        match self.load(st, v, ty)? {
            V::Op(t) => Ok(t),
            V::Agg(_, items) => {
                let mut b = vec![];
                for i in items.iter() {
                    match i {
                        V::N(t) => match as_int(*t) {
                            Some(z) => b.push(z.lo as u8),
                            None => return Err("text of unknown bytes".into()),
                        },
                        _ => return Err("text of unknown bytes".into()),
                    }
                }
                match String::from_utf8(b) {
                    Ok(s) => Ok(strc(&s)),
                    Err(_) => Err("UB: text is not UTF-8".into()),
                }
            }
            V::Buf(_, t) => Ok(t),
            o => Err(format!("text expected, found {o:?}")),
        }
    }

    pub fn str_ref(&mut self, st: &mut St, t: T, sty: Ty) -> V {
        let al = self.alloc(st, sty, V::Op(t));
        V::ptr(Ptr { al, path: vec![Pj::Idx(inti(0))], pty: sty, meta: Meta::Len(len(t)) })
    }

    /// Splits a state on a 0/1 term.
    pub fn split(&self, st: &St, c: T) -> (Option<St>, Option<St>) {
        let mut a = st.clone();
        let mut b = st.clone();
        let x = a.facts.assume(c, &Ivs::point(Z::ONE));
        let y = b.facts.assume(c, &Ivs::point(Z::ZERO));
        (if x { Some(a) } else { None }, if y { Some(b) } else { None })
    }

    #[allow(clippy::too_many_arguments)]
    fn model(
        &mut self,
        st0: &St,
        inst: &Instance,
        n: &str,
        tn: &str,
        orig: Option<&(FnDef, GenericArgs)>,
        a: &[V],
        tys: &[Ty],
        dty: Ty,
    ) -> Option<R<Rs>> {
        let mut st = st0.clone();
        let one = |st: St, v: V| Some(Ok(vec![(st, v)]));
        macro_rules! tri {
            ($e:expr) => {
                match $e {
                    Ok(v) => v,
                    Err(m) => return Some(Err(m)),
                }
            };
        }
        let garg = |i: usize| -> Option<Ty> {
            inst.args().0.iter().filter_map(|x| x.ty().copied()).nth(i)
        };
        if let Some(iname) = inst.intrinsic_name() {
            return self.intrinsic(st, inst, &iname, a, tys, dty);
        }
        let _ = (orig, &mut st);
        match n {
            "core::any::TypeId::of" => {
                let t = garg(0).unwrap();
                return one(st, V::Op(app(&format!("typeid:{}", tname(t)), vec![])));
            }
            "core::mem::forget" | "core::mem::drop" | "core::ptr::drop_in_place" => {
                return one(st, V::unit())
            }
            _ => {}
        }
        match tn {
            "core::any::Any::type_id" => {
                // resolved on the concrete type
                let p = tri!(self.as_ptr(&mut st, &a[0], tys[0]));
                let t = match &p.meta {
                    Meta::Dyn => return None,
                    _ => garg(0).unwrap_or(p.pty),
                };
                return one(st, V::Op(app(&format!("typeid:{}", tname(t)), vec![])));
            }
            "core::cmp::PartialEq::eq" | "core::cmp::PartialEq::ne" => {
                let neg = tn.ends_with("ne");
                if let Some(pt) = pointee(tys[0]) {
                    if adt_path(pt).ends_with("any::TypeId") {
                        let x = tri!(self.load(&mut st, &a[0], tys[0]));
                        let y = tri!(self.load(&mut st, &a[1], tys[1]));
                        if let (V::Op(x), V::Op(y)) = (x, y) {
                            let known = |t: T| matches!(tk(t), TK::App(o, _) if o.starts_with("typeid:"));
                            let r = if x == y {
                                inti(1)
                            } else if known(x) && known(y) {
                                inti(0)
                            } else {
                                let t = app("tideq", vec![x.min(y), x.max(y)]);
                                bool_base(t);
                                t
                            };
                            return one(st, V::N(if neg { not(r) } else { r }));
                        }
                    }
                }
            }
            _ => {}
        }
        self.std_model(st0, inst, n, tn, orig, a, tys, dty)
    }

    fn intrinsic(
        &mut self,
        mut st: St,
        inst: &Instance,
        n: &str,
        a: &[V],
        tys: &[Ty],
        dty: Ty,
    ) -> Option<R<Rs>> {
        let one = |st: St, v: V| Some(Ok(vec![(st, v)]));
        macro_rules! tri {
            ($e:expr) => {
                match $e {
                    Ok(v) => v,
                    Err(m) => return Some(Err(m)),
                }
            };
        }
        let garg = |i: usize| -> Option<Ty> {
            inst.args().0.iter().filter_map(|x| x.ty().copied()).nth(i)
        };
        match n {
            "type_id" => {
                let t = garg(0).unwrap();
                one(st, V::Op(app(&format!("typeid:{}", tname(t)), vec![])))
            }
            "type_id_eq" => {
                let (x, y) = match (&a[0], &a[1]) {
                    (V::Op(x), V::Op(y)) => (*x, *y),
                    _ => return Some(Err("type id".into())),
                };
                one(st, V::int((x == y) as i128))
            }
            "size_of" | "min_align_of" | "align_of" => {
                let t = garg(0).unwrap();
                let v = if n == "size_of" {
                    tri!(size_of(t).ok_or("size".to_string()))
                } else {
                    tri!(t.layout().map_err(|e| format!("{e:?}"))).shape().abi_align as usize
                };
                one(st, V::int(v as i128))
            }
            "size_of_val" => {
                let t = garg(0).unwrap();
                let p = tri!(self.as_ptr(&mut st, &a[0], tys[0]));
                if let Some(s) = size_of(t) {
                    return one(st, V::int(s as i128));
                }
                let es = if is_str(t) { 1 } else { slice_elem(t).and_then(size_of).unwrap_or(1) };
                match &p.meta {
                    Meta::Len(l) => {
                        let r = crate::interp::mul(*l, inti(es as i128));
                        one(st, V::N(r))
                    }
                    _ => Some(Err("size_of_val".into())),
                }
            }
            "needs_drop" => one(st, V::int(0)),
            "ub_checks" | "contract_checks" => one(st, V::int(0)),
            "overflow_checks" => one(st, V::int(1)),
            "likely" | "unlikely" | "black_box" => one(st, a[0].clone()),
            "cold_path" | "assert_inhabited" | "assert_zero_valid" | "forget" => {
                one(st, V::unit())
            }
            "assume" => {
                let t = tri!(self.num(&a[0], Ty::bool_ty()));
                st.facts.assume(t, &Ivs::point(Z::ONE));
                one(st, V::unit())
            }
            "abort" | "unreachable" => {
                Some(Err(format!("{}: {n}", if n == "abort" { "PANIC" } else { "UB" })))
            }
            "transmute" | "transmute_unchecked" => {
                let v = tri!(self.transmute(&mut st, a[0].clone(), tys[0], dty));
                one(st, v)
            }
            "read_via_copy" | "volatile_load" | "unaligned_volatile_load" => {
                let v = tri!(self.load(&mut st, &a[0], tys[0]));
                one(st, v)
            }
            "write_via_move" | "volatile_store" => {
                tri!(self.store(&mut st, &a[0], tys[0], a[1].clone()));
                one(st, V::unit())
            }
            "discriminant_value" => {
                let v = tri!(self.load(&mut st, &a[0], tys[0]));
                let t = pointee(tys[0]).unwrap();
                let d = if is_enum(t) { tri!(self.discr(&mut st, &v, t)) } else { V::int(0) };
                one(st, d)
            }
            "ptr_offset_from_unsigned" | "ptr_offset_from" => {
                let p = tri!(self.as_ptr(&mut st, &a[0], tys[0]));
                let q = tri!(self.as_ptr(&mut st, &a[1], tys[1]));
                match (p.path.last(), q.path.last()) {
                    (Some(Pj::Idx(x)), Some(Pj::Idx(y))) if p.al == q.al => one(st, V::N(sub(*x, *y))),
                    _ => Some(Err("pointer distance".into())),
                }
            }
            "offset" | "arith_offset" => {
                let p = tri!(self.as_ptr(&mut st, &a[0], tys[0]));
                let k = tri!(self.num(&a[1], tys[1]));
                let v = tri!(self.ptr_offset(&mut st, &p, pointee(tys[0]).unwrap(), k));
                one(st, v)
            }
            "copy_nonoverlapping" | "copy" => {
                let k = tri!(self.num(&a[2], tys[2]));
                tri!(self.mem_copy(&mut st, &a[0], tys[0], &a[1], tys[1], k));
                one(st, V::unit())
            }
            "ptr_metadata" => {
                let p = tri!(self.as_ptr(&mut st, &a[0], tys[0]));
                match &p.meta {
                    Meta::Len(t) => {
                        let t = *t;
                        one(st, V::N(t))
                    }
                    Meta::None => one(st, V::unit()),
                    _ => one(st, V::P(p.clone())),
                }
            }
            "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "unchecked_add" | "unchecked_sub"
            | "unchecked_mul" | "saturating_add" | "saturating_sub" => {
                let (x, y) = (tri!(self.num(&a[0], tys[0])), tri!(self.num(&a[1], tys[1])));
                let (x, y) = (self.simp(&st, x), self.simp(&st, y));
                let (b, s) = int_info(tys[0]).unwrap();
                let r = if n.ends_with("add") {
                    add(x, y)
                } else if n.ends_with("sub") {
                    sub(x, y)
                } else {
                    crate::interp::mul(x, y)
                };
                let tr = bits_range(b, s);
                if n.starts_with("saturating") {
                    let mut out = vec![];
                    let (hi, rest) = { let c = lt(&st.facts, int(tr.max()), r); self.split(&st, c) };
                    if let Some(h) = hi {
                        out.push((h, V::N(int(tr.max()))));
                    }
                    if let Some(rest) = rest {
                        let (lo, ok) = { let c = lt(&rest.facts, r, int(tr.min())); self.split(&rest, c) };
                        if let Some(l) = lo {
                            out.push((l, V::N(int(tr.min()))));
                        }
                        if let Some(o) = ok {
                            out.push((o, V::N(r)));
                        }
                    }
                    return Some(Ok(out));
                }
                if n.starts_with("unchecked") && !st.facts.range(r).subset(&tr) {
                    return Some(Err("UB: unchecked arithmetic may overflow".into()));
                }
                let w = self.wrap(&st, r, b, s);
                one(st, V::N(w))
            }
            "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
                let (x, y) = (tri!(self.num(&a[0], tys[0])), tri!(self.num(&a[1], tys[1])));
                let (x, y) = (self.simp(&st, x), self.simp(&st, y));
                let (b, s) = int_info(tys[0]).unwrap();
                let r = if n.starts_with("add") {
                    add(x, y)
                } else if n.starts_with("sub") {
                    sub(x, y)
                } else {
                    crate::interp::mul(x, y)
                };
                let tr = bits_range(b, s);
                let mut out = vec![];
                let c = le(&st.facts, r, int(tr.max()));
                let (fit, over) = self.split(&st, c);
                if let Some(o) = over {
                    let w = self.wrap(&o, r, b, s);
                    out.push((o, V::agg(0, vec![V::N(w), V::int(1)])));
                }
                if let Some(f) = fit {
                    let c = le(&f.facts, int(tr.min()), r);
                    let (ok, under) = self.split(&f, c);
                    if let Some(u) = under {
                        let w = self.wrap(&u, r, b, s);
                        out.push((u, V::agg(0, vec![V::N(w), V::int(1)])));
                    }
                    if let Some(o) = ok {
                        out.push((o, V::agg(0, vec![V::N(r), V::int(0)])));
                    }
                }
                Some(Ok(out))
            }
            _ => {
                if inst.has_body() {
                    return None;
                }
                Some(Err(format!("intrinsic {n}")))
            }
        }
    }
}

pub trait TyExt {
    fn new_ref_like(like: Ty, to: Ty) -> Ty;
}
impl TyExt for Ty {
    /// The pointer type `like` with its pointee replaced.
    fn new_ref_like(like: Ty, to: Ty) -> Ty {
        match &*kind(like) {
            RigidTy::Ref(r, _, m) => Ty::new_ref(r.clone(), to, *m),
            RigidTy::RawPtr(_, m) => Ty::new_ptr(to, *m),
            RigidTy::Adt(d, a) => {
                let mut na = a.clone();
                na.0[0] = GenericArgKind::Type(to);
                Ty::from_rigid_kind(RigidTy::Adt(*d, na))
            }
            _ => like,
        }
    }
}
