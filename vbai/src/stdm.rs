//! Models of the standard library: text, containers, smart pointers, slice iterators
//! and formatting.

use crate::dom::*;
use crate::interp::*;
use crate::models::TyExt;
use crate::terms::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use std::rc::Rc;

type Rs = Vec<(St, V)>;

macro_rules! tri {
    ($e:expr) => {
        match $e {
            Ok(v) => v,
            Err(m) => return Some(Err(m)),
        }
    };
}

fn one(st: St, v: V) -> Option<R<Rs>> {
    Some(Ok(vec![(st, v)]))
}

fn ga(t: Ty) -> GenericArgKind {
    GenericArgKind::Type(t)
}

fn path_is(t: Ty, s: &str) -> bool {
    let p = adt_path(t);
    let n = crate::models::norm_name(&p);
    n == s
}

fn is_formatter(t: Ty) -> bool {
    path_is(t, "core::fmt::Formatter")
}

pub enum Fm {
    /// a formatter the caller handed in
    Opaque(T),
    /// a formatter created over a writer
    Conc(V, V),
}

impl Interp {
    fn is_slice_iter(&self, t: Ty) -> bool {
        path_is(t, "core::slice::Iter") || path_is(t, "core::slice::IterMut")
    }
    fn is_into_iter(&self, t: Ty) -> bool {
        path_is(t, "core::vec::IntoIter") || path_is(t, "core::array::IntoIter")
    }

    /// Text held by a string-like value of static type `ty`.
    pub fn text_val(&mut self, st: &mut St, v: &V, ty: Ty) -> R<T> {
        if is_string(ty) {
            return match v {
                V::Op(t) => Ok(*t),
                o => Err(format!("string expected, found {o:?}")),
            };
        }
        let mut v = v.clone();
        let mut ty = ty;
        loop {
            let pt = pointee(ty).ok_or_else(|| format!("text expected in {}", tname(ty)))?;
            if is_str(pt) || slice_elem(pt).map(is_u8) == Some(true) {
                return self.text_of(st, &v, ty);
            }
            let inner = self.load(st, &v, ty)?;
            if is_string(pt) {
                return self.text_val(st, &inner, pt);
            }
            v = inner;
            ty = pt;
        }
    }

    fn has_text(&self, ty: Ty) -> bool {
        let mut ty = ty;
        for _ in 0..4 {
            if is_string(ty) || is_str(ty) {
                return true;
            }
            match pointee(ty) {
                Some(t) => ty = t,
                None => return false,
            }
        }
        false
    }

    /// A fresh allocation holding a text, as a pointer of type `pty` (`Box<str>`, `Arc<str>`).
    fn text_box(&mut self, st: &mut St, t: T, ptr_ty: Ty) -> V {
        let s = pointee(ptr_ty).unwrap();
        self.str_ref(st, t, s)
    }

    /// Pointer to the contents of a container behind `v: &Container`.
    fn inner_ref(&mut self, st: &mut St, v: &V, ty: Ty, to: Ty) -> R<V> {
        let p = self.as_ptr(st, v, ty)?;
        let c = self.load(st, v, ty)?;
        let l = match &c {
            V::Op(t) => len(*t),
            V::Seq(x) | V::Agg(_, x) => inti(x.len() as i128),
            o => return Err(format!("container expected, found {o:?}")),
        };
        let (mut path, _) = self.reconcile(p.path.clone(), p.pty, pointee(ty).unwrap())?;
        path.push(Pj::Cont);
        path.push(Pj::Idx(inti(0)));
        Ok(V::ptr(Ptr { al: p.al, path, pty: to, meta: Meta::Len(l) }))
    }

    pub fn fmt_state(&mut self, st: &mut St, v: &V, ty: Ty) -> R<Fm> {
        match self.load(st, v, ty)? {
            V::Op(t) => Ok(Fm::Opaque(mk_ref(t))),
            V::Agg(_, f) if f.len() == 2 => Ok(Fm::Conc(f[0].clone(), f[1].clone())),
            o => Err(format!("formatter expected, found {o:?}")),
        }
    }

    fn fmt_ok(&self) -> V {
        V::agg(0, vec![V::unit()])
    }

    /// Writes a text to a formatter.
    pub fn fmt_text(&mut self, mut st: St, f: &V, fty: Ty, t: T) -> R<Rs> {
        match self.fmt_state(&mut st, f, fty)? {
            Fm::Opaque(o) => {
                let r = self.event(&mut st, "fmt.write_str", vec![o, t]);
                Ok(vec![(st, V::Op(r))])
            }
            Fm::Conc(_, w) => {
                let sty = self.str_ty()?;
                let s = self.str_ref(&mut st, t, sty);
                self.shim(st, "w_write_str", vec![], vec![w, s])
            }
        }
    }

    fn bytes_ty(&self) -> R<Ty> {
        Ok(Ty::from_rigid_kind(RigidTy::Slice(Ty::from_rigid_kind(RigidTy::Uint(UintTy::U8)))))
    }
    pub fn str_ty(&self) -> R<Ty> {
        Ok(Ty::from_rigid_kind(RigidTy::Str))
    }

    /// Formats a primitive.
    fn fmt_prim(&mut self, mut st: St, tr: &str, tyn: &str, x: T, f: &V, fty: Ty) -> R<Rs> {
        match self.fmt_state(&mut st, f, fty)? {
            Fm::Opaque(o) => {
                let r = self.event(&mut st, &format!("fmt.{tr}:{tyn}"), vec![x, o]);
                Ok(vec![(st, V::Op(r))])
            }
            Fm::Conc(opts, w) => {
                let ot = match opts {
                    V::Op(t) => t,
                    o => return Err(format!("formatting options {o:?}")),
                };
                let t = if tyn == "str" && tr == "Display" && ot == sym("opts_default") {
                    x
                } else if ot == sym("opts_default") {
                    app(&format!("text.{tr}:{tyn}"), vec![x])
                } else {
                    app(&format!("text.{tr}:{tyn}"), vec![x, ot])
                };
                let sty = self.str_ty()?;
                let s = self.str_ref(&mut st, t, sty);
                self.shim(st, "w_write_str", vec![], vec![w, s])
            }
        }
    }

    /// Runs `then` in the states where a `fmt::Result` is Ok, passing errors through.
    fn and_then(
        &mut self,
        rs: Rs,
        rty: Ty,
        then: &mut dyn FnMut(&mut Interp, St) -> R<Rs>,
    ) -> R<Rs> {
        let mut out = vec![];
        for (mut s, v) in rs {
            let d = self.discr(&mut s, &v, rty)?;
            let t = self.num(&d, Ty::usize_ty())?;
            let (err, ok) = self.split(&s, t);
            if let Some(e) = err {
                let is1 = e.facts.range(t).contains(Z::ONE);
                if is1 {
                    // errors carry nothing
                    out.push((e, V::agg(1, vec![V::unit()])));
                }
            }
            if let Some(o) = ok {
                out.extend(then(self, o)?);
            }
        }
        Ok(out)
    }

    /// The pieces of a `fmt::Arguments` value.
    fn pieces(&mut self, st: &mut St, v: &V) -> R<Vec<Piece>> {
        let f = match v {
            V::Agg(_, f) if f.len() == 2 => f.clone(),
            o => return Err(format!("format arguments expected, found {o:?}")),
        };
        if let V::Undef = f[1] {
            let t = match &f[0] {
                V::Op(t) => *t,
                o => return Err(format!("format text {o:?}")),
            };
            return Ok(vec![Piece::Lit(t)]);
        }
        let bytes: Vec<u8> = match &f[0] {
            V::Agg(_, b) => {
                let mut o = vec![];
                for x in b.iter() {
                    match x {
                        V::N(t) => o.push(as_int(*t).ok_or("template byte")?.lo as u8),
                        _ => return Err("template byte".into()),
                    }
                }
                o
            }
            o => return Err(format!("template {o:?}")),
        };
        let args: Vec<V> = match &f[1] {
            V::Agg(_, a) => (**a).clone(),
            o => return Err(format!("format argument list {o:?}")),
        };
        let mut out = vec![];
        let mut i = 0;
        let mut ai = 0;
        let u16at = |i: usize| bytes[i] as usize | ((bytes[i + 1] as usize) << 8);
        loop {
            let n = bytes[i];
            i += 1;
            if n == 0 {
                break;
            } else if n < 0x80 {
                let s = String::from_utf8(bytes[i..i + n as usize].to_vec()).map_err(|_| "template")?;
                out.push(Piece::Lit(strc(&s)));
                i += n as usize;
            } else if n == 0x80 {
                let l = u16at(i);
                i += 2;
                let s = String::from_utf8(bytes[i..i + l].to_vec()).map_err(|_| "template")?;
                out.push(Piece::Lit(strc(&s)));
                i += l;
            } else {
                let mut o: Vec<T> = vec![];
                if n & 1 != 0 {
                    let fl = u32::from_le_bytes([bytes[i], bytes[i + 1], bytes[i + 2], bytes[i + 3]]);
                    o.push(app("flags", vec![inti(fl as i128)]));
                    i += 4;
                }
                let cnt = |o: &mut Vec<T>, name: &str, i: usize, ind: bool, args: &Vec<V>| -> R<()> {
                    let x = u16at(i);
                    if ind {
                        match &args[x] {
                            V::Agg(_, c) => match &c[0] {
                                V::N(t) => o.push(app(name, vec![*t])),
                                _ => return Err("dynamic count".into()),
                            },
                            _ => return Err("dynamic count".into()),
                        }
                    } else {
                        o.push(app(name, vec![inti(x as i128)]));
                    }
                    Ok(())
                };
                if n & 2 != 0 {
                    cnt(&mut o, "width", i, n & 16 != 0, &args)?;
                    i += 2;
                }
                if n & 4 != 0 {
                    cnt(&mut o, "precision", i, n & 32 != 0, &args)?;
                    i += 2;
                }
                if n & 8 != 0 {
                    ai = u16at(i);
                    i += 2;
                }
                let a = args.get(ai).ok_or("missing format argument")?;
                ai += 1;
                match a {
                    V::Agg(_, c) if c.len() == 2 => match &c[1] {
                        V::Fn(inst) => out.push(Piece::Arg(
                            c[0].clone(),
                            *inst,
                            if o.is_empty() { sym("opts_default") } else { app("opts", o) },
                        )),
                        x => return Err(format!("format argument {x:?}")),
                    },
                    x => return Err(format!("format argument {x:?}")),
                }
            }
        }
        let _ = st;
        Ok(out)
    }

    /// `write!` of `args` to a formatter or writer.
    fn write_args(&mut self, st: St, target: Target, args: &V, rty: Ty, fmt_ty: Ty) -> R<Rs> {
        let mut st = st;
        let ps = self.pieces(&mut st, args)?;
        let mut rs: Rs = vec![(st, self.fmt_ok())];
        for p in ps {
            let target = target.clone();
            rs = self.and_then(rs, rty, &mut |it: &mut Interp, mut s: St| match &p {
                Piece::Lit(t) => match &target {
                    Target::Opaque(o) => {
                        let r = it.event(&mut s, "fmt.write_str", vec![*o, *t]);
                        Ok(vec![(s, V::Op(r))])
                    }
                    Target::Writer(w) => {
                        let sty = it.str_ty()?;
                        let x = it.str_ref(&mut s, *t, sty);
                        it.shim(s, "w_write_str", vec![], vec![w.clone(), x])
                    }
                },
                Piece::Arg(x, inst, o) => {
                    let fv = match &target {
                        // placeholders get a formatter with their own options
                        Target::Opaque(t) => V::Op(app("deref", vec![app("fmt_with", vec![*t, *o])])),
                        Target::Writer(w) => V::agg(0, vec![V::Op(*o), w.clone()]),
                    };
                    let al = it.alloc(&mut s, fmt_ty, fv);
                    let fp = V::ptr(Ptr { al, path: vec![], pty: fmt_ty, meta: Meta::None });
                    Ok(it.run(s, *inst, vec![x.clone(), fp]))
                }
            })?;
        }
        Ok(rs)
    }

    /// The buffering libraries, replaced by recorders of the calls they receive.
    #[allow(clippy::too_many_arguments)]
    fn buffers(
        &mut self,
        st0: &St,
        inst: &Instance,
        n: &str,
        tn: &str,
        orig: Option<&(FnDef, GenericArgs)>,
        a: &[V],
        tys: &[Ty],
    ) -> Option<R<Rs>> {
        let mut st = st0.clone();
        let m = n.rsplit("::").next().unwrap_or("");
        let inherent = n.contains("serde_buf::Owned::") || n.contains("sval_buffer::");
        if inherent && !n.starts_with('<') {
            let sval = n.contains("sval_buffer::");
            match m {
                "buffer" | "stream_to_value_owned" | "collect_owned" => {
                    let ts: Vec<GenericArgKind> = inst.args().0.iter().filter(|x| x.ty().is_some()).cloned().collect();
                    return Some(self.shim(st, if sval { "sval_buffer" } else { "serde_buffer" }, ts, a.to_vec()));
                }
                "into_value" | "into_owned" if sval => {
                    let v = a[0].clone();
                    return Some(Ok(vec![(st, if m == "into_value" { v } else { V::agg(0, vec![v]) })]));
                }
                "to_value" if sval => {
                    let v = tri!(self.load(&mut st, &a[0], tys[0]));
                    return Some(Ok(vec![(st, v)]));
                }
                _ => return None,
            }
        }
        let (_, g) = orig?;
        let s = g.0.iter().filter_map(|x| x.ty().copied()).next()?;
        let p = adt_path(s);
        let sval = p.ends_with("sval_buffer::Value") || p.ends_with("sval_buffer::ValueBuf");
        let serde = p.ends_with("serde_buf::Owned");
        if !sval && !serde {
            return None;
        }
        let sink: Vec<GenericArgKind> =
            g.0.iter().skip(1).cloned().collect();
        if tn == "core::clone::Clone::clone" {
            let v = tri!(self.load(&mut st, &a[0], tys[0]));
            return Some(Ok(vec![(st, v)]));
        }
        let sh = match m {
            "stream" | "stream_ref" if sval => "sval_replay",
            "serialize" if serde => "serde_replay",
            _ => return None,
        };
        let v = tri!(self.load(&mut st, &a[0], tys[0]));
        let d = match self.shims.get(sh) {
            Some(d) => *d,
            None => return Some(Err(format!("no shim {sh}"))),
        };
        let i = tri!(Instance::resolve(d, &GenericArgs(sink.clone())).map_err(|e| format!("{e:?}")));
        let bi = match self.body(i) {
            Some(b) => b,
            None => return Some(Err(format!("no body of {sh}"))),
        };
        let rt = pointee(bi.body.arg_locals()[0].ty).unwrap();
        let al = self.alloc(&mut st, rt, v);
        let p = V::ptr(Ptr { al, path: vec![], pty: rt, meta: Meta::None });
        Some(self.shim(st, sh, sink, vec![p, a[1].clone()]))
    }

    #[allow(clippy::too_many_arguments)]
    pub fn std_model(
        &mut self,
        st0: &St,
        inst: &Instance,
        n: &str,
        tn: &str,
        orig: Option<&(FnDef, GenericArgs)>,
        a: &[V],
        tys: &[Ty],
        dty: Ty,
    ) -> Option<R<Rs>> {
        if n.contains("dyn core::any::Any") || n.contains("dyn std::any::Any") {
            for (m, sh) in [("downcast_ref", "any_downcast_ref"), ("downcast_mut", "any_downcast_mut"), ("is", "any_is")] {
                if n.rsplit("::").next() == Some(m) {
                    let g = inst.args();
                    let ts: Vec<GenericArgKind> = g.0.iter().filter(|x| x.ty().is_some()).cloned().collect();
                    return Some(self.shim(st0.clone(), sh, ts, a.to_vec()));
                }
            }
        }
        if n.ends_with("sval_fmt::token_write::write_escape_debug") {
            let g = inst.args();
            let ts: Vec<GenericArgKind> = g.0.iter().filter(|x| x.ty().is_some()).cloned().collect();
            return Some(self.shim(st0.clone(), "sval_escape", ts, a.to_vec()));
        }
        if let Some(r) = self.buffers(st0, inst, n, tn, orig, a, tys) {
            return Some(r);
        }
        if !n.starts_with("core::") && !n.starts_with('<') && !tn.starts_with("core::") {
            return None;
        }
        let mut st = st0.clone();
        let garg = |i: usize| -> Option<Ty> {
            inst.args().0.iter().filter_map(|x| x.ty().copied()).nth(i)
        };
        let sty: Option<Ty> =
            orig.and_then(|(_, g)| g.0.iter().filter_map(|x| x.ty().copied()).next());
        let is_trait = orig.map(|(d, _)| norm_eq(d, n)).map(|same| !same).unwrap_or(false);
        let _ = is_trait;

        if let Some(r) = self.uninterpreted(&st, n, tn, sty, a, tys, dty) {
            return Some(r);
        }

        // ---- inherent functions ----
        match n {
            "core::mem::swap" => {
                let x = tri!(self.load(&mut st, &a[0], tys[0]));
                let y = tri!(self.load(&mut st, &a[1], tys[1]));
                tri!(self.store(&mut st, &a[0], tys[0], y));
                tri!(self.store(&mut st, &a[1], tys[1], x));
                return one(st, V::unit());
            }
            "core::mem::replace" => {
                let x = tri!(self.load(&mut st, &a[0], tys[0]));
                tri!(self.store(&mut st, &a[0], tys[0], a[1].clone()));
                return one(st, x);
            }
            "core::ptr::read" | "core::ptr::const_ptr::<impl *const T>::read" => {
                let x = tri!(self.load(&mut st, &a[0], tys[0]));
                return one(st, x);
            }
            "core::ptr::write" => {
                tri!(self.store(&mut st, &a[0], tys[0], a[1].clone()));
                return one(st, V::unit());
            }
            "core::char::methods::<impl char>::encode_utf8" => {
                let c = tri!(self.num(&a[0], tys[0]));
                let t = char_text(c);
                let sty = tri!(self.str_ty());
                let src = self.str_ref(&mut st, t, sty);
                let u8p = Ty::new_ptr(Ty::from_rigid_kind(RigidTy::Uint(UintTy::U8)), rustc_public::mir::Mutability::Mut);
                tri!(self.mem_copy(&mut st, &src, u8p, &a[1], u8p, len(t)));
                let p = tri!(self.as_ptr(&mut st, &a[1], tys[1]));
                let mut q = (*p).clone();
                if !matches!(q.path.last(), Some(Pj::Idx(_))) {
                    q.path.push(Pj::Idx(inti(0)));
                }
                q.pty = sty;
                q.meta = Meta::Len(len(t));
                return one(st, V::ptr(q));
            }
            "core::string::String::new" | "core::string::String::with_capacity" => {
                return one(st, V::Op(strc("")))
            }
            "core::string::String::as_str" | "core::string::String::as_mut_str" => {
                let v = tri!(self.inner_ref(&mut st, &a[0], tys[0], pointee(dty).unwrap()));
                return one(st, v);
            }
            "core::string::String::as_bytes" => {
                let v = tri!(self.inner_ref(&mut st, &a[0], tys[0], pointee(dty).unwrap()));
                return one(st, v);
            }
            "core::string::String::len" => {
                let t = tri!(self.text_val(&mut st, &a[0], tys[0]));
                return one(st, V::N(len(t)));
            }
            "core::string::String::is_empty" => {
                let t = tri!(self.text_val(&mut st, &a[0], tys[0]));
                let c = eq(&st.facts, len(t), inti(0));
                return one(st, V::N(c));
            }
            "core::string::String::capacity" => {
                let c = self.fresh(&st, "capacity");
                return one(st, V::N(c));
            }
            "core::string::String::reserve"
            | "core::string::String::reserve_exact"
            | "core::string::String::shrink_to_fit"
            | "core::vec::Vec::reserve"
            | "core::vec::Vec::reserve_exact"
            | "core::vec::Vec::shrink_to_fit" => return one(st, V::unit()),
            "core::string::String::push_str" => {
                let t = tri!(self.text_val(&mut st, &a[0], tys[0]));
                let x = tri!(self.text_val(&mut st, &a[1], tys[1]));
                tri!(self.store(&mut st, &a[0], tys[0], V::Op(concat(t, x))));
                return one(st, V::unit());
            }
            "core::string::String::push" => {
                let t = tri!(self.text_val(&mut st, &a[0], tys[0]));
                let c = tri!(self.num(&a[1], tys[1]));
                tri!(self.store(&mut st, &a[0], tys[0], V::Op(concat(t, char_text(c)))));
                return one(st, V::unit());
            }
            "core::string::String::clear" => {
                tri!(self.store(&mut st, &a[0], tys[0], V::Op(strc(""))));
                return one(st, V::unit());
            }
            "core::string::String::into_boxed_str" | "core::string::String::leak" => {
                let t = tri!(self.text_val(&mut st, &a[0], tys[0]));
                let v = self.text_box(&mut st, t, dty);
                return one(st, v);
            }
            "core::string::String::into_bytes" => return one(st, a[0].clone()),
            "core::str::<impl str>::into_string" | "core::slice::<impl [T]>::into_vec" => {
                let c = tri!(self.load(&mut st, &a[0], tys[0]));
                let c = match c {
                    V::Agg(0, x) => V::Seq(x),
                    o => o,
                };
                return one(st, c);
            }
            "core::str::<impl str>::into_boxed_bytes" => return one(st, a[0].clone()),
            "core::slice::<impl [T]>::to_vec" | "core::slice::<impl [T]>::to_vec_in" => {
                let e = garg(0).unwrap();
                return Some(self.copy_seq(st, "slice_to_vec", e, &a[0], tys[0]));
            }
            "core::str::<impl str>::len" => {
                let t = tri!(self.text_val(&mut st, &a[0], tys[0]));
                return one(st, V::N(len(t)));
            }
            "core::str::<impl str>::is_empty" => {
                let t = tri!(self.text_val(&mut st, &a[0], tys[0]));
                let c = eq(&st.facts, len(t), inti(0));
                return one(st, V::N(c));
            }
            "core::str::<impl str>::is_char_boundary" => {
                let t = tri!(self.text_val(&mut st, &a[0], tys[0]));
                let i = tri!(self.num(&a[1], tys[1]));
                let c = char_boundary(&st.facts, t, i);
                return one(st, V::N(c));
            }
            "core::str::<impl str>::as_bytes" | "core::str::<impl str>::as_bytes_mut" => {
                let p = tri!(self.as_ptr(&mut st, &a[0], tys[0]));
                let mut q = (*p).clone();
                q.pty = pointee(dty).unwrap();
                return one(st, V::ptr(q));
            }
            "core::str::from_utf8_unchecked"
            | "core::str::from_utf8_unchecked_mut"
            | "core::str::from_raw_parts"
            | "core::str::<impl str>::from_utf8_unchecked"
            | "core::str::converts::from_utf8_unchecked" => {
                let p = tri!(self.as_ptr(&mut st, &a[0], tys[0]));
                let mut q = (*p).clone();
                let spt = pointee(dty).unwrap();
                if n.ends_with("raw_parts") {
                    let k = tri!(self.num(&a[1], tys[1]));
                    q = tri!(self.make_slice_ptr(&mut st, &q, spt, k));
                }
                q.pty = spt;
                let v = V::ptr(q);
                let t = tri!(self.text_of(&mut st, &v, dty));
                let t = crate::check::Norm::new(&st.facts).n(t);
                if !is_text(t) {
                    return Some(Err(format!(
                        "UB: bytes that may not be whole UTF-8 characters ({}) are used as text",
                        show(t)
                    )));
                }
                return one(st, v);
            }
            "core::str::from_utf8" | "core::str::converts::from_utf8" | "core::str::<impl str>::from_utf8" => {
                let p = tri!(self.as_ptr(&mut st, &a[0], tys[0]));
                let mut q = (*p).clone();
                q.pty = tri!(self.str_ty());
                let v = V::ptr(q);
                let rt = arg_ty(dty, 0).unwrap();
                let t = tri!(self.text_of(&mut st, &v, rt));
                let t = crate::check::Norm::new(&st.facts).n(t);
                if is_text(t) {
                    return one(st, V::agg(0, vec![v]));
                }
                let c = app("utf8", vec![t]);
                bool_base(c);
                let (ok, bad) = self.split(&st, c);
                let mut out = vec![];
                if let Some(s) = ok {
                    out.push((s, V::agg(0, vec![v])));
                }
                if let Some(s) = bad {
                    out.push((s, V::agg(1, vec![V::Op(app("utf8error", vec![t]))])));
                }
                return Some(Ok(out));
            }
            "core::boxed::Box::new"
            | "core::sync::Arc::new"
            | "core::rc::Rc::new"
            | "core::boxed::box_new" => {
                let t = pointee(dty).unwrap();
                let al = self.alloc(&mut st, t, a[0].clone());
                return one(st, V::ptr(Ptr { al, path: vec![], pty: t, meta: Meta::None }));
            }
            "core::boxed::Box::into_inner" => {
                let v = tri!(self.load(&mut st, &a[0], tys[0]));
                return one(st, v);
            }
            "core::boxed::Box::leak"
            | "core::boxed::Box::into_raw"
            | "core::boxed::Box::from_raw"
            | "core::boxed::Box::into_boxed_slice"
            | "core::sync::Arc::as_ptr"
            | "core::sync::Arc::into_raw"
            | "core::sync::Arc::from_raw" => {
                if n.ends_with("into_boxed_slice") {
                    return None;
                }
                let v = if n.ends_with("as_ptr") { tri!(self.load(&mut st, &a[0], tys[0])) } else { a[0].clone() };
                return one(st, v);
            }
            "core::sync::Arc::ptr_eq" => {
                let x = tri!(self.load(&mut st, &a[0], tys[0]));
                let y = tri!(self.load(&mut st, &a[1], tys[1]));
                let t = pointee(tys[0]).unwrap();
                let r = tri!(self.binop(&mut st, rustc_public::mir::BinOp::Eq, x, t, y, t));
                return one(st, r);
            }
            "core::vec::Vec::new" | "core::vec::Vec::with_capacity" => {
                return one(st, V::Seq(Rc::new(vec![])))
            }
            "core::vec::Vec::push" => {
                let c = tri!(self.load(&mut st, &a[0], tys[0]));
                let ety = arg_ty(pointee(tys[0]).unwrap(), 0).unwrap();
                let nv = match c {
                    V::Seq(x) => {
                        let mut x = (*x).clone();
                        x.push(a[1].clone());
                        V::Seq(Rc::new(x))
                    }
                    V::Op(t) => {
                        let e = self.freeze(&mut st, &a[1], ety);
                        V::Op(app("push", vec![t, e]))
                    }
                    o => return Some(Err(format!("push onto {o:?}"))),
                };
                tri!(self.store(&mut st, &a[0], tys[0], nv));
                return one(st, V::unit());
            }
            "core::vec::Vec::extend_from_slice" => {
                let vt = pointee(tys[0]).unwrap();
                let e = arg_ty(vt, 0).unwrap();
                let c = tri!(self.load(&mut st, &a[0], tys[0]));
                if matches!(&c, V::Seq(x) if x.is_empty()) {
                    let rs = tri!(self.copy_seq(st, "slice_to_vec", e, &a[1], tys[1]));
                    let mut out = vec![];
                    for (mut s, v) in rs {
                        tri!(self.store(&mut s, &a[0], tys[0], v));
                        out.push((s, V::unit()));
                    }
                    return Some(Ok(out));
                }
                let g = vec![GenericArgKind::Type(e)];
                return Some(self.shim(st, "vec_extend_slice", g, vec![a[0].clone(), a[1].clone()]));
            }
            "core::vec::Vec::pop" => {
                let c = tri!(self.load(&mut st, &a[0], tys[0]));
                return match c {
                    V::Seq(x) => {
                        let mut x = (*x).clone();
                        let r = match x.pop() {
                            Some(v) => V::agg(1, vec![v]),
                            None => V::agg(0, vec![]),
                        };
                        tri!(self.store(&mut st, &a[0], tys[0], V::Seq(Rc::new(x))));
                        one(st, r)
                    }
                    o => Some(Err(format!("pop from {o:?}"))),
                };
            }
            "core::vec::Vec::len" => {
                let l = match tri!(self.load(&mut st, &a[0], tys[0])) {
                    V::Seq(x) | V::Agg(_, x) => inti(x.len() as i128),
                    V::Op(t) => len(t),
                    o => return Some(Err(format!("length of {o:?}"))),
                };
                return one(st, V::N(l));
            }
            "core::vec::Vec::is_empty" => {
                let l = match tri!(self.load(&mut st, &a[0], tys[0])) {
                    V::Seq(x) | V::Agg(_, x) => inti(x.len() as i128),
                    V::Op(t) => len(t),
                    o => return Some(Err(format!("length of {o:?}"))),
                };
                let c = eq(&st.facts, l, inti(0));
                return one(st, V::N(c));
            }
            "core::vec::Vec::clear" => {
                tri!(self.store(&mut st, &a[0], tys[0], V::Seq(Rc::new(vec![]))));
                return one(st, V::unit());
            }
            "core::vec::Vec::as_slice" | "core::vec::Vec::as_mut_slice" => {
                let v = tri!(self.inner_ref(&mut st, &a[0], tys[0], pointee(dty).unwrap()));
                return one(st, v);
            }
            "core::vec::Vec::into_boxed_slice" => {
                let v = self.seq_box(&mut st, a[0].clone(), pointee(dty).unwrap());
                return one(st, v);
            }
            "core::slice::<impl [T]>::iter" | "core::slice::<impl [T]>::iter_mut" => {
                let p = tri!(self.as_ptr(&mut st, &a[0], tys[0]));
                let l = match &p.meta {
                    Meta::Len(l) => *l,
                    _ => return Some(Err("slice without length".into())),
                };
                return one(st, V::agg(0, vec![V::P(p), V::int(0), V::N(l)]));
            }
            "core::slice::Iter::as_slice" => {
                let it = tri!(self.load(&mut st, &a[0], tys[0]));
                if let V::Agg(_, f) = it {
                    if let (V::P(p), V::N(lo), V::N(hi)) = (&f[0], &f[1], &f[2]) {
                        let mut q = (**p).clone();
                        if let Some(Pj::Idx(b)) = q.path.last_mut() {
                            *b = add(*b, *lo);
                        }
                        q.meta = Meta::Len(sub(*hi, *lo));
                        return one(st, V::ptr(q));
                    }
                }
                return Some(Err("slice iterator".into()));
            }
            // ---- formatting ----
            "core::fmt::Arguments::new" => {
                let t = tri!(self.load(&mut st, &a[0], tys[0]));
                let ar = tri!(self.load(&mut st, &a[1], tys[1]));
                return one(st, V::agg(0, vec![t, ar]));
            }
            "core::fmt::Arguments::from_str" | "core::fmt::Arguments::from_str_nonconst" => {
                let t = tri!(self.text_val(&mut st, &a[0], tys[0]));
                return one(st, V::agg(0, vec![V::Op(t), V::Undef]));
            }
            "core::fmt::Arguments::estimated_capacity" => return one(st, V::int(0)),
            "core::fmt::Arguments::as_str" | "core::fmt::Arguments::as_statically_known_str" => {
                let ar = tri!(self.load_or(&mut st, &a[0], tys[0]));
                let ps = tri!(self.pieces(&mut st, &ar));
                if let [Piece::Lit(t)] = ps[..] {
                    if n.ends_with("as_str") {
                        let sty = tri!(self.str_ty());
                        let s = self.str_ref(&mut st, t, sty);
                        return one(st, V::agg(1, vec![s]));
                    }
                }
                return one(st, V::agg(0, vec![]));
            }
            "core::fmt::FormattingOptions::new" => return one(st, V::Op(sym("opts_default"))),
            "core::fmt::Formatter::new" => {
                return one(st, V::agg(0, vec![a[1].clone(), a[0].clone()]))
            }
            "core::fmt::format" | "core::fmt::format::format_inner" => {
                let sh = if n.ends_with("inner") || n == "core::fmt::format" { "fmt_format" } else { "" };
                return Some(self.shim(st, sh, vec![], vec![a[0].clone()]));
            }
            "core::fmt::write" => {
                let fty = tri!(self.formatter_ty());
                return Some(self.write_args(st, Target::Writer(a[0].clone()), &a[1], dty, fty));
            }
            "core::fmt::rt::Argument::from_usize" => {
                let x = tri!(self.load(&mut st, &a[0], tys[0]));
                return one(st, V::agg(0, vec![x]));
            }
            _ => {}
        }
        if let Some(k) = n.strip_prefix("core::fmt::rt::Argument::new_") {
            let t = garg(0).unwrap();
            let d = match self.shims.get(&format!("fmt_{k}")) {
                Some(d) => *d,
                None => return Some(Err(format!("format trait {k}"))),
            };
            let i = tri!(Instance::resolve(d, &GenericArgs(vec![ga(t)])).map_err(|e| format!("{e:?}")));
            return one(st, V::agg(0, vec![a[0].clone(), V::Fn(i)]));
        }
        if n.starts_with("core::fmt::Formatter::")
            || (sty.map(is_formatter).unwrap_or(false) && tn.starts_with("core::fmt::Write::"))
        {
            let m = n.rsplit("::").next().unwrap();
            return self.formatter(st, m, a, tys, dty);
        }
        for b in ["DebugList", "DebugStruct", "DebugTuple", "DebugSet", "DebugMap"] {
            if n.starts_with(&format!("core::fmt::{b}::")) || n.starts_with(&format!("core::fmt::builders::{b}::")) {
                let m = n.rsplit("::").next().unwrap();
                let sh = match (b, m) {
                    ("DebugList", "entries") => "list_entries",
                    ("DebugSet", "entries") => "set_entries",
                    ("DebugMap", "entries") => "map_entries",
                    _ => return self.builder(st, b, m, a, tys, dty),
                };
                let (_, g) = orig?;
                let ts: Vec<GenericArgKind> = g.0.iter().filter(|x| x.ty().is_some()).cloned().collect();
                return Some(self.shim(st, sh, ts, a.to_vec()));
            }
        }

        // ---- trait methods ----
        let s = match sty {
            Some(s) => s,
            None => return None,
        };
        match tn {
            "core::ops::Deref::deref"
            | "core::ops::DerefMut::deref_mut"
            | "core::convert::AsRef::as_ref"
            | "core::convert::AsMut::as_mut"
            | "core::borrow::Borrow::borrow"
            | "core::borrow::BorrowMut::borrow_mut" => {
                let to = pointee(dty)?;
                if same_ty(s, to) && !is_ptr_adt(s) {
                    return one(st, a[0].clone());
                }
                if is_string(s) || is_vec(s) {
                    let v = tri!(self.inner_ref(&mut st, &a[0], tys[0], to));
                    return one(st, v);
                }
                if is_str(s) && slice_elem(to).is_some() {
                    let p = tri!(self.as_ptr(&mut st, &a[0], tys[0]));
                    let mut q = (*p).clone();
                    q.pty = to;
                    return one(st, V::ptr(q));
                }
                if is_ptr_adt(s) && pointee(s).map(|p| same_ty(p, to)).unwrap_or(false) {
                    let v = tri!(self.load(&mut st, &a[0], tys[0]));
                    return one(st, v);
                }
                None
            }
            "core::clone::Clone::clone" => {
                if is_string(s) {
                    let v = tri!(self.load(&mut st, &a[0], tys[0]));
                    return one(st, v);
                }
                if is_vec(s) {
                    let e = arg_ty(s, 0).unwrap();
                    return Some(self.copy_seq(st, "vec_clone", e, &a[0], tys[0]));
                }
                if is_ptr_adt(s) {
                    let p = adt_path(s);
                    let v = tri!(self.load(&mut st, &a[0], tys[0]));
                    if !p.ends_with("::Box") {
                        return one(st, v);
                    }
                    let t = pointee(s).unwrap();
                    if is_str(t) {
                        let x = tri!(self.text_val(&mut st, &v, s));
                        let b = self.text_box(&mut st, x, s);
                        return one(st, b);
                    }
                    if let Some(e) = slice_elem(t) {
                        return Some(self.shim(st, "box_slice_clone", vec![ga(e)], vec![a[0].clone()]));
                    }
                    if !is_dyn(t) {
                        return Some(self.shim(st, "box_clone", vec![ga(t)], vec![a[0].clone()]));
                    }
                }
                if self.is_slice_iter(s) {
                    let v = tri!(self.load(&mut st, &a[0], tys[0]));
                    return one(st, v);
                }
                if let Some(_) = array_elem(s) {
                    return None;
                }
                None
            }
            "core::fmt::Debug::fmt" | "core::fmt::Display::fmt" if is_ptr_adt(s) && !adt_path(s).contains("::ptr::") => {
                let v = tri!(self.load(&mut st, &a[0], tys[0]));
                let sh = if tn.contains("Debug") { "fmt_debug" } else { "fmt_display" };
                return Some(self.shim(st, sh, vec![ga(pointee(s).unwrap())], vec![v, a[1].clone()]));
            }
            "core::default::Default::default" => {
                if is_string(s) {
                    return one(st, V::Op(strc("")));
                }
                if is_vec(s) {
                    return one(st, V::Seq(Rc::new(vec![])));
                }
                None
            }
            "core::borrow::ToOwned::to_owned" => {
                if is_str(s) {
                    let t = tri!(self.text_val(&mut st, &a[0], tys[0]));
                    return one(st, V::Op(t));
                }
                if let Some(e) = slice_elem(s) {
                    return Some(self.copy_seq(st, "slice_to_vec", e, &a[0], tys[0]));
                }
                None
            }
            "core::string::ToString::to_string" => {
                if is_str(s) || is_string(s) {
                    let t = tri!(self.text_val(&mut st, &a[0], tys[0]));
                    return one(st, V::Op(t));
                }
                Some(self.shim(st, "to_string", vec![ga(s)], vec![a[0].clone()]))
            }
            "core::convert::From::from" => {
                if (is_string(dty) || (is_ptr_adt(dty) && is_str(pointee(dty).unwrap()))) && self.has_text(tys[0]) {
                    let t = tri!(self.text_val(&mut st, &a[0], tys[0]));
                    let v = if is_string(dty) { V::Op(t) } else { self.text_box(&mut st, t, dty) };
                    return one(st, v);
                }
                if path_is(tys[0], "core::borrow::Cow") && is_string(dty) {
                    return Some(self.shim(st, "cow_into_string", vec![], vec![a[0].clone()]));
                }
                if path_is(tys[0], "core::borrow::Cow") && is_ptr_adt(dty) && is_str(pointee(dty).unwrap()) {
                    return Some(self.shim(st, "cow_into_box", vec![], vec![a[0].clone()]));
                }
                if is_string(dty) && matches!(&*kind(tys[0]), RigidTy::Char) {
                    let c = tri!(self.num(&a[0], tys[0]));
                    return one(st, V::Op(char_text(c)));
                }
                if is_ptr_adt(dty) {
                    let to = pointee(dty).unwrap();
                    if is_ptr_adt(tys[0]) && same_ty(pointee(tys[0]).unwrap(), to) {
                        return one(st, a[0].clone());
                    }
                    if same_ty(tys[0], to) {
                        let al = self.alloc(&mut st, to, a[0].clone());
                        return one(st, V::ptr(Ptr { al, path: vec![], pty: to, meta: Meta::None }));
                    }
                    if slice_elem(to).is_some() && is_vec(tys[0]) {
                        let v = self.seq_box(&mut st, a[0].clone(), to);
                        return one(st, v);
                    }
                    if let (Some(e), Some(p)) = (slice_elem(to), pointee(tys[0])) {
                        if slice_elem(p).is_some() {
                            return Some(self.shim(st, "slice_to_box", vec![ga(e)], vec![a[0].clone()]));
                        }
                    }
                    if is_dyn(to) && self.has_text(tys[0]) {
                        // boxed string error
                        let t = tri!(self.text_val(&mut st, &a[0], tys[0]));
                        return Some(self.shim(st, "text_error", vec![], vec![V::Op(t)]));
                    }
                }
                if is_vec(dty) {
                    if is_ptr_adt(tys[0]) {
                        let c = tri!(self.load(&mut st, &a[0], tys[0]));
                        let c = match c {
                            V::Agg(0, x) => V::Seq(x),
                            o => o,
                        };
                        return one(st, c);
                    }
                    if array_elem(tys[0]).is_some() {
                        if let V::Agg(0, x) = &a[0] {
                            return one(st, V::Seq(x.clone()));
                        }
                    }
                    if let Some(p) = pointee(tys[0]) {
                        if slice_elem(p).is_some() {
                            let e = arg_ty(dty, 0).unwrap();
                            return Some(self.copy_seq(st, "slice_to_vec", e, &a[0], tys[0]));
                        }
                    }
                }
                None
            }
            "core::cmp::PartialEq::eq" | "core::cmp::PartialEq::ne" => {
                let (l, r) = (pointee(tys[0])?, pointee(tys[1])?);
                if self.has_text(l) && self.has_text(r) {
                    let x = tri!(self.text_val(&mut st, &a[0], tys[0]));
                    let y = tri!(self.text_val(&mut st, &a[1], tys[1]));
                    let c = text_eq(x, y);
                    return one(st, V::N(if tn.ends_with("ne") { not(c) } else { c }));
                }
                None
            }
            "core::fmt::Write::write_str" if is_string(s) => {
                let t = tri!(self.text_val(&mut st, &a[0], tys[0]));
                let x = tri!(self.text_val(&mut st, &a[1], tys[1]));
                tri!(self.store(&mut st, &a[0], tys[0], V::Op(concat(t, x))));
                let ok = self.fmt_ok();
                one(st, ok)
            }
            "core::fmt::Write::write_char" if is_string(s) => {
                let t = tri!(self.text_val(&mut st, &a[0], tys[0]));
                let c = tri!(self.num(&a[1], tys[1]));
                tri!(self.store(&mut st, &a[0], tys[0], V::Op(concat(t, char_text(c)))));
                let ok = self.fmt_ok();
                one(st, ok)
            }
            "core::fmt::Write::write_char" if n == tn => {
                // default method: encode and forward
                let c = tri!(self.num(&a[1], tys[1]));
                let sty = tri!(self.str_ty());
                let x = self.str_ref(&mut st, char_text(c), sty);
                Some(self.shim(st, "t_write_str", vec![ga(s)], vec![a[0].clone(), x]))
            }
            "core::fmt::Write::write_fmt" if !is_formatter(s) => {
                if let RigidTy::Ref(..) = &*kind(s) {
                    return None;
                }
                let fty = tri!(self.formatter_ty());
                let w = match self.load(&mut st, &a[0], tys[0]) {
                    _ if is_dyn(s) => a[0].clone(),
                    _ => {
                        let p = tri!(self.as_ptr(&mut st, &a[0], tys[0]));
                        let mut q = (*p).clone();
                        q.meta = Meta::Vt(s);
                        V::ptr(q)
                    }
                };
                Some(self.write_args(st, Target::Writer(w), &a[1], dty, fty))
            }
            "core::fmt::Display::fmt"
            | "core::fmt::Debug::fmt"
            | "core::fmt::LowerHex::fmt"
            | "core::fmt::UpperHex::fmt"
            | "core::fmt::LowerExp::fmt"
            | "core::fmt::UpperExp::fmt"
            | "core::fmt::Octal::fmt"
            | "core::fmt::Binary::fmt" => {
                let tr = tn.split("::").nth(2).unwrap();
                if path_is(s, "core::fmt::Arguments") {
                    let ar = tri!(self.load(&mut st, &a[0], tys[0]));
                    return self.formatter_write_fmt(st, &a[1], tys[1], &ar, dty);
                }
                if let (Some(e), "Debug") = (slice_elem(s), tr) {
                    return Some(self.shim(st, "slice_debug", vec![ga(e)], a.to_vec()));
                }
                if path_is(s, "core::fmt::Error") {
                    if tr == "Display" {
                        return Some(self.fmt_prim(
                            st,
                            "Display",
                            "str",
                            strc("an error occurred when formatting an argument"),
                            &a[1],
                            tys[1],
                        ));
                    }
                    return Some(self.fmt_text(st, &a[1], tys[1], strc("Error")));
                }
                let x = if is_str(s) || is_string(s) {
                    Some(("str".to_string(), tri!(self.text_val(&mut st, &a[0], tys[0]))))
                } else if int_info(s).is_some() {
                    let v = tri!(self.load(&mut st, &a[0], tys[0]));
                    let t = tri!(self.num(&v, s));
                    let t = self.simp(&st, t);
                    let k = match &*kind(s) {
                        RigidTy::Bool => "bool",
                        RigidTy::Char => "char",
                        _ => "int",
                    };
                    // hex and binary forms depend on the width of negative numbers
                    let k = if k == "int" && tr != "Display" && tr != "Debug" {
                        tname(s).to_string()
                    } else {
                        k.to_string()
                    };
                    Some((k, t))
                } else if is_float(s).is_some() {
                    let v = tri!(self.load(&mut st, &a[0], tys[0]));
                    let t = tri!(self.flt_of(&v));
                    Some((tname(s).to_string(), t))
                } else if let RigidTy::Tuple(ts) = &*kind(s) {
                    if ts.is_empty() {
                        Some(("unit".into(), inti(0)))
                    } else {
                        None
                    }
                } else {
                    None
                };
                match x {
                    Some((k, t)) => {
                        // integer Debug and Display coincide unless hex flags are set
                        Some(self.fmt_prim(st, tr, &k, t, &a[1], tys[1]))
                    }
                    None => {
                        if path_is(s, "core::num::TryFromIntError")
                            || path_is(s, "core::any::TypeId")
                            || path_is(s, "core::str::Utf8Error")
                            || path_is(s, "core::io::Error")
                        {
                            return self.opaque_call(st, tn, a, tys, dty);
                        }
                        None
                    }
                }
            }
            "core::iter::Iterator::next" | "core::iter::DoubleEndedIterator::next_back" => {
                if self.is_slice_iter(s) || self.is_into_iter(s) {
                    let it = tri!(self.load(&mut st, &a[0], tys[0]));
                    let f = match it {
                        V::Agg(_, f) if f.len() == 3 => f,
                        o => return Some(Err(format!("iterator {o:?}"))),
                    };
                    let (p, lo, hi) = match (&f[0], &f[1], &f[2]) {
                        (V::P(p), V::N(lo), V::N(hi)) => (p.clone(), *lo, *hi),
                        _ => return Some(Err("iterator".into())),
                    };
                    let c = lt(&st.facts, lo, hi);
                    let (some, none) = self.split(&st, c);
                    let mut out = vec![];
                    if let Some(mut s1) = some {
                        let back = tn.ends_with("back");
                        let ix = if back { add_c(hi, -1) } else { lo };
                        let mut q = (*p).clone();
                        match q.path.last_mut() {
                            Some(Pj::Idx(b)) => *b = add(*b, ix),
                            _ => return Some(Err("iterator over a non-sequence".into())),
                        }
                        let ety = match slice_elem(q.pty) {
                            Some(e) => e,
                            None => return Some(Err("iterator element".into())),
                        };
                        q.pty = ety;
                        q.meta = Meta::None;
                        let item = if self.is_slice_iter(s) {
                            V::ptr(q)
                        } else {
                            tri!(self.read(
                                &mut s1,
                                &Pl { al: q.al, path: q.path.clone(), ty: ety, meta: Meta::None, variant: None }
                            ))
                        };
                        let nit = if back {
                            V::agg(0, vec![V::P(p.clone()), V::N(lo), V::N(add_c(hi, -1))])
                        } else {
                            V::agg(0, vec![V::P(p.clone()), V::N(add_c(lo, 1)), V::N(hi)])
                        };
                        tri!(self.store(&mut s1, &a[0], tys[0], nit));
                        out.push((s1, V::agg(1, vec![item])));
                    }
                    if let Some(s0) = none {
                        out.push((s0, V::agg(0, vec![])));
                    }
                    return Some(Ok(out));
                }
                None
            }
            "core::iter::IntoIterator::into_iter" => {
                if let RigidTy::Ref(_, t, _) = &*kind(s) {
                    let t = *t;
                    let (v, l) = if is_vec(t) {
                        let sl = Ty::from_rigid_kind(RigidTy::Slice(arg_ty(t, 0).unwrap()));
                        let v = tri!(self.inner_ref(&mut st, &a[0], tys[0], sl));
                        let l = match &v {
                            V::P(p) => p.meta.clone(),
                            _ => Meta::None,
                        };
                        (v, l)
                    } else if slice_elem(t).is_some() {
                        let p = tri!(self.as_ptr(&mut st, &a[0], tys[0]));
                        let l = p.meta.clone();
                        (V::P(p), l)
                    } else if let Some((e, k)) = array_elem(t) {
                        let p = tri!(self.as_ptr(&mut st, &a[0], tys[0]));
                        let mut q = (*p).clone();
                        let (mut path, _) = tri!(self.reconcile(q.path.clone(), q.pty, t));
                        path.push(Pj::Idx(inti(0)));
                        q.path = path;
                        q.pty = Ty::from_rigid_kind(RigidTy::Slice(e));
                        q.meta = Meta::Len(inti(k as i128));
                        let l = q.meta.clone();
                        (V::ptr(q), l)
                    } else {
                        return None;
                    };
                    return match l {
                        Meta::Len(l) => one(st, V::agg(0, vec![v, V::int(0), V::N(l)])),
                        _ => Some(Err("slice without length".into())),
                    };
                }
                if is_vec(s) {
                    let st_ty = Ty::from_rigid_kind(RigidTy::Slice(arg_ty(s, 0).unwrap()));
                    let p = self.seq_box(&mut st, a[0].clone(), st_ty);
                    let l = match &p {
                        V::P(q) => match &q.meta {
                            Meta::Len(l) => *l,
                            _ => inti(0),
                        },
                        _ => inti(0),
                    };
                    return one(st, V::agg(0, vec![p, V::int(0), V::N(l)]));
                }
                if let Some((e, k)) = array_elem(s) {
                    let st_ty = Ty::from_rigid_kind(RigidTy::Slice(e));
                    let al = self.alloc(&mut st, st_ty, a[0].clone());
                    let p = V::ptr(Ptr {
                        al,
                        path: vec![Pj::Idx(inti(0))],
                        pty: st_ty,
                        meta: Meta::Len(inti(k as i128)),
                    });
                    return one(st, V::agg(0, vec![p, V::int(0), V::int(k as i128)]));
                }
                None
            }
            "core::iter::Iterator::size_hint" | "core::iter::ExactSizeIterator::len" => {
                if self.is_slice_iter(s) || self.is_into_iter(s) {
                    let it = tri!(self.load(&mut st, &a[0], tys[0]));
                    if let V::Agg(_, f) = it {
                        let (lo, hi) = (tri!(self.num(&f[1], Ty::usize_ty())), tri!(self.num(&f[2], Ty::usize_ty())));
                        let d = sub(hi, lo);
                        return one(
                            st,
                            if tn.ends_with("len") {
                                V::N(d)
                            } else {
                                V::agg(0, vec![V::N(d), V::agg(1, vec![V::N(d)])])
                            },
                        );
                    }
                }
                None
            }
            "core::iter::Extend::extend" => {
                if is_vec(s) {
                    let (_, g) = orig?;
                    let ts: Vec<Ty> = g.0.iter().filter_map(|x| x.ty().copied()).collect();
                    return Some(self.shim(st, "vec_extend", vec![ga(arg_ty(s, 0).unwrap()), ga(ts[1]), ga(ts[2])], a.to_vec()));
                }
                None
            }
            "core::iter::FromIterator::from_iter" => {
                if is_vec(s) {
                    let (_, g) = orig?;
                    let ts: Vec<Ty> = g.0.iter().filter_map(|x| x.ty().copied()).collect();
                    return Some(self.shim(st, "vec_from_iter", vec![ga(ts[1]), ga(ts[2])], a.to_vec()));
                }
                None
            }
            _ => {
                if let Some(m) = tn.strip_prefix("core::iter::Iterator::") {
                    if self.is_slice_iter(s) || self.is_into_iter(s) {
                        let sh = format!("iter_{m}");
                        if self.shims.contains_key(&sh) {
                            let (_, g) = orig?;
                            let ts: Vec<GenericArgKind> =
                                g.0.iter().filter(|x| x.ty().is_some()).cloned().collect();
                            return Some(self.shim(st, &sh, ts, a.to_vec()));
                        }
                    }
                }
                if tn == "core::ops::IndexMut::index_mut" && pointee(tys[0]).is_some_and(is_vec) {
                    return self.str_index(st, a, tys, tn);
                }
                if tn == "core::ops::Index::index" || tn == "core::slice::SliceIndex::index" {
                    return self.str_index(st, a, tys, tn);
                }
                None
            }
        }
    }

    /// A vector of the elements of a slice or vector.
    fn copy_seq(&mut self, mut st: St, shim: &str, e: Ty, v: &V, ty: Ty) -> R<Rs> {
        if e.kind().is_integral() || e.kind().is_bool() || e.kind().is_char() || e.kind().is_float() {
            match self.load(&mut st, v, ty)? {
                V::Agg(_, x) | V::Seq(x) => return Ok(vec![(st, V::Seq(x))]),
                V::Op(t) => return Ok(vec![(st, V::Op(t))]),
                _ => {}
            }
        }
        self.shim(st, shim, vec![GenericArgKind::Type(e)], vec![v.clone()])
    }

    /// Range indexing of text.
    fn str_index(&mut self, mut st: St, a: &[V], tys: &[Ty], tn: &str) -> Option<R<Rs>> {
        let (xi, ri) = if tn.starts_with("core::ops") { (0, 1) } else { (1, 0) };
        let xt = pointee(tys[xi])?;
        let rn = adt_path(tys[ri]).to_string();
        if rn.ends_with("::RangeFull") && is_vec(xt) {
            let e = tri!(arg_ty(xt, 0).ok_or("element type".to_string()));
            let to = Ty::from_rigid_kind(RigidTy::Slice(e));
            let v = tri!(self.inner_ref(&mut st, &a[xi], tys[xi], to));
            return one(st, v);
        }
        if is_vec(xt) {
            let e = tri!(arg_ty(xt, 0).ok_or("element type".to_string()));
            let to = Ty::from_rigid_kind(RigidTy::Slice(e));
            let v = tri!(self.inner_ref(&mut st, &a[xi], tys[xi], to));
            let sh = if tn.ends_with("_mut") { "vec_index_mut" } else { "vec_index" };
            let g = vec![GenericArgKind::Type(e), GenericArgKind::Type(tys[ri])];
            return Some(self.shim(st, sh, g, vec![v, a[ri].clone()]));
        }
        if !is_str(xt) && !is_string(xt) {
            return None;
        }
        let t = tri!(self.text_val(&mut st, &a[xi], tys[xi]));
        let f = |i: usize| -> R<T> {
            match &a[ri] {
                V::Agg(_, f) => match &f[i] {
                    V::N(t) => Ok(*t),
                    _ => Err("range bound".into()),
                },
                V::N(t) if i == 0 => Ok(*t),
                V::Op(t) => Ok(fterm(*t, 0, i as u32, false)),
                _ => Err("range bound".into()),
            }
        };
        let (lo, hi) = if rn.ends_with("::RangeTo") {
            (inti(0), tri!(f(0)))
        } else if rn.ends_with("::RangeFrom") {
            (tri!(f(0)), len(t))
        } else if rn.ends_with("::RangeFull") {
            (inti(0), len(t))
        } else if rn.ends_with("::Range") {
            (tri!(f(0)), tri!(f(1)))
        } else {
            return Some(Err(format!("text index by {rn}")));
        };
        let p = {
            let v = if is_string(xt) {
                let sty = tri!(self.str_ty());
                tri!(self.inner_ref(&mut st, &a[xi], tys[xi], sty))
            } else {
                a[xi].clone()
            };
            let vt = if is_string(xt) {
                Ty::new_ref_like(tys[xi], tri!(self.str_ty()))
            } else {
                tys[xi]
            };
            tri!(self.as_ptr(&mut st, &v, vt))
        };
        let mut cur = st;
        let conds: Vec<T> = vec![
            le(&cur.facts, lo, hi),
            le(&cur.facts, hi, len(t)),
            char_boundary(&cur.facts, t, lo),
            char_boundary(&cur.facts, t, hi),
        ];
        for c in conds {
            let (ok, bad) = self.split(&cur, c);
            if let Some(b) = bad {
                self.fail(&b, "PANIC: text index out of bounds or inside a character".into());
            }
            cur = match ok {
                Some(s) => s,
                None => return Some(Ok(vec![])),
            };
        }
        let mut q = (*p).clone();
        if let Some(Pj::Idx(b)) = q.path.last_mut() {
            *b = add(*b, lo);
        }
        q.meta = Meta::Len(sub(hi, lo));
        one(cur, V::ptr(q))
    }

    pub fn fresh(&mut self, st: &St, what: &str) -> T {
        let t = app(&format!("any:{what}"), vec![inti(st.evs.len() as i128)]);
        set_base(t, Ivs::range(Z::ZERO, isize_max()));
        t
    }

    fn load_or(&mut self, st: &mut St, v: &V, ty: Ty) -> R<V> {
        if pointee(ty).is_some() {
            self.load(st, v, ty)
        } else {
            Ok(v.clone())
        }
    }

    pub fn formatter_ty(&mut self) -> R<Ty> {
        // `fn fmt_ty(f: &mut Formatter<'_>)`
        let d = *self.shims.get("fmt_ty").ok_or("no shim fmt_ty")?;
        let i = Instance::resolve(d, &GenericArgs(vec![])).map_err(|e| format!("{e:?}"))?;
        let b = self.body(i).ok_or("fmt_ty")?;
        Ok(pointee(b.body.arg_locals()[0].ty).unwrap())
    }

    /// A fresh allocation for an owned sequence, as a pointer to `[T]`.
    pub fn seq_box(&mut self, st: &mut St, v: V, slice: Ty) -> V {
        let (v, l) = match v {
            V::Seq(x) | V::Agg(_, x) => {
                let l = inti(x.len() as i128);
                (V::Agg(0, x), l)
            }
            V::Op(t) => (V::Op(t), len(t)),
            o => (o, inti(0)),
        };
        let al = self.alloc(st, slice, v);
        V::ptr(Ptr { al, path: vec![Pj::Idx(inti(0))], pty: slice, meta: Meta::Len(l) })
    }

    /// A library call treated as an event with an unknown result.
    /// Functions of the standard library without side effects whose result is
    /// only known to depend on their arguments.
    fn uninterpreted(
        &mut self,
        st: &St,
        n: &str,
        tn: &str,
        sty: Option<Ty>,
        a: &[V],
        tys: &[Ty],
        dty: Ty,
    ) -> Option<R<Rs>> {
        let last = n.rsplit("::").next().unwrap();
        let pure = if n.starts_with("core::str::<impl str>::") {
            matches!(
                last,
                "trim" | "trim_start" | "trim_end" | "trim_matches" | "trim_start_matches" | "trim_end_matches"
                    | "trim_left" | "trim_right" | "find" | "rfind" | "contains" | "starts_with" | "ends_with"
                    | "strip_prefix" | "strip_suffix" | "to_lowercase" | "to_uppercase" | "to_ascii_lowercase"
                    | "to_ascii_uppercase" | "eq_ignore_ascii_case" | "is_ascii" | "replace" | "replacen" | "repeat"
                    | "split_once" | "rsplit_once"
            )
        } else if n == "core::str::count::count_chars" || n.starts_with("core::num::imp::libm::") {
            true
        } else if tn == "core::str::FromStr::from_str" {
            sty.is_some_and(|s| {
                is_float(s).is_some() || matches!(&*kind(s), RigidTy::Char | RigidTy::Bool)
            })
        } else {
            false
        };
        if pure {
            if a.iter().any(|v| matches!(v, V::Fn(_))) || tys.iter().any(|t| matches!(&*kind(*t), RigidTy::Closure(..))) {
                return Some(Err(format!("{n} with a function")));
            }
            let mut st = st.clone();
            let at: Vec<T> = a.iter().zip(tys).map(|(v, t)| self.freeze(&mut st, v, *t)).collect();
            if last == "contains" && self.has_text(tys[1]) {
                let text = tri!(self.text_val(&mut st, &a[0], tys[0]));
                let part = tri!(self.text_val(&mut st, &a[1], tys[1]));
                if contains_part(text, part) {
                    return one(st, V::int(1));
                }
            }
            let name = if tn.is_empty() { n } else { tn };
            let r = app(&format!("pure:{name}:{}", dty), at);
            let v = tri!(self.typed(&st, V::Op(r), dty));
            return one(st, v);
        }
        if matches!(tn, "core::iter::Iterator::next" | "core::iter::DoubleEndedIterator::next_back")
            && sty.is_some_and(|s| path_is(s, "core::str::Chars") || path_is(s, "core::str::iter::Chars"))
        {
            return self.next_char(st.clone(), tn.ends_with("back"), a, tys);
        }
        if n == "core::str::<impl str>::chars" {
            let mut st = st.clone();
            let p = tri!(self.as_ptr(&mut st, &a[0], tys[0]));
            let mut q = (*p).clone();
            q.pty = tri!(self.bytes_ty());
            let l = match &p.meta {
                Meta::Len(l) => *l,
                _ => return Some(Err("text without length".into())),
            };
            return one(st, V::agg(0, vec![V::agg(0, vec![V::ptr(q), V::int(0), V::N(l)])]));
        }
        if tn == "core::iter::Iterator::count"
            && sty.is_some_and(|s| path_is(s, "core::str::Chars") || path_is(s, "core::str::iter::Chars"))
        {
            let mut st = st.clone();
            let (p, lo, hi) = match chars_state(&a[0]) {
                Some(x) => x,
                None => return Some(Err(format!("characters of {:?}", a[0]))),
            };
            let text = tri!(self.chars_text(&mut st, &p, lo, hi));
            let k = app("char_count", vec![text]);
            let l = sub(hi, lo);
            set_base(k, Ivs::range(Z::ZERO, Z::u(1 << 47)));
            let mut out = vec![];
            let c = eq(&st.facts, l, inti(0));
            let (none, some) = self.split(&st, c);
            if let Some(s) = none {
                out.push((s, V::int(0)));
            }
            if let Some(mut s) = some {
                let pos = Ivs::range(Z::ZERO, Z::max());
                if s.facts.assume(add_c(k, -1), &pos) && s.facts.assume(sub(l, k), &pos) {
                    out.push((s, V::N(k)));
                }
            }
            return Some(Ok(out));
        }
        if n == "core::str::Chars::as_str" || n == "core::str::iter::Chars::as_str" {
            let mut st = st.clone();
            let it = tri!(self.load(&mut st, &a[0], tys[0]));
            if let Some((p, lo, hi)) = chars_state(&it) {
                let mut q = (*p).clone();
                if let Some(Pj::Idx(b)) = q.path.last_mut() {
                    *b = add(*b, lo);
                }
                q.pty = tri!(self.str_ty());
                q.meta = Meta::Len(sub(hi, lo));
                return one(st, V::ptr(q));
            }
            return Some(Err(format!("characters of {it:?}")));
        }
        None
    }

    fn chars_text(&mut self, st: &mut St, p: &Rc<Ptr>, lo: T, hi: T) -> R<T> {
        let mut q = (**p).clone();
        if let Some(Pj::Idx(b)) = q.path.last_mut() {
            *b = add(*b, lo);
        }
        q.pty = self.str_ty()?;
        q.meta = Meta::Len(sub(hi, lo));
        let sref = Ty::new_ref(
            rustc_public::ty::Region { kind: rustc_public::ty::RegionKind::ReErased },
            q.pty,
            rustc_public::mir::Mutability::Not,
        );
        Ok(self.freeze(st, &V::ptr(q), sref))
    }

    fn next_char(&mut self, mut st: St, back: bool, a: &[V], tys: &[Ty]) -> Option<R<Rs>> {
        let it = tri!(self.load(&mut st, &a[0], tys[0]));
        let (p, lo, hi) = match chars_state(&it) {
            Some(x) => x,
            None => return Some(Err(format!("characters of {it:?}"))),
        };
        let text = tri!(self.chars_text(&mut st, &p, lo, hi));
        let c = lt(&st.facts, lo, hi);
        let (some, none) = self.split(&st, c);
        let mut out = vec![];
        if let Some(mut s1) = some {
            let ch = app(if back { "last_char" } else { "first_char" }, vec![text]);
            let ct = Ty::from_rigid_kind(RigidTy::Char);
            let item = tri!(self.typed(&s1, V::Op(ch), ct));
            let w = app("char_width", vec![ch]);
            set_base(w, Ivs::range(Z::ONE, Z::u(4)));
            if s1.facts.assume(sub(sub(hi, lo), w), &Ivs::range(Z::ZERO, Z::max())) {
                let (lo, hi) = if back { (lo, sub(hi, w)) } else { (add(lo, w), hi) };
                let inner = V::agg(0, vec![V::P(p.clone()), V::N(lo), V::N(hi)]);
                let nit = match &it {
                    V::Agg(_, f) if f.len() == 1 => V::agg(0, vec![inner]),
                    _ => inner,
                };
                tri!(self.store(&mut s1, &a[0], tys[0], nit));
                out.push((s1, V::agg(1, vec![item])));
            }
        }
        if let Some(s1) = none {
            out.push((s1, V::agg(0, vec![])));
        }
        Some(Ok(out))
    }

    pub fn opaque_call(&mut self, mut st: St, n: &str, a: &[V], tys: &[Ty], dty: Ty) -> Option<R<Rs>> {
        let mut at = vec![];
        for (v, t) in a.iter().zip(tys) {
            at.push(self.freeze(&mut st, v, *t));
        }
        let r = self.event(&mut st, &format!("ext {n}"), at);
        let v = tri!(self.typed(&st, V::Op(r), dty));
        let v = if is_zst(dty) { self.zst(dty).unwrap_or(v) } else { v };
        one(st, v)
    }

    fn formatter_write_fmt(&mut self, mut st: St, f: &V, fty: Ty, ar: &V, dty: Ty) -> Option<R<Rs>> {
        let ft = tri!(self.formatter_ty());
        let tg = match tri!(self.fmt_state(&mut st, f, fty)) {
            Fm::Opaque(o) => Target::Opaque(o),
            Fm::Conc(_, w) => Target::Writer(w),
        };
        Some(self.write_args(st, tg, ar, dty, ft))
    }

    fn formatter(&mut self, mut st: St, m: &str, a: &[V], tys: &[Ty], dty: Ty) -> Option<R<Rs>> {
        match m {
            "write_str" => {
                let t = tri!(self.text_val(&mut st, &a[1], tys[1]));
                Some(self.fmt_text(st, &a[0], tys[0], t))
            }
            "write_char" => {
                let c = tri!(self.num(&a[1], tys[1]));
                Some(self.fmt_text(st, &a[0], tys[0], char_text(c)))
            }
            "pad" => {
                let t = tri!(self.text_val(&mut st, &a[1], tys[1]));
                Some(self.fmt_prim(st, "Display", "str", t, &a[0], tys[0]))
            }
            "write_fmt" => self.formatter_write_fmt(st, &a[0], tys[0], &a[1], dty),
            "debug_list" | "debug_set" | "debug_map" | "debug_struct" | "debug_tuple" => {
                let mut at = vec![];
                if let Some(x) = a.get(1) {
                    at.push(tri!(self.text_val(&mut st, x, tys[1])));
                }
                match tri!(self.fmt_state(&mut st, &a[0], tys[0])) {
                    Fm::Opaque(o) => {
                        at.insert(0, o);
                        let r = self.event(&mut st, &format!("fmt.{m}"), at);
                        let v = V::agg(0, vec![a[0].clone(), V::Undef, V::Op(r)]);
                        one(st, V::agg(0, vec![v]))
                    }
                    Fm::Conc(..) if m != "debug_list" => {
                        let _ = self.event(&mut st, &format!("fmt.{m}"), at);
                        let r = V::Op(sym("list_result"));
                        one(st, V::agg(0, vec![V::agg(0, vec![a[0].clone(), r, V::int(0)])]))
                    }
                    Fm::Conc(..) => {
                        // builder: formatter, result, entries so far
                        let rs = tri!(self.fmt_text(st, &a[0], tys[0], strc("[")));
                        let sure = rs.len() == 1 && rs[0].1 == self.fmt_ok();
                        let mut out = vec![];
                        for (mut s, r) in rs {
                            if !sure {
                                tri!(self.list_ret(&mut s, &r));
                            }
                            let r = if sure { r } else { V::Op(sym("list_result")) };
                            out.push((s, V::agg(0, vec![V::agg(0, vec![a[0].clone(), r, V::int(0)])])));
                        }
                        Some(Ok(out))
                    }
                }
            }
            "alternate" | "sign_plus" | "sign_minus" | "sign_aware_zero_pad" | "width" | "precision"
            | "fill" | "align" | "options" | "sign" => {
                let t = match tri!(self.fmt_state(&mut st, &a[0], tys[0])) {
                    Fm::Opaque(o) => app(&format!("fmt.{m}"), vec![o]),
                    Fm::Conc(o, _) => match o {
                        V::Op(o) if o == sym("opts_default") && m == "alternate" => inti(0),
                        V::Op(o) => app(&format!("fmt.{m}"), vec![o]),
                        _ => return Some(Err("options".into())),
                    },
                };
                let v = tri!(self.typed(&st, V::Op(t), dty));
                one(st, v)
            }
            _ => {
                if m.starts_with("debug_") || m.starts_with("pad") {
                    return self.opaque_call(st, &format!("core::fmt::Formatter::{m}"), a, tys, dty);
                }
                None
            }
        }
    }

    fn builder(&mut self, mut st: St, b: &str, m: &str, a: &[V], tys: &[Ty], dty: Ty) -> Option<R<Rs>> {
        let l = tri!(self.load(&mut st, &a[0], tys[0]));
        let inner = match &l {
            V::Agg(_, f) if f.len() == 1 => match &f[0] {
                V::Agg(_, g) if g.len() == 3 => g.clone(),
                o => return Some(Err(format!("builder {o:?}"))),
            },
            o => return Some(Err(format!("builder {o:?}"))),
        };
        let rty = tri!(self.fmt_result_ty());
        let fty = Ty::new_ref_like(tys[0], tri!(self.formatter_ty()));
        let err = V::agg(1, vec![V::unit()]);
        // lists and sets are filled by loops of unknown length; the others stop at a failure
        let endless = matches!(b, "DebugList" | "DebugSet");
        if !endless && inner[1] == err {
            return match m {
                "finish" | "finish_non_exhaustive" => one(st, err),
                _ => one(st, a[0].clone()),
            };
        }
        let opaque = match (&inner[1], &inner[2]) {
            (V::Undef, V::Op(t)) => Some(*t),
            _ => None,
        };
        let open = opaque.is_some() || inner[1] == V::Op(sym("list_result"));
        let put = |it: &mut Interp, s: &mut St, r: V, x: V| -> R<()> {
            it.store(s, &a[0], tys[0], V::agg(0, vec![V::agg(0, vec![inner[0].clone(), r, x])]))
        };
        match m {
            "entry" | "field" | "key" | "value" => {
                let mut out = vec![];
                if open {
                    // The builder of a sink that may fail is itself treated as a sink: every
                    // entry is shown to it, with its result, and `finish` answers anything.
                    // What the builder does after a failed entry only depends on these.
                    let (id, next) = match (opaque, &inner[2]) {
                        (Some(lt), _) => (lt, inner[2].clone()),
                        (None, V::N(n)) => (*n, V::N(add(*n, inti(1)))),
                        (_, o) => return Some(Err(format!("builder {o:?}"))),
                    };
                    let mut at = vec![id];
                    let mut first = 1;
                    if b == "DebugStruct" {
                        at.push(tri!(self.text_val(&mut st, &a[1], tys[1])));
                        first = 2;
                    }
                    let _ = self.event(&mut st, &format!("{b}.{m}"), at);
                    let mut states = vec![st];
                    let mut failed: Vec<St> = vec![];
                    for x in &a[first..] {
                        let mut nx = vec![];
                        for mut s in states {
                            let fp = if let Some(lt) = opaque {
                                let ft = tri!(self.formatter_ty());
                                let al = self.alloc(&mut s, ft, V::Op(app("deref", vec![app("entry_fmt", vec![lt])])));
                                V::ptr(Ptr { al, path: vec![], pty: ft, meta: Meta::None })
                            } else {
                                inner[0].clone()
                            };
                            for (mut s, r) in tri!(self.shim(s, "dyn_debug", vec![], vec![x.clone(), fp])) {
                                if endless {
                                    tri!(self.list_ret(&mut s, &r));
                                    nx.push(s);
                                    continue;
                                }
                                let d = tri!(self.discr(&mut s, &r, rty));
                                let t = tri!(self.num(&d, Ty::usize_ty()));
                                let (bad, ok) = self.split(&s, t);
                                failed.extend(bad);
                                nx.extend(ok);
                            }
                        }
                        states = nx;
                    }
                    for mut s in states {
                        tri!(put(self, &mut s, inner[1].clone(), next.clone()));
                        out.push((s, a[0].clone()));
                    }
                    for mut s in failed {
                        tri!(put(self, &mut s, err.clone(), next.clone()));
                        out.push((s, a[0].clone()));
                    }
                    return Some(Ok(out));
                }
                let d = tri!(self.discr(&mut st, &inner[1], rty));
                let t = tri!(self.num(&d, Ty::usize_ty()));
                let (err, ok) = self.split(&st, t);
                if let Some(e) = err {
                    out.push((e, a[0].clone()));
                }
                if let Some(s) = ok {
                    let more = V::int((inner[2] != V::int(0)) as i128);
                    let rs = tri!(self.shim(s, "list_entry", vec![], vec![inner[0].clone(), more, a[1].clone()]));
                    for (mut s, r) in rs {
                        tri!(put(self, &mut s, r, V::int(1)));
                        out.push((s, a[0].clone()));
                    }
                }
                Some(Ok(out))
            }
            "finish" | "finish_non_exhaustive" => {
                if open {
                    let n = match &inner[2] {
                        V::N(n) | V::Op(n) => *n,
                        o => return Some(Err(format!("builder {o:?}"))),
                    };
                    let r = self.event(&mut st, &format!("{b}.{m}"), vec![n]);
                    return one(st, V::Op(r));
                }
                let m = m.to_string();
                let r = self.and_then(vec![(st, inner[1].clone())], rty, &mut |it: &mut Interp, s: St| {
                    if m != "finish" {
                        return Err("non-exhaustive list".into());
                    }
                    it.fmt_text(s, &inner[0], fty, strc("]"))
                });
                let rs = tri!(r);
                let mut out = vec![];
                for (mut s, v) in rs {
                    tri!(put(self, &mut s, v.clone(), inner[2].clone()));
                    out.push((s, v));
                }
                let _ = dty;
                Some(Ok(out))
            }
            _ => None,
        }
    }

    /// Shows the result of a write through a list builder.
    fn list_ret(&mut self, st: &mut St, r: &V) -> R<()> {
        let rty = self.fmt_result_ty()?;
        let d = self.discr(st, r, rty)?;
        let t = self.num(&d, Ty::usize_ty())?;
        let _ = self.event(st, "list.ret", vec![t]);
        Ok(())
    }

    pub fn fmt_result_ty(&mut self) -> R<Ty> {
        let d = *self.shims.get("fmt_ty").ok_or("no shim fmt_ty")?;
        let i = Instance::resolve(d, &GenericArgs(vec![])).map_err(|e| format!("{e:?}"))?;
        let b = self.body(i).ok_or("fmt_ty")?;
        Ok(b.body.ret_local().ty)
    }
}

#[derive(Clone)]
enum Target {
    Opaque(T),
    Writer(V),
}

enum Piece {
    Lit(T),
    Arg(V, Instance, T),
}

fn norm_eq(d: &FnDef, n: &str) -> bool {
    use rustc_public::CrateDef;
    crate::models::norm_name(&d.name()) == n
}

pub fn char_text(c: T) -> T {
    if let Some(z) = as_int(c) {
        if let Some(ch) = char::from_u32(z.lo as u32) {
            return strc(&ch.to_string());
        }
    }
    let t = app("text.Display:char", vec![c]);
    set_base(len(t), Ivs::range(Z::ONE, Z::u(4)));
    t
}

/// Whether a text visibly has another one among its parts.
fn contains_part(text: T, part: T) -> bool {
    let parts = |t: T| match tk(t) {
        TK::App(op, args) if &*op == "concat" => args.to_vec(),
        _ => vec![t],
    };
    let (a, b) = (parts(text), parts(part));
    a.windows(b.len()).any(|w| w == b)
}

/// Terms that are whole, valid text. Only views into the middle of a text are not.
pub fn is_text(t: T) -> bool {
    match tk(t) {
        TK::App(op, args) => match &*op {
            "substr" | "subslice" | "patched" | "idx" | "arr" | "buf" => {
                let _ = args;
                false
            }
            "concat" => args.iter().all(|a| is_text(*a)),
            _ => true,
        },
        _ => true,
    }
}

pub fn char_boundary(f: &Facts, t: T, i: T) -> T {
    if f.range(i).as_point() == Some(Z::ZERO) || sub(len(t), i) == inti(0) {
        return inti(1);
    }
    if let (TK::Str(s), Some(k)) = (tk(t), as_int(i)) {
        return inti(s.is_char_boundary(k.lo as usize) as i128);
    }
    let c = app("char_boundary", vec![t, i]);
    bool_base(c);
    c
}

pub fn text_eq(x: T, y: T) -> T {
    if x == y {
        return inti(1);
    }
    if let (TK::Str(a), TK::Str(b)) = (tk(x), tk(y)) {
        return inti((a == b) as i128);
    }
    let c = app("texteq", vec![x.min(y), x.max(y)]);
    bool_base(c);
    c
}

/// The slice iterator inside an iterator over characters.
fn chars_state(it: &V) -> Option<(Rc<Ptr>, T, T)> {
    match it {
        V::Agg(_, f) if f.len() == 1 => chars_state(&f[0]),
        V::Agg(_, f) if f.len() == 3 => match (&f[0], &f[1], &f[2]) {
            (V::P(p), V::N(lo), V::N(hi)) => Some((p.clone(), *lo, *hi)),
            _ => None,
        },
        _ => None,
    }
}
