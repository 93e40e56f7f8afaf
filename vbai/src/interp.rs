//! Dataflow over monomorphic MIR.
//!
//! Every function is analysed by a worklist over its control-flow graph in reverse
//! post-order. States are partitioned by the facts that distinguish them and merged
//! where they agree. Loops are summarised by widening.

use crate::dom::*;
use crate::terms::*;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::abi::{TagEncoding, VariantsShape, FieldsShape};
use rustc_public::ty::*;
use rustc_public::CrateDef;
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub const GLOBAL: Al = 1 << 30;

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ret(T),
    Panic(String),
    Ub(String),
    Unknown(String),
}

pub struct Outcome {
    pub facts: Facts,
    pub evs: Rc<Vec<Ev>>,
    pub out: Out,
    pub at: String,
    pub trail: Vec<Rc<str>>,
}

pub struct BodyInfo {
    pub inst: Instance,
    pub name: Rc<str>,
    pub body: Body,
    pub in_repo: bool,
    pub preds_loop: HashMap<usize, HashSet<usize>>,
    pub rpo: Vec<usize>,
    pub file: String,
}

#[derive(Clone)]
pub struct Frame {
    pub bi: Rc<BodyInfo>,
    pub base: Al,
}

/// A resolved place.
#[derive(Clone, Debug)]
pub struct Pl {
    pub al: Al,
    pub path: Vec<Pj>,
    pub ty: Ty,
    pub meta: Meta,
    pub variant: Option<u32>,
}

pub struct Stop;

pub type R<X> = Result<X, String>;

pub struct Interp {
    pub next: Al,
    pub bodies: HashMap<Instance, Option<Rc<BodyInfo>>>,
    pub globals: HashMap<Al, Cell>,
    pub gcache: HashMap<(AllocId, usize, Ty), Al>,
    pub gnext: Al,
    pub outs: Vec<Outcome>,
    pub stack: Vec<(Instance, String)>,
    pub steps: u64,
    pub max_steps: u64,
    pub seen_fns: BTreeSet<String>,
    pub seen_blocks: HashSet<(Instance, usize)>,
    pub kappa: u32,
    pub shims: HashMap<String, FnDef>,
    pub cur_span: String,
    pub cut: bool,
    pub widened: u64,
    pub unrolled: u64,
    pub calls: u64,
    pub merges: u64,
    pub models_used: BTreeMap<String, u64>,
}

pub fn short_file(f: &str) -> String {
    if let Some(i) = f.find("/repo/") {
        return f[i + 6..].to_string();
    }
    f.to_string()
}

pub fn span_str(s: &Span) -> String {
    format!("{}:{}", short_file(&s.get_filename()), s.get_lines().start_line)
}

fn succs(t: &TerminatorKind) -> Vec<usize> {
    match t {
        TerminatorKind::Goto { target } => vec![*target],
        TerminatorKind::SwitchInt { targets, .. } => targets.all_targets(),
        TerminatorKind::Drop { target, .. } | TerminatorKind::Assert { target, .. } => vec![*target],
        TerminatorKind::Call { target, .. } => target.iter().copied().collect(),
        _ => vec![],
    }
}

impl Interp {
    pub fn new() -> Interp {
        Interp {
            next: 1,
            bodies: HashMap::new(),
            globals: HashMap::new(),
            gcache: HashMap::new(),
            gnext: GLOBAL,
            outs: vec![],
            stack: vec![],
            steps: 0,
            max_steps: 400_000,
            seen_fns: BTreeSet::new(),
            seen_blocks: HashSet::new(),
            kappa: 0,
            shims: HashMap::new(),
            cur_span: String::new(),
            cut: false,
            widened: 0,
            unrolled: 0,
            calls: 0,
            merges: 0,
            models_used: BTreeMap::new(),
        }
    }

    pub fn body(&mut self, i: Instance) -> Option<Rc<BodyInfo>> {
        if let Some(b) = self.bodies.get(&i) {
            return b.clone();
        }
        let r = if i.has_body() || i.kind == InstanceKind::Shim { i.body() } else { None };
        let r = r.map(|body| {
            let n = body.blocks.len();
            // reverse post-order
            let mut seen = vec![false; n];
            let mut order = vec![];
            let mut stack: Vec<(usize, Vec<usize>)> = vec![(0, succs(&body.blocks[0].terminator.kind))];
            seen[0] = true;
            let mut on = vec![false; n];
            on[0] = true;
            let mut back: Vec<(usize, usize)> = vec![];
            while let Some((b, ss)) = stack.last_mut() {
                let b = *b;
                if let Some(s) = ss.pop() {
                    if on[s] {
                        back.push((b, s));
                    }
                    if !seen[s] {
                        seen[s] = true;
                        on[s] = true;
                        stack.push((s, succs(&body.blocks[s].terminator.kind)));
                    }
                } else {
                    on[b] = false;
                    order.push(b);
                    stack.pop();
                }
            }
            order.reverse();
            let mut rpo = vec![usize::MAX; n];
            for (i, b) in order.iter().enumerate() {
                rpo[*b] = i;
            }
            let mut preds: Vec<Vec<usize>> = vec![vec![]; n];
            for b in &order {
                for s in succs(&body.blocks[*b].terminator.kind) {
                    preds[s].push(*b);
                }
            }
            let mut loops: HashMap<usize, HashSet<usize>> = HashMap::new();
            for (src, head) in back {
                let set = loops.entry(head).or_default();
                set.insert(head);
                let mut w = vec![src];
                while let Some(x) = w.pop() {
                    if set.insert(x) {
                        w.extend(preds[x].iter().copied());
                    }
                }
            }
            let file = body.span.get_filename();
            let in_repo = file.contains("/repo/") && !file.contains("/registry/");
            Rc::new(BodyInfo {
                inst: i,
                name: i.name().into(),
                in_repo,
                body,
                preds_loop: loops,
                rpo,
                file: short_file(&file),
            })
        });
        self.bodies.insert(i, r.clone());
        r
    }

    // ---- memory ----

    pub fn alloc(&mut self, st: &mut St, ty: Ty, v: V) -> Al {
        let a = self.next;
        self.next += 1;
        Rc::make_mut(&mut st.mem).insert(a, Cell { ty, v, live: true });
        a
    }

    pub fn cell<'a>(&'a self, st: &'a St, al: Al) -> R<&'a Cell> {
        let c = if al >= GLOBAL { self.globals.get(&al) } else { st.mem.get(&al) };
        match c {
            Some(c) if c.live => Ok(c),
            _ => Err("UB: access through a pointer to storage that is no longer live".into()),
        }
    }

    /// Lazily created storage behind a reference-typed term.
    pub fn deref_term(&mut self, st: &mut St, t: T, pty: Ty) -> Al {
        if let Some(a) = st.derefs.get(&t) {
            return *a;
        }
        let c = match tk(t) {
            TK::App(op, args) if &*op == "ref" => args[0],
            _ => app("deref", vec![t]),
        };
        let a = self.alloc(st, pty, V::Op(c));
        Rc::make_mut(&mut st.derefs).insert(t, a);
        a
    }

    pub fn as_ptr(&mut self, st: &mut St, v: &V, ty: Ty) -> R<Rc<Ptr>> {
        match v {
            V::P(p) => Ok(p.clone()),
            V::Op(t) => {
                let pt = pointee(ty).ok_or_else(|| format!("not a pointer type {}", tname(ty)))?;
                // look through transparent smart pointers around dyn/str
                let al = self.deref_term(st, *t, pt);
                let c = match &self.cell(st, al)?.v {
                    V::Op(c) => *c,
                    _ => app("deref", vec![*t]),
                };
                let (path, meta) = if is_str(pt) || slice_elem(pt).is_some() {
                    (vec![Pj::Idx(inti(0))], Meta::Len(len(c)))
                } else if is_dyn(pt) {
                    (vec![], Meta::Dyn)
                } else if is_zst(pt) || size_of(pt).is_some() {
                    (vec![], Meta::None)
                } else {
                    // custom unsized wrapper around a slice/str
                    (vec![], Meta::Len(len(c)))
                };
                Ok(Rc::new(Ptr { al, path, pty: pt, meta }))
            }
            V::Agg(_, f) if f.len() == 1 => {
                let f = f[0].clone();
                self.as_ptr(st, &f, ty)
            }
            V::Undef => Err("UB: use of an uninitialised pointer".into()),
            _ => Err(format!("pointer expected, found {v:?}")),
        }
    }

    /// Reconciles the type a place really has with the type it is accessed as.
    pub fn reconcile(&self, mut path: Vec<Pj>, actual: Ty, want: Ty) -> R<(Vec<Pj>, Ty)> {
        if same_ty(actual, want) || is_dyn(want) {
            return Ok((path, actual));
        }
        // inner -> wrapper
        let mut w = want;
        let mut ups = vec![];
        while let Some((_, inner)) = sole_field_unsized(w) {
            ups.push(w);
            if same_ty(inner, actual) {
                for u in ups.into_iter().rev() {
                    path.push(Pj::Up(u));
                }
                return Ok((path, want));
            }
            w = inner;
        }
        // wrapper -> inner
        let mut a = actual;
        let mut p2 = path.clone();
        loop {
            if is_union(a) {
                // MaybeUninit and friends: the interesting field is the last one
                let fs = fields(a, 0);
                match fs.iter().find(|f| !is_zst(**f)) {
                    Some(f) => a = *f,
                    None => break,
                }
            } else if let Some((i, inner)) = sole_field_unsized(a) {
                if let Some(Pj::Up(_)) = p2.last() {
                    p2.pop();
                } else {
                    p2.push(Pj::F(i));
                }
                a = inner;
            } else {
                break;
            }
            if same_ty(a, want) {
                return Ok((p2, want));
            }
        }
        // array/slice/str -> first element
        if let Some((e, _)) = array_elem(a) {
            if same_ty(e, want) || compatible(e, want) {
                p2.push(Pj::Idx(inti(0)));
                return Ok((p2, want));
            }
        }
        if let Some(e) = slice_elem(a) {
            if same_ty(e, want) || compatible(e, want) {
                return Ok((p2, want));
            }
        }
        if is_str(a) && (is_u8(want) || slice_elem(want).map(is_u8) == Some(true)) {
            return Ok((p2, want));
        }
        if is_str(want) && slice_elem(a).map(is_u8) == Some(true) {
            return Ok((p2, want));
        }
        // element -> slice/array (pointer into a sequence)
        if let Some(Pj::Idx(_)) = path.last() {
            if let Some(e) = slice_elem(want) {
                if same_ty(e, actual) {
                    return Ok((path, want));
                }
            }
            if is_str(want) && is_u8(actual) {
                return Ok((path, want));
            }
        }
        if let (Some(x), Some(y)) = (slice_elem(a), slice_elem(want)) {
            if same_ty(x, y) || sole_chain(y, x) || sole_chain(x, y) {
                return Ok((p2, want));
            }
        }
        if compatible(actual, want) {
            return Ok((path, want));
        }
        Err(format!(
            "UB: a value of type `{}` is read or written as type `{}`",
            tname(actual),
            tname(want)
        ))
    }

    pub fn place(&mut self, st: &mut St, fr: &Frame, p: &Place) -> R<Pl> {
        let mut pl = Pl {
            al: fr.base + p.local as Al,
            path: vec![],
            ty: fr.bi.body.locals()[p.local].ty,
            meta: Meta::None,
            variant: None,
        };
        let mut sty = pl.ty; // static type
        for e in &p.projection {
            let nsty = match e {
                ProjectionElem::Downcast(_) => sty,
                _ => e.ty(sty).map_err(|e| format!("{e:?}"))?,
            };
            match e {
                ProjectionElem::Deref => {
                    let v = self.read(st, &pl)?;
                    let ptr = self.as_ptr(st, &v, sty)?;
                    self.cell(st, ptr.al)?;
                    let (path, ty) = self.reconcile(ptr.path.clone(), ptr.pty, nsty)?;
                    pl = Pl { al: ptr.al, path, ty, meta: ptr.meta.clone(), variant: None };
                }
                ProjectionElem::Field(i, fty) => {
                    if let Some(Pj::Up(_)) = pl.path.last() {
                        if is_zst(*fty) {
                            // phantom data next to the wrapped field
                            let al = self.alloc(st, *fty, V::unit());
                            pl = Pl { al, path: vec![], ty: *fty, meta: Meta::None, variant: None };
                            sty = nsty;
                            continue;
                        }
                        pl.path.pop();
                        pl.ty = *fty;
                    } else if is_ptr_adt(pl.ty) {
                        if *i != 0 && is_zst(*fty) {
                            let al = self.alloc(st, *fty, V::unit());
                            pl = Pl { al, path: vec![], ty: *fty, meta: Meta::None, variant: None };
                        } else {
                            pl.ty = *fty;
                        }
                    } else if is_union(pl.ty) {
                        pl.ty = *fty;
                    } else {
                        match pl.variant.take() {
                            Some(v) => pl.path.push(Pj::V(v, *i as u32)),
                            None if is_enum(pl.ty) => pl.path.push(Pj::V(0, *i as u32)),
                            None => pl.path.push(Pj::F(*i as u32)),
                        }
                        pl.ty = *fty;
                    }
                    pl.variant = None;
                    if size_of(*fty).is_some() {
                        pl.meta = Meta::None;
                    }
                }
                ProjectionElem::Downcast(v) => {
                    pl.variant = Some(v.to_index() as u32);
                }
                ProjectionElem::Index(l) => {
                    let iv = self.read(
                        st,
                        &Pl {
                            al: fr.base + *l as Al,
                            path: vec![],
                            ty: Ty::usize_ty(),
                            meta: Meta::None,
                            variant: None,
                        },
                    )?;
                    let i = self.num(&iv, Ty::usize_ty())?;
                    self.push_idx(&mut pl, i, nsty);
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let i = if *from_end {
                        let l = self.place_len(&pl)?;
                        sub(l, inti(*offset as i128))
                    } else {
                        inti(*offset as i128)
                    };
                    self.push_idx(&mut pl, i, nsty);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let l = self.place_len(&pl)?;
                    let end = if *from_end { sub(l, inti(*to as i128)) } else { inti(*to as i128) };
                    let from = inti(*from as i128);
                    self.push_idx(&mut pl, from, nsty);
                    pl.meta = Meta::Len(sub(end, from));
                }
                ProjectionElem::OpaqueCast(t) => pl.ty = *t,
            }
            sty = nsty;
        }
        Ok(pl)
    }

    fn push_idx(&self, pl: &mut Pl, i: T, ety: Ty) {
        // slice places already end with the index of their first element
        if slice_elem(pl.ty).is_some() || is_str(pl.ty) {
            if let Some(Pj::Idx(b)) = pl.path.last_mut() {
                *b = add(*b, i);
                pl.ty = ety;
                pl.meta = Meta::None;
                return;
            }
        }
        pl.path.push(Pj::Idx(i));
        pl.ty = ety;
        pl.meta = Meta::None;
    }

    pub fn place_len(&self, pl: &Pl) -> R<T> {
        if let Some((_, n)) = array_elem(pl.ty) {
            return Ok(inti(n as i128));
        }
        match &pl.meta {
            Meta::Len(t) => Ok(*t),
            _ => Err(format!("no length for place of type {}", tname(pl.ty))),
        }
    }

    pub fn read(&mut self, st: &mut St, pl: &Pl) -> R<V> {
        let c = self.cell(st, pl.al)?;
        let (mut v, ty) = (c.v.clone(), c.ty);
        let n = pl.path.len();
        for (k, pj) in pl.path.iter().enumerate() {
            // whole text / slice reads through a fat place
            if k + 1 == n {
                if let (Pj::Idx(s), true) = (pj, is_str(pl.ty) || slice_elem(pl.ty).is_some()) {
                    if let Meta::Len(l) = &pl.meta {
                        return Ok(self.sub_seq(st, &v, *s, *l));
                    }
                }
            }
            v = self.project(st, &v, pj)?;
        }
        let _ = ty;
        self.typed(st, v, pl.ty)
    }

    /// Contents of a sub-range of a sequence value, as a value.
    pub fn sub_seq(&self, st: &St, v: &V, s: T, l: T) -> V {
        match v {
            V::Op(t) => V::Op(substr(&st.facts, *t, s, l)),
            V::Buf(_, text) => V::Op(substr(&st.facts, *text, s, l)),
            V::Agg(_, items) | V::Seq(items) => {
                if let (Some(a), Some(b)) =
                    (st.facts.range(s).as_point(), st.facts.range(l).as_point())
                {
                    let (a, b) = (a.lo as usize, b.lo as usize);
                    if a + b <= items.len() {
                        return V::Agg(0, Rc::new(items[a..a + b].to_vec()));
                    }
                }
                V::Undef
            }
            V::Rep(x, _) => match st.facts.range(l).as_point() {
                Some(b) if b.lo <= 4096 => V::Agg(0, Rc::new(vec![(**x).clone(); b.lo as usize])),
                _ => V::Undef,
            },
            _ => V::Undef,
        }
    }

    /// Gives a lazily typed value the shape its static type implies.
    pub fn typed(&self, _st: &St, v: V, ty: Ty) -> R<V> {
        Ok(match v {
            V::Op(t) => {
                if let Some(r) = type_range(ty) {
                    if as_int(t).is_none() && !matches!(tk(t), TK::Lin(..)) {
                        set_base(t, r);
                    }
                    V::N(t)
                } else if is_float(ty).is_some() {
                    V::F(t)
                } else if !is_enum(ty) && pointee(ty).is_none() && is_zst(ty) {
                    zst_val(ty)
                } else {
                    if let Some((_, n)) = array_elem(ty) {
                        set_base(len(t), Ivs::point(Z::u(n as u128)));
                    }
                    V::Op(t)
                }
            }
            V::Agg(0, f) if int_info(ty).is_some() && f.len() == 1 => f[0].clone(),
            V::N(t) => {
                // same-size integer reinterpretation
                match (type_range(ty), as_int(t)) {
                    (Some(r), Some(z)) if !r.contains(z) => match int_info(ty) {
                        Some((b, s)) => V::N(int(z.wrap(b, s))),
                        None => V::N(t),
                    },
                    _ => V::N(t),
                }
            }
            other => other,
        })
    }

    pub fn project(&self, st: &St, v: &V, pj: &Pj) -> R<V> {
        Ok(match (v, pj) {
            (_, Pj::Up(_)) => v.clone(),
            (V::Agg(_, f), Pj::F(i)) => f.get(*i as usize).cloned().ok_or("no such field")?,
            (V::Agg(cv, f), Pj::V(w, i)) => {
                if cv != w {
                    return Err("UB: field of an inactive enum variant is read".into());
                }
                f.get(*i as usize).cloned().ok_or("no such field")?
            }
            (V::Op(t), Pj::F(i)) => V::Op(fterm(*t, 0, *i, false)),
            (V::Op(t), Pj::V(w, i)) => V::Op(fterm(*t, *w, *i, true)),
            (V::Op(t), Pj::Idx(i)) => match (tk(*t), as_int(*i)) {
                (TK::Str(s), Some(k)) => match s.as_bytes().get(k.lo as usize) {
                    Some(b) => V::int(*b as i128),
                    None => return Err("UB: read past the end of a text".into()),
                },
                (TK::App(op, args), Some(k)) if &*op == "arr" => match args.get(k.lo as usize) {
                    Some(b) => V::Op(*b),
                    None => return Err("UB: read past the end of a slice".into()),
                },
                (TK::App(op, args), _) if &*op == "subslice" || &*op == "substr" => {
                    let ix = add(args[1], *i);
                    return self.project(st, &V::Op(args[0]), &Pj::Idx(ix));
                }
                // an element of a sequence collected by a loop
                (TK::App(op, args), _)
                    if &*op == "collect"
                        && args[0] == app("arr", vec![])
                        && !mentions(args[2], "collect")
                        && !mentions(args[2], "fold") =>
                {
                    let (k, i) = (sym("it"), *i);
                    V::Op(subst(args[2], &|x| if x == k { Some(i) } else { None }))
                }
                _ => V::Op(app("idx", vec![*t, *i])),
            },
            (V::Buf(n, text), Pj::Idx(i)) => {
                if st.facts.range(*i).max() >= Z::u(*n as u128) {
                    return Err("UB: read past the end of a buffer".into());
                }
                V::Op(app("idx", vec![*text, *i]))
            }
            (V::Agg(_, f), Pj::Idx(i)) | (V::Seq(f), Pj::Idx(i)) => {
                match st.facts.range(*i).as_point() {
                    Some(k) => match f.get(k.lo as usize) {
                        Some(x) => x.clone(),
                        None => return Err("UB: read past the end of a sequence".into()),
                    },
                    None => return Err("symbolic index into a known sequence".into()),
                }
            }
            (V::Rep(x, n), Pj::Idx(i)) => {
                if st.facts.range(*i).max() >= Z::u(*n as u128) {
                    return Err("UB: read past the end of an array".into());
                }
                (**x).clone()
            }
            (_, Pj::Cont) => v.clone(),
            (V::Undef, _) => V::Undef,
            (V::P(_), Pj::F(0)) => v.clone(),
            (V::P(_), Pj::F(_)) => V::unit(),
            (V::N(_) | V::F(_) | V::Fn(_), Pj::F(0)) => v.clone(),
            _ => return Err(format!("cannot project {pj:?} out of {v:?}")),
        })
    }

    pub fn write(&mut self, st: &mut St, pl: &Pl, v: V) -> R<()> {
        if pl.al >= GLOBAL {
            return Err("UB: write to static memory".into());
        }
        let c = self.cell(st, pl.al)?;
        let (old, ty) = (c.v.clone(), c.ty);
        let new = if pl.path.is_empty() { v } else { self.write_in(st, &old, ty, &pl.path, v)? };
        Rc::make_mut(&mut st.mem).get_mut(&pl.al).unwrap().v = new;
        Ok(())
    }

    fn write_in(&mut self, st: &mut St, old: &V, ty: Ty, path: &[Pj], v: V) -> R<V> {
        if path.is_empty() {
            return Ok(v);
        }
        match &path[0] {
            Pj::Up(_) | Pj::Cont => self.write_in(st, old, ty, &path[1..], v),
            Pj::F(i) => {
                let i = *i as usize;
                let fs = fields(ty, 0);
                let mut items: Vec<V> = match old {
                    V::Agg(_, f) => (**f).clone(),
                    V::Op(t) => (0..fs.len())
                        .map(|k| self.typed(st, V::Op(fterm(*t, 0, k as u32, false)), fs[k]))
                        .collect::<R<_>>()?,
                    V::Undef => vec![V::Undef; fs.len()],
                    V::N(_) | V::F(_) | V::P(_) | V::Fn(_) if i == 0 => {
                        return self.write_in(st, old, fs.get(0).copied().unwrap_or(ty), &path[1..], v)
                    }
                    _ => return Err(format!("write into field of {old:?}")),
                };
                if i >= items.len() {
                    return Err("write to missing field".into());
                }
                let o = items[i].clone();
                items[i] = self.write_in(st, &o, fs[i], &path[1..], v)?;
                Ok(V::agg(0, items))
            }
            Pj::V(w, i) => {
                let i = *i as usize;
                let fs = fields(ty, *w);
                let mut items: Vec<V> = match old {
                    V::Agg(c, f) if c == w => (**f).clone(),
                    V::Op(t) => (0..fs.len())
                        .map(|k| self.typed(st, V::Op(fterm(*t, *w, k as u32, true)), fs[k]))
                        .collect::<R<_>>()?,
                    V::Agg(..) | V::Undef => vec![V::Undef; fs.len()],
                    _ => return Err(format!("write into variant field of {old:?}")),
                };
                let o = items[i].clone();
                items[i] = self.write_in(st, &o, fs[i], &path[1..], v)?;
                Ok(V::agg(*w, items))
            }
            Pj::Idx(i) => {
                let ety = array_elem(ty)
                    .map(|x| x.0)
                    .or(slice_elem(ty))
                    .or(if is_vec(ty) { arg_ty(ty, 0) } else { None })
                    .unwrap_or(ty);
                match old {
                    V::Agg(0, f) | V::Seq(f) => {
                        let k = st
                            .facts
                            .range(*i)
                            .as_point()
                            .ok_or("write at a symbolic index of a known sequence")?;
                        let mut items = (**f).clone();
                        let k = k.lo as usize;
                        if k >= items.len() {
                            return Err("UB: write past the end of a sequence".into());
                        }
                        let o = items[k].clone();
                        items[k] = self.write_in(st, &o, ety, &path[1..], v)?;
                        Ok(if matches!(old, V::Seq(_)) {
                            V::Seq(Rc::new(items))
                        } else {
                            V::agg(0, items)
                        })
                    }
                    V::Rep(x, n) if *n <= 256 => {
                        let items = vec![(**x).clone(); *n as usize];
                        self.write_in(st, &V::agg(0, items), ty, path, v)
                    }
                    V::Undef => {
                        let n = array_elem(ty).map(|x| x.1).unwrap_or(0);
                        self.write_in(st, &V::agg(0, vec![V::Undef; n as usize]), ty, path, v)
                    }
                    _ => Err(format!("element write into {old:?}")),
                }
            }
        }
    }

    // ---- scalars ----

    pub fn num(&self, v: &V, ty: Ty) -> R<T> {
        match v {
            V::N(t) => Ok(*t),
            V::Op(t) => {
                if let Some(r) = type_range(ty) {
                    if as_int(*t).is_none() && !matches!(tk(*t), TK::Lin(..)) {
                        set_base(*t, r);
                    }
                    Ok(*t)
                } else {
                    Ok(*t)
                }
            }
            V::Agg(_, f) if f.len() == 1 => self.num(&f[0], ty),
            V::Undef => Err("UB: use of uninitialised memory".into()),
            _ => Err(format!("number expected, found {v:?}")),
        }
    }

    /// Resolves wrapping terms that the facts show to be exact.
    pub fn simp(&self, st: &St, t: T) -> T {
        if let TK::App(op, args) = tk(t) {
            if op.starts_with("wrap:") {
                let a = self.simp(st, args[0]);
                if let Some(b) = base(t) {
                    if st.facts.range(a).subset(&b) {
                        return a;
                    }
                }
            }
        }
        if let Some(p) = st.facts.range(t).as_point() {
            return int(p);
        }
        t
    }

    pub fn wrap(&self, st: &St, t: T, bits: u32, s: bool) -> T {
        let r = bits_range(bits, s);
        if let Some(z) = as_int(t) {
            return int(z.wrap(bits, s));
        }
        if st.facts.range(t).subset(&r) {
            return t;
        }
        // wrap(wrap(x)) through a wider or equal width keeps only the narrow one
        if let TK::App(op, args) = tk(t) {
            if let Some(w) = op.strip_prefix("wrap:") {
                let wb: u32 = w[1..].parse().unwrap_or(0);
                if wb >= bits {
                    return self.wrap(st, args[0], bits, s);
                }
            }
        }
        let w = app(&format!("wrap:{}{}", if s { "i" } else { "u" }, bits), vec![t]);
        set_base(w, r);
        w
    }

    pub fn operand(&mut self, st: &mut St, fr: &Frame, o: &Operand) -> R<V> {
        match o {
            Operand::Copy(p) => {
                let pl = self.place(st, fr, p)?;
                self.read(st, &pl)
            }
            Operand::Move(p) => {
                let pl = self.place(st, fr, p)?;
                let v = self.read(st, &pl)?;
                if p.projection.is_empty() {
                    Rc::make_mut(&mut st.mem).get_mut(&pl.al).unwrap().v = V::Undef;
                }
                Ok(v)
            }
            Operand::Constant(c) => self.constant(st, &c.const_),
            Operand::RuntimeChecks(RuntimeChecks::OverflowChecks) => Ok(V::int(1)),
            Operand::RuntimeChecks(_) => Ok(V::int(0)),
        }
    }

    pub fn constant(&mut self, st: &mut St, c: &MirConst) -> R<V> {
        let ty = c.ty();
        match c.kind() {
            ConstantKind::Allocated(a) => self.decode(st, a, 0, ty),
            ConstantKind::ZeroSized => self.zst(ty),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => self.decode(st, &a.clone(), 0, *t),
                TyConstKind::ZSTValue(t) => self.zst(*t),
                _ => Ok(V::int(tc.eval_target_usize().map_err(|e| format!("{e:?}"))? as i128)),
            },
            other => Err(format!("constant {other:?}")),
        }
    }

    pub fn zst(&mut self, ty: Ty) -> R<V> {
        Ok(zst_val(ty))
    }

    pub fn decode(&mut self, st: &mut St, a: &Allocation, off: usize, ty: Ty) -> R<V> {
        let k = kind(ty);
        let rd = |o: usize, n: usize| -> R<u128> {
            a.read_partial_uint(o..o + n).map_err(|e| format!("const decode: {e:?}"))
        };
        if let Some((bits, s)) = int_info(ty) {
            let n = ((bits + 7) / 8) as usize;
            if a.bytes[off..off + n].iter().any(|b| b.is_none()) {
                return Ok(V::Undef);
            }
            return Ok(V::N(int(Z::u(rd(off, n)?).wrap(if bits == 1 { 8 } else { bits }, s))));
        }
        if let Some(b) = is_float(ty) {
            let x = rd(off, b as usize / 8)?;
            return Ok(V::F(match b {
                32 => app("f32c", vec![flt((f32::from_bits(x as u32) as f64).to_bits())]),
                64 => flt(x as u64),
                _ => app("fconst", vec![int(Z::u(x))]),
            }));
        }
        match &*k {
            RigidTy::Ref(..) | RigidTy::RawPtr(..) => {
                let pt = pointee(ty).unwrap();
                return self.decode_ptr(st, a, off, pt);
            }
            RigidTy::FnPtr(_) => {
                if let Some((_, p)) = a.provenance.ptrs.iter().find(|(o, _)| *o == off) {
                    if let GlobalAlloc::Function(i) = GlobalAlloc::from(p.0) {
                        return Ok(V::Fn(i));
                    }
                }
                return Err("const fn pointer".into());
            }
            RigidTy::Adt(..) if is_ptr_adt(ty) => {
                let pt = pointee(ty).unwrap();
                return self.decode_ptr(st, a, off, pt);
            }
            RigidTy::FnDef(..) => return Ok(V::unit()),
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().map_err(|e| format!("{e:?}"))?;
                let es = size_of(*e).unwrap_or(0);
                let mut v = vec![];
                for i in 0..n as usize {
                    v.push(self.decode(st, a, off + i * es, *e)?);
                }
                return Ok(V::agg(0, v));
            }
            RigidTy::Pat(t, _) => return self.decode(st, a, off, *t),
            _ => {}
        }
        if &*adt_path(ty) == "std::any::TypeId" || &*adt_path(ty) == "core::any::TypeId" {
            if let Some((_, p)) = a.provenance.ptrs.first() {
                if let GlobalAlloc::TypeId { ty } = GlobalAlloc::from(p.0) {
                    return Ok(V::Op(app(&format!("typeid:{}", tname(ty)), vec![])));
                }
            }
        }
        if is_string(ty) {
            return Ok(V::Op(strc("")));
        }
        if is_vec(ty) {
            return Ok(V::Seq(Rc::new(vec![])));
        }
        let lay = ty.layout().map_err(|e| format!("{e:?}"))?.shape();
        let offs_of = |fs: &FieldsShape| -> Vec<usize> {
            match fs {
                FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                _ => vec![],
            }
        };
        if is_union(ty) {
            let fs = fields(ty, 0);
            for f in fs.iter() {
                if !is_zst(*f) {
                    if a.bytes[off..off + size_of(*f).unwrap_or(0)].iter().any(|b| b.is_none()) {
                        return Ok(V::Undef);
                    }
                    return self.decode(st, a, off, *f);
                }
            }
            return Ok(V::Undef);
        }
        match &lay.variants {
            VariantsShape::Single { index } => {
                let vi = if is_enum(ty) { index.to_index() as u32 } else { 0 };
                let offs = offs_of(&lay.fields);
                let fs = fields(ty, vi);
                let mut v = vec![];
                for (i, f) in fs.iter().enumerate() {
                    v.push(self.decode(st, a, off + offs.get(i).copied().unwrap_or(0), *f)?);
                }
                Ok(V::agg(vi, v))
            }
            VariantsShape::Multiple { tag, tag_encoding, variants, .. } => {
                let tag_off = match &lay.fields {
                    FieldsShape::Arbitrary { offsets } => offsets[0].bytes(),
                    _ => 0,
                };
                let prim = match tag {
                    rustc_public::abi::Scalar::Initialized { value, .. } => *value,
                    rustc_public::abi::Scalar::Union { value } => *value,
                };
                let tsize = match prim {
                    rustc_public::abi::Primitive::Int { length, .. } => length.bits() / 8,
                    rustc_public::abi::Primitive::Pointer(_) => 8,
                    _ => return Err("float tag".into()),
                };
                let has_prov = a.provenance.ptrs.iter().any(|(o, _)| *o == off + tag_off);
                let vi = match tag_encoding {
                    TagEncoding::Direct => {
                        let x = rd(off + tag_off, tsize)?;
                        (0..n_variants(ty) as u32)
                            .find(|v| discr_val(ty, *v).wrap(tsize as u32 * 8, false) == Z::u(x))
                            .ok_or("const tag")?
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        if has_prov {
                            untagged_variant.to_index() as u32
                        } else {
                            let x = rd(off + tag_off, tsize)?;
                            let m = if tsize == 16 { u128::MAX } else { (1u128 << (tsize * 8)) - 1 };
                            let rel = x.wrapping_sub(*niche_start) & m;
                            let (s, e) =
                                (niche_variants.start().to_index(), niche_variants.end().to_index());
                            if rel <= (e - s) as u128 {
                                s as u32 + rel as u32
                            } else {
                                untagged_variant.to_index() as u32
                            }
                        }
                    }
                };
                let fs = fields(ty, vi);
                let offs: Vec<usize> =
                    variants[vi as usize].offsets.iter().map(|o| o.bytes()).collect();
                let mut v = vec![];
                for (i, f) in fs.iter().enumerate() {
                    v.push(self.decode(st, a, off + offs[i], *f)?);
                }
                Ok(V::agg(vi, v))
            }
            _ => Err("uninhabited constant".into()),
        }
    }

    fn galloc(&mut self, ty: Ty, v: V) -> Al {
        let g = self.gnext;
        self.gnext += 1;
        self.globals.insert(g, Cell { ty, v, live: true });
        g
    }

    fn decode_ptr(&mut self, st: &mut St, a: &Allocation, off: usize, pt: Ty) -> R<V> {
        let addend =
            a.read_partial_uint(off..off + 8).map_err(|e| format!("const ptr: {e:?}"))? as usize;
        let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
        let fat_len = || -> R<u128> {
            a.read_partial_uint(off + 8..off + 16).map_err(|e| format!("const ptr: {e:?}"))
        };
        if is_dyn(pt) {
            let vt = a.provenance.ptrs.iter().find(|(o, _)| *o == off + 8).map(|(_, p)| p.0);
            let cty = match vt.map(GlobalAlloc::from) {
                Some(GlobalAlloc::VTable(t, _)) => t,
                _ => return Err("const dyn pointer without vtable".into()),
            };
            let al = match prov {
                Some(p) => self.galloc_for(st, p, addend, cty)?,
                None => {
                    let z = self.zst(cty)?;
                    self.galloc(cty, z)
                }
            };
            return Ok(V::ptr(Ptr { al, path: vec![], pty: cty, meta: Meta::Vt(cty) }));
        }
        let elem = slice_elem(pt);
        if is_str(pt) || elem.is_some() {
            let n = fat_len()? as usize;
            let al = match prov {
                None => {
                    let v = if is_str(pt) { V::Op(strc("")) } else { V::agg(0, vec![]) };
                    self.galloc(pt, v)
                }
                Some(p) => {
                    if let Some(g) = self.gcache.get(&(p, addend, pt)) {
                        *g
                    } else {
                        let mem = match GlobalAlloc::from(p) {
                            GlobalAlloc::Memory(m) => m,
                            GlobalAlloc::Static(d) => {
                                d.eval_initializer().map_err(|e| format!("{e:?}"))?
                            }
                            other => return Err(format!("const pointer to {other:?}")),
                        };
                        let v = if is_str(pt) {
                            let b: Option<Vec<u8>> =
                                mem.bytes[addend..addend + n].iter().copied().collect();
                            let b = b.ok_or("uninit text")?;
                            match String::from_utf8(b) {
                                Ok(s) => V::Op(strc(&s)),
                                Err(_) => return Err("UB: constant text is not UTF-8".into()),
                            }
                        } else {
                            let e = elem.unwrap();
                            let es = size_of(e).unwrap_or(0);
                            let mut vs = vec![];
                            for i in 0..n {
                                vs.push(self.decode(st, &mem, addend + i * es, e)?);
                            }
                            V::agg(0, vs)
                        };
                        let g = self.galloc(pt, v);
                        self.gcache.insert((p, addend, pt), g);
                        g
                    }
                }
            };
            return Ok(V::ptr(Ptr {
                al,
                path: vec![Pj::Idx(inti(0))],
                pty: pt,
                meta: Meta::Len(inti(n as i128)),
            }));
        }
        let al = match prov {
            Some(p) => self.galloc_for(st, p, addend, pt)?,
            None => {
                if is_zst(pt) {
                    let z = self.zst(pt)?;
                    self.galloc(pt, z)
                } else {
                    // an integer address: a dangling well-aligned pointer
                    let g = self.gnext;
                    self.gnext += 1;
                    self.globals.insert(g, Cell { ty: pt, v: V::Undef, live: false });
                    g
                }
            }
        };
        Ok(V::ptr(Ptr { al, path: vec![], pty: pt, meta: Meta::None }))
    }

    fn galloc_for(&mut self, st: &mut St, p: AllocId, addend: usize, ty: Ty) -> R<Al> {
        if let Some(g) = self.gcache.get(&(p, addend, ty)) {
            return Ok(*g);
        }
        let mem = match GlobalAlloc::from(p) {
            GlobalAlloc::Memory(m) => m,
            GlobalAlloc::Static(d) => d.eval_initializer().map_err(|e| format!("{e:?}"))?,
            GlobalAlloc::Function(i) => {
                let g = self.galloc(ty, V::Fn(i));
                self.gcache.insert((p, addend, ty), g);
                return Ok(g);
            }
            other => return Err(format!("const pointer to {other:?}")),
        };
        let v = self.decode(st, &mem, addend, ty)?;
        let g = self.galloc(ty, v);
        self.gcache.insert((p, addend, ty), g);
        Ok(g)
    }

    // ---- rvalues ----

    pub fn ref_of(&mut self, pl: &Pl) -> V {
        let meta = if let Meta::None = pl.meta {
            Meta::None
        } else if size_of(pl.ty).is_some() && !matches!(pl.meta, Meta::Vt(_)) {
            Meta::None
        } else {
            pl.meta.clone()
        };
        V::ptr(Ptr { al: pl.al, path: pl.path.clone(), pty: pl.ty, meta })
    }

    pub fn rvalue(&mut self, st: &mut St, fr: &Frame, rv: &Rvalue) -> R<V> {
        let locals = fr.bi.body.locals();
        match rv {
            Rvalue::Use(o, _) => self.operand(st, fr, o),
            Rvalue::CopyForDeref(p) => {
                let pl = self.place(st, fr, p)?;
                self.read(st, &pl)
            }
            Rvalue::Reborrow(_, _, p) => {
                let pl = self.place(st, fr, p)?;
                self.read(st, &pl)
            }
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) => {
                let pl = self.place(st, fr, p)?;
                Ok(self.ref_of(&pl))
            }
            Rvalue::Len(p) => {
                let pl = self.place(st, fr, p)?;
                Ok(V::N(self.place_len(&pl)?))
            }
            Rvalue::Discriminant(p) => {
                let pl = self.place(st, fr, p)?;
                let v = self.read(st, &pl)?;
                let ty = p.ty(locals).map_err(|e| format!("{e:?}"))?;
                self.discr(st, &v, ty)
            }
            Rvalue::Aggregate(kind_, ops) => {
                let mut vs = vec![];
                for o in ops {
                    vs.push(self.operand(st, fr, o)?);
                }
                match kind_ {
                    AggregateKind::Adt(d, vi, args, _, field) => {
                        if field.is_some() {
                            return Ok(vs.pop().unwrap_or(V::Undef));
                        }
                        let ty = d.ty_with_args(args);
                        if is_ptr_adt(ty) && !vs.is_empty() {
                            return Ok(vs[0].clone());
                        }
                        let vi = if d.kind().is_enum() { vi.to_index() as u32 } else { 0 };
                        Ok(V::agg(vi, vs))
                    }
                    AggregateKind::RawPtr(pt, _) => {
                        let sty = ops[0].ty(locals).map_err(|e| format!("{e:?}"))?;
                        let p = self.as_ptr(st, &vs[0], sty)?;
                        let mut q = (*p).clone();
                        if is_str(*pt) || slice_elem(*pt).is_some() {
                            let n = self.num(&vs[1], Ty::usize_ty())?;
                            let n = self.simp(st, n);
                            q = self.make_slice_ptr(st, &q, *pt, n)?;
                        } else if is_dyn(*pt) {
                            if let V::P(m) = &vs[1] {
                                q.meta = m.meta.clone();
                                q.pty = match &q.meta {
                                    Meta::Vt(t) => *t,
                                    _ => q.pty,
                                };
                            }
                        }
                        Ok(V::ptr(q))
                    }
                    _ => Ok(V::agg(0, vs)),
                }
            }
            Rvalue::Repeat(o, n) => {
                let v = self.operand(st, fr, o)?;
                let n = n.eval_target_usize().map_err(|e| format!("{e:?}"))?;
                let ety = o.ty(locals).map_err(|e| format!("{e:?}"))?;
                if is_u8(ety) && v == V::int(0) {
                    return Ok(V::Buf(n, strc("")));
                }
                if n <= 4 {
                    return Ok(V::agg(0, vec![v; n as usize]));
                }
                Ok(V::Rep(Rc::new(v), n))
            }
            Rvalue::BinaryOp(op, a, b) => {
                let (ta, tb) = (a.ty(locals).unwrap(), b.ty(locals).unwrap());
                let x = self.operand(st, fr, a)?;
                let y = self.operand(st, fr, b)?;
                self.binop(st, *op, x, ta, y, tb)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let ta = a.ty(locals).unwrap();
                let x = self.operand(st, fr, a)?;
                let y = self.operand(st, fr, b)?;
                let (x, y) = (self.num(&x, ta)?, self.num(&y, ta)?);
                let (x, y) = (self.simp(st, x), self.simp(st, y));
                let r = match op {
                    BinOp::Add => add(x, y),
                    BinOp::Sub => sub(x, y),
                    BinOp::Mul => mul(x, y),
                    _ => return Err(format!("checked {op:?}")),
                };
                let (bits, s) = int_info(ta).unwrap();
                let tr = bits_range(bits, s);
                let hi = lt(&st.facts, int(tr.max()), r);
                let lo = lt(&st.facts, r, int(tr.min()));
                let o = if lo == inti(0) {
                    hi
                } else if hi == inti(0) {
                    lo
                } else {
                    let t = app("or", vec![hi, lo]);
                    bool_base(t);
                    t
                };
                Ok(V::agg(0, vec![V::N(r), V::N(o)]))
            }
            Rvalue::UnaryOp(op, o) => {
                let ty = o.ty(locals).unwrap();
                let v = self.operand(st, fr, o)?;
                match op {
                    UnOp::Not => {
                        let t = self.num(&v, ty)?;
                        let t = self.simp(st, t);
                        if let RigidTy::Bool = &*kind(ty) {
                            return Ok(V::N(not(t)));
                        }
                        let (bits, s) = int_info(ty).unwrap();
                        if s {
                            return Ok(V::N(sub(inti(-1), t)));
                        }
                        Ok(V::N(sub(int(bits_range(bits, s).max()), t)))
                    }
                    UnOp::Neg => {
                        if is_float(ty).is_some() {
                            if let V::F(t) = v {
                                return Ok(V::F(app("fneg", vec![t])));
                            }
                        }
                        let t = self.num(&v, ty)?;
                        let t = self.simp(st, t);
                        let (bits, s) = int_info(ty).ok_or("neg")?;
                        Ok(V::N(self.wrap(st, sub(inti(0), t), bits, s)))
                    }
                    UnOp::PtrMetadata => {
                        let p = self.as_ptr(st, &v, ty)?;
                        match &p.meta {
                            Meta::Len(t) => Ok(V::N(*t)),
                            Meta::None => Ok(V::unit()),
                            _ => Ok(V::P(p.clone())),
                        }
                    }
                }
            }
            Rvalue::Cast(k, o, ty) => {
                let sty = o.ty(locals).unwrap();
                let v = self.operand(st, fr, o)?;
                self.cast(st, *k, v, sty, *ty)
            }
            Rvalue::ThreadLocalRef(_) => Err("thread local".into()),
        }
    }

    pub fn make_slice_ptr(&mut self, st: &mut St, p: &Ptr, pt: Ty, n: T) -> R<Ptr> {
        let mut q = p.clone();
        let e = slice_elem(pt);
        let is_seq = is_str(q.pty) || slice_elem(q.pty).is_some();
        if !is_seq {
            if let Some((ae, _)) = array_elem(q.pty) {
                if e.map(|e| same_ty(e, ae)).unwrap_or(false) {
                    q.path.push(Pj::Idx(inti(0)));
                }
            } else if !matches!(q.path.last(), Some(Pj::Idx(_))) {
                // a lone element viewed as a one-element slice, or a dangling empty slice
                match as_int(n) {
                    Some(z) if z.is_zero() => {
                        let al = self.alloc(st, pt, V::agg(0, vec![]));
                        return Ok(Ptr {
                            al,
                            path: vec![Pj::Idx(inti(0))],
                            pty: pt,
                            meta: Meta::Len(n),
                        });
                    }
                    Some(z) if z == Z::ONE => {
                        return Err("slice of a single value".into());
                    }
                    _ => {
                        return Err(format!(
                            "UB: a pointer to a single `{}` is used as a sequence",
                            tname(q.pty)
                        ))
                    }
                }
            }
        }
        // bounds obligation
        if let Some(Pj::Idx(s)) = q.path.last() {
            let cap = self.seq_cap(st, &q)?;
            let end = add(*s, n);
            if let Some(cap) = cap {
                if st.facts.range(sub(end, cap)).max() > Z::ZERO {
                    return Err(format!(
                        "UB: a slice of {} elements from offset {} may reach past the end ({})",
                        show(n),
                        show(*s),
                        show(cap)
                    ));
                }
            }
        }
        q.pty = pt;
        q.meta = Meta::Len(n);
        Ok(q)
    }

    /// Number of elements in the container a sequence pointer points into.
    pub fn seq_cap(&mut self, st: &mut St, p: &Ptr) -> R<Option<T>> {
        let c = self.cell(st, p.al)?;
        let mut v = c.v.clone();
        for pj in &p.path[..p.path.len() - 1] {
            v = self.project(st, &v, pj)?;
        }
        Ok(match v {
            V::Buf(n, _) | V::Rep(_, n) => Some(inti(n as i128)),
            V::Agg(_, f) | V::Seq(f) => Some(inti(f.len() as i128)),
            V::Op(t) => Some(len(t)),
            V::Undef => match array_elem(c_ty(self.cell(st, p.al)?)) {
                Some((_, n)) => Some(inti(n as i128)),
                None => None,
            },
            _ => None,
        })
    }

    pub fn discr(&mut self, st: &mut St, v: &V, ty: Ty) -> R<V> {
        match v {
            V::Agg(vi, _) => Ok(V::N(int(discr_val(ty, *vi)))),
            V::Op(t) => {
                if n_variants(ty) == 1 {
                    return Ok(V::N(int(discr_val(ty, 0))));
                }
                if let TK::App(op, _) = tk(*t) {
                    if let Some(v) = op.strip_prefix('v').and_then(|x| x.parse::<u32>().ok()) {
                        return Ok(V::N(int(discr_val(ty, v))));
                    }
                }
                let d = discr_term(*t, ty);
                if let Some(p) = st.facts.range(d).as_point() {
                    return Ok(V::N(int(p)));
                }
                Ok(V::N(d))
            }
            V::N(t) => Ok(V::N(*t)),
            V::Undef => Err("UB: discriminant of uninitialised memory".into()),
            _ => Err(format!("discriminant of {v:?}")),
        }
    }

    pub fn binop(&mut self, st: &mut St, op: BinOp, x: V, tx: Ty, y: V, ty: Ty) -> R<V> {
        if let BinOp::Offset = op {
            let p = self.as_ptr(st, &x, tx)?;
            let n = self.num(&y, ty)?;
            return self.ptr_offset(st, &p, pointee(tx).unwrap(), n);
        }
        if is_float(tx).is_some() {
            let (a, b) = match (&x, &y) {
                (V::F(a), V::F(b)) => (*a, *b),
                (V::Op(a), V::F(b)) => (*a, *b),
                (V::F(a), V::Op(b)) => (*a, *b),
                (V::Op(a), V::Op(b)) => (*a, *b),
                _ => return Err("float op on undefined".into()),
            };
            return Ok(match op {
                BinOp::Eq | BinOp::Ne | BinOp::Lt | BinOp::Le | BinOp::Gt | BinOp::Ge => {
                    let (o, a, b, neg) = match op {
                        BinOp::Eq => ("eq", a.min(b), a.max(b), false),
                        BinOp::Ne => ("eq", a.min(b), a.max(b), true),
                        BinOp::Lt => ("lt", a, b, false),
                        BinOp::Le => ("le", a, b, false),
                        BinOp::Gt => ("lt", b, a, false),
                        _ => ("le", b, a, false),
                    };
                    if let (TK::F(p), TK::F(q)) = (tk(a), tk(b)) {
                        let (p, q) = (f64::from_bits(p), f64::from_bits(q));
                        let r = match o {
                            "eq" => p == q,
                            "lt" => p < q,
                            _ => p <= q,
                        };
                        return Ok(V::int((r != neg) as i128));
                    }
                    let t = app(&format!("fcmp:{o}"), vec![a, b]);
                    bool_base(t);
                    V::N(if neg { not(t) } else { t })
                }
                _ => V::F(app(&format!("fop:{op:?}"), vec![a, b])),
            });
        }
        if pointee(tx).is_some() || matches!(&*kind(tx), RigidTy::FnPtr(_)) {
            if let (V::Fn(a), V::Fn(b)) = (&x, &y) {
                let r = a == b;
                return Ok(V::int((r == matches!(op, BinOp::Eq)) as i128));
            }
            let (p, q) = (self.as_ptr(st, &x, tx)?, self.as_ptr(st, &y, ty)?);
            let eqv = if p.al == q.al {
                if p.path == q.path {
                    inti(1)
                } else {
                    match (p.path.last(), q.path.last()) {
                        (Some(Pj::Idx(a)), Some(Pj::Idx(b)))
                            if p.path[..p.path.len() - 1] == q.path[..q.path.len() - 1] =>
                        {
                            match op {
                                BinOp::Lt => return Ok(V::N(lt(&st.facts, *a, *b))),
                                BinOp::Le => return Ok(V::N(le(&st.facts, *a, *b))),
                                BinOp::Gt => return Ok(V::N(lt(&st.facts, *b, *a))),
                                BinOp::Ge => return Ok(V::N(le(&st.facts, *b, *a))),
                                _ => eq(&st.facts, *a, *b),
                            }
                        }
                        _ => return Err("pointer comparison".into()),
                    }
                }
            } else {
                let t = app("ptreq", vec![inti(p.al as i128), inti(q.al as i128)]);
                bool_base(t);
                t
            };
            return match op {
                BinOp::Eq => Ok(V::N(eqv)),
                BinOp::Ne => Ok(V::N(not(eqv))),
                _ => Err("pointer ordering".into()),
            };
        }
        let (a, b) = (self.num(&x, tx)?, self.num(&y, ty)?);
        let (a, b) = (self.simp(st, a), self.simp(st, b));
        let (bits, s) = int_info(tx).ok_or_else(|| format!("binop on {}", tname(tx)))?;
        let f = &st.facts;
        let isb = bits == 1;
        Ok(V::N(match op {
            BinOp::Add | BinOp::AddUnchecked => self.wrap(st, add(a, b), bits, s),
            BinOp::Sub | BinOp::SubUnchecked => self.wrap(st, sub(a, b), bits, s),
            BinOp::Mul | BinOp::MulUnchecked => self.wrap(st, mul(a, b), bits, s),
            BinOp::Eq => eq(f, a, b),
            BinOp::Ne => not(eq(f, a, b)),
            BinOp::Lt => lt(f, a, b),
            BinOp::Le => le(f, a, b),
            BinOp::Gt => lt(f, b, a),
            BinOp::Ge => le(f, b, a),
            BinOp::BitAnd if isb => bool_bin("and", a, b),
            BinOp::BitOr if isb => bool_bin("or", a, b),
            BinOp::BitXor if isb => not(eq(f, a, b)),
            BinOp::Cmp => {
                // ordering discriminant
                let d = sub(a, b);
                let r = f.range(d);
                if r.max() < Z::ZERO {
                    return Ok(V::agg(0, vec![]));
                }
                if r.min() > Z::ZERO {
                    return Ok(V::agg(2, vec![]));
                }
                if r.as_point() == Some(Z::ZERO) {
                    return Ok(V::agg(1, vec![]));
                }
                return Ok(V::Op(app("cmp", vec![d])));
            }
            _ => {
                if let (Some(x), Some(y)) = (as_int(a), as_int(b)) {
                    if let Some(z) = const_bin(op, x, y, bits, s) {
                        return Ok(V::N(int(z)));
                    }
                }
                if let (BinOp::BitAnd, Some(m)) = (op, as_int(b).or(as_int(a))) {
                    if m.is_zero() {
                        return Ok(V::int(0));
                    }
                }
                let ty = app(&format!("op:{op:?}:{}{}", if s { "i" } else { "u" }, bits), vec![a, b]);
                set_base(ty, bits_range(bits, s));
                if let (BinOp::BitAnd, Some(m)) = (op, as_int(b)) {
                    if m >= Z::ZERO {
                        set_base(ty, Ivs::range(Z::ZERO, m));
                    }
                }
                if let (BinOp::Rem, Some(m)) = (op, as_int(b)) {
                    if !s && m > Z::ZERO {
                        set_base(ty, Ivs::range(Z::ZERO, m.sub(Z::ONE)));
                    }
                }
                ty
            }
        }))
    }

    pub fn ptr_offset(&mut self, st: &mut St, p: &Ptr, elem: Ty, n: T) -> R<V> {
        let n = self.simp(st, n);
        if as_int(n) == Some(Z::ZERO) {
            return Ok(V::ptr(p.clone()));
        }
        let mut q = p.clone();
        // into array/slice/text storage
        if !(is_str(q.pty) || slice_elem(q.pty).is_some() || matches!(q.path.last(), Some(Pj::Idx(_)))) {
            if let Ok((path, ty)) = self.reconcile(q.path.clone(), q.pty, elem) {
                q.path = path;
                q.pty = ty;
            }
        }
        match q.path.last_mut() {
            Some(Pj::Idx(i)) => {
                *i = add(*i, n);
                let i = *i;
                let cap = self.seq_cap(st, &q)?;
                if let Some(cap) = cap {
                    if st.facts.range(sub(i, cap)).max() > Z::ZERO || st.facts.range(i).min() < Z::ZERO
                    {
                        return Err(format!(
                            "UB: pointer arithmetic to offset {} may leave its allocation ({} elements)",
                            show(i),
                            show(cap)
                        ));
                    }
                }
                q.meta = Meta::None;
                if is_str(q.pty) || slice_elem(q.pty).is_some() {
                    q.pty = elem;
                }
                Ok(V::ptr(q))
            }
            _ => Err(format!("UB: pointer arithmetic on a pointer to a single `{}`", tname(q.pty))),
        }
    }

    pub fn cast(&mut self, st: &mut St, k: CastKind, v: V, from: Ty, to: Ty) -> R<V> {
        match k {
            CastKind::IntToInt => {
                let v = match v {
                    V::Agg(vi, f) if f.is_empty() => V::N(int(discr_val(from, vi))),
                    V::Op(t) if is_enum(from) => self.discr(st, &V::Op(t), from)?,
                    o => o,
                };
                let t = self.num(&v, from)?;
                let t = self.simp(st, t);
                let (bits, s) = int_info(to).ok_or("int cast target")?;
                if let RigidTy::Char = &*kind(to) {
                    return Ok(V::N(t));
                }
                Ok(V::N(self.wrap(st, t, bits, s)))
            }
            CastKind::IntToFloat => {
                let t = self.num(&v, from)?;
                let t = self.simp(st, t);
                let b = is_float(to).unwrap();
                if let Some(z) = as_int(t) {
                    let x = match (z.to_i128(), z.to_u128()) {
                        (Some(i), _) => i as f64,
                        (_, Some(u)) => u as f64,
                        _ => return Err("int to float".into()),
                    };
                    if b == 64 {
                        return Ok(V::F(flt(x.to_bits())));
                    }
                }
                Ok(V::F(app(&format!("i2f{b}"), vec![t])))
            }
            CastKind::FloatToFloat => {
                let t = self.flt_of(&v)?;
                let (a, b) = (is_float(from).unwrap(), is_float(to).unwrap());
                if a == b {
                    return Ok(V::F(t));
                }
                if let TK::App(op, args) = tk(t) {
                    if &*op == "f32c" && b == 64 {
                        return Ok(V::F(args[0]));
                    }
                    if (a, b) == (64, 32) && &*op == "f32to64" {
                        return Ok(V::F(args[0]));
                    }
                    // exactly representable small integers round-trip through f32
                    if (a, b) == (32, 64) && &*op == "i2f32" {
                        let r = st.facts.range(args[0]);
                        if r.min() >= Z::i(-(1 << 24)) && r.max() <= Z::i(1 << 24) {
                            return Ok(V::F(app("i2f64", vec![args[0]])));
                        }
                    }
                }
                Ok(V::F(app(&format!("f{a}to{b}"), vec![t])))
            }
            CastKind::FloatToInt => {
                let t = self.flt_of(&v)?;
                let x = app(&format!("f2i:{}", tname(to)), vec![t]);
                set_base(x, type_range(to).unwrap());
                Ok(V::N(x))
            }
            CastKind::PtrToPtr | CastKind::FnPtrToPtr | CastKind::BoxDerefTransmute => {
                if let V::Fn(_) = v {
                    return Ok(v);
                }
                self.ptr_cast(st, v, from, to)
            }
            CastKind::Subtype => Ok(v),
            CastKind::Transmute => self.transmute(st, v, from, to),
            CastKind::PointerCoercion(pc) => match pc {
                PointerCoercion::ReifyFnPointer(_) => match &*kind(from) {
                    RigidTy::FnDef(d, a) => {
                        Ok(V::Fn(Instance::resolve_for_fn_ptr(*d, a).map_err(|e| format!("{e:?}"))?))
                    }
                    _ => Err("reify".into()),
                },
                PointerCoercion::ClosureFnPointer(_) => match &*kind(from) {
                    RigidTy::Closure(d, a) => Ok(V::Fn(
                        Instance::resolve_closure(*d, a, ClosureKind::FnOnce)
                            .map_err(|e| format!("{e:?}"))?,
                    )),
                    _ => Err("closure fn pointer".into()),
                },
                PointerCoercion::UnsafeFnPointer | PointerCoercion::MutToConstPointer => Ok(v),
                PointerCoercion::ArrayToPointer => {
                    let p = self.as_ptr(st, &v, from)?;
                    let mut q = (*p).clone();
                    q.path.push(Pj::Idx(inti(0)));
                    if let Some(e) = pointee(to) {
                        q.pty = e;
                    }
                    Ok(V::ptr(q))
                }
                PointerCoercion::Unsize => self.unsize(st, v, from, to),
            },
            CastKind::PointerExposeAddress => {
                let p = self.as_ptr(st, &v, from)?;
                let a = app("addr", vec![inti(p.al as i128)]);
                set_base(a, Ivs::range(Z::ONE, isize_max()));
                Ok(V::N(a))
            }
            CastKind::PointerWithExposedProvenance => Err("integer to pointer cast".into()),
        }
    }

    pub fn flt_of(&self, v: &V) -> R<T> {
        match v {
            V::F(t) | V::Op(t) => Ok(*t),
            V::Agg(_, f) if f.len() == 1 => self.flt_of(&f[0]),
            V::Undef => Err("UB: use of uninitialised memory".into()),
            _ => Err(format!("float expected, found {v:?}")),
        }
    }

    fn ptr_cast(&mut self, st: &mut St, v: V, from: Ty, to: Ty) -> R<V> {
        let p = self.as_ptr(st, &v, from)?;
        let tp = pointee(to).ok_or("pointer cast target")?;
        // keep the actual pointee; only re-type views the memory model understands
        if is_str(tp) && slice_elem(p.pty).map(is_u8) == Some(true) {
            let mut q = (*p).clone();
            q.pty = tp;
            return Ok(V::ptr(q));
        }
        if matches!(p.meta, Meta::Vt(_)) && !is_dyn(tp) && !is_str(tp) && slice_elem(tp).is_none() {
            let mut q = (*p).clone();
            q.meta = Meta::None;
            return Ok(V::ptr(q));
        }
        Ok(V::P(p))
    }

    pub fn transmute(&mut self, st: &mut St, v: V, from: Ty, to: Ty) -> R<V> {
        if same_ty(from, to) {
            return Ok(v);
        }
        if let V::Op(_) = v {
            if pointee(from).is_some() && pointee(to).is_some() {
                let p = self.as_ptr(st, &v, from)?;
                return Ok(V::P(p));
            }
        }
        if pointee(to).is_some() {
            let mut v = v.clone();
            let mut f = from;
            while let V::Agg(_, fs) = &v {
                let nz: Vec<(usize, &V)> =
                    fs.iter().enumerate().filter(|(_, x)| **x != V::unit()).collect();
                if nz.len() != 1 {
                    break;
                }
                let ft = fields(f, 0);
                f = ft.get(nz[0].0).copied().unwrap_or(f);
                v = nz[0].1.clone();
            }
            if let V::P(_) | V::Fn(_) = v {
                return Ok(v);
            }
            if let (V::Op(_), Some(_)) = (&v, pointee(f)) {
                return Ok(V::P(self.as_ptr(st, &v, f)?));
            }
        }
        // strip/add newtype layers
        let (mut v, mut f) = (v, from);
        loop {
            if same_ty(f, to) {
                return Ok(v);
            }
            match sole_field(f) {
                Some((i, inner)) => {
                    v = self.project(st, &v, &Pj::F(i))?;
                    v = self.typed(st, v, inner)?;
                    f = inner;
                }
                None => break,
            }
        }
        let mut wraps = vec![];
        let mut t = to;
        loop {
            if same_ty(f, t) {
                break;
            }
            match sole_field(t) {
                Some((i, inner)) => {
                    wraps.push((t, i));
                    t = inner;
                }
                None => break,
            }
        }
        let mut r = if same_ty(f, t) {
            v
        } else if pointee(f).is_some() && pointee(t).is_some() {
            v
        } else if let (Some(_), Some((b, s))) = (int_info(f), int_info(t)) {
            if size_of(f) != size_of(t) {
                return Err("UB: transmute between sizes".into());
            }
            let n = self.num(&v, f)?;
            if let (RigidTy::Char | RigidTy::Bool, tr) = (&*kind(t), type_range(t).unwrap()) {
                if !st.facts.range(n).subset(&tr) {
                    return Err(format!("UB: {} may not be a valid {}", show(n), tname(t)));
                }
                V::N(n)
            } else {
                V::N(self.wrap(st, n, b, s))
            }
        } else if let (Some(_), Some(_)) = (int_info(f), is_float(t)) {
            let n = self.num(&v, f)?;
            match tk(n) {
                TK::App(op, a) if &*op == "fbits" => V::F(a[0]),
                _ => V::F(app("frombits", vec![n])),
            }
        } else if let (Some(_), Some(_)) = (is_float(f), int_info(t)) {
            let n = self.flt_of(&v)?;
            let x = app("fbits", vec![n]);
            set_base(x, type_range(t).unwrap());
            V::N(x)
        } else if is_enum(t) && int_info(f).is_some() {
            let n = self.num(&v, f)?;
            match st.facts.range(n).as_point().and_then(|z| variant_of_discr(t, z)) {
                Some(vi) => V::agg(vi, vec![]),
                None => return Err(format!("transmute {} to {}", tname(f), tname(t))),
            }
        } else if is_enum(f) && int_info(t).is_some() {
            self.discr(st, &v, f)?
        } else if fields(f, 0).len() == fields(t, 0).len()
            && !is_enum(f)
            && !is_enum(t)
            && !fields(f, 0).is_empty()
            && fields(f, 0).iter().zip(fields(t, 0).iter()).all(|(a, b)| same_ty(*a, *b))
        {
            v
        } else if is_enum(f) && is_enum(t) && adt_path(f) == adt_path(t) {
            // same generic enum at types that only differ by wrappers (e.g. lifetimes)
            v
        } else {
            return Err(format!("UB: transmute from `{}` to `{}`", tname(from), tname(to)));
        };
        for (w, i) in wraps.into_iter().rev() {
            let fs = fields(w, 0);
            let mut items = vec![];
            for (k, ft) in fs.iter().enumerate() {
                items.push(if k as u32 == i { r.clone() } else { self.zst(*ft)? });
            }
            r = V::agg(0, items);
        }
        Ok(r)
    }

    pub fn unsize(&mut self, st: &mut St, v: V, from: Ty, to: Ty) -> R<V> {
        match (pointee(from), pointee(to)) {
            (Some(fp), Some(tp)) => {
                let p = self.as_ptr(st, &v, from)?;
                let mut q = (*p).clone();
                if let Some(_) = slice_elem(tp) {
                    if let Some((_, n)) = array_elem(fp) {
                        // the array may itself be seen through wrappers
                        let (path, _) = self.reconcile(q.path.clone(), q.pty, fp)?;
                        q.path = path;
                        q.path.push(Pj::Idx(inti(0)));
                        q.pty = tp;
                        q.meta = Meta::Len(inti(n as i128));
                        return Ok(V::ptr(q));
                    }
                }
                if is_dyn(tp) {
                    if !is_dyn(fp) {
                        if !same_ty(q.pty, fp) {
                            let (path, ty) = self.reconcile(q.path.clone(), q.pty, fp)?;
                            q.path = path;
                            q.pty = ty;
                        }
                        q.meta = Meta::Vt(fp);
                    }
                    return Ok(V::ptr(q));
                }
                Err(format!("unsize {} to {}", tname(from), tname(to)))
            }
            _ => {
                // struct wrapping a pointer (Pin<Box<..>>, Option-free newtypes)
                if let V::Agg(vi, f) = &v {
                    let (ff, tf) = (fields(from, *vi), fields(to, *vi));
                    let mut out = vec![];
                    for (i, x) in f.iter().enumerate() {
                        if same_ty(ff[i], tf[i]) {
                            out.push(x.clone());
                        } else {
                            out.push(self.unsize(st, x.clone(), ff[i], tf[i])?);
                        }
                    }
                    return Ok(V::agg(*vi, out));
                }
                Err(format!("unsize {} to {}", tname(from), tname(to)))
            }
        }
    }

    // ---- control flow ----

    pub fn here(&self) -> String {
        // innermost location inside the repository, else innermost
        for (i, s) in self.stack.iter().rev() {
            if s.starts_with("src/") || s.starts_with("meta/") {
                return format!("{} in {}", s, i.name());
            }
        }
        match self.stack.last() {
            Some((i, s)) => format!("{} in {}", s, i.name()),
            None => String::new(),
        }
    }

    /// Whether undefined behaviour reached here is the analysed code's own doing: it is if
    /// the innermost frame is the library's, or is reached by calling an unsafe function.
    fn blame(&self) -> bool {
        let own = |s: &str| s.starts_with("src/") || s.starts_with("meta/");
        for k in (0..self.stack.len()).rev() {
            let (_, s) = &self.stack[k];
            if own(s) {
                return match self.stack.get(k + 1) {
                    None => true,
                    Some((j, _)) => crate::models::is_unsafe(j),
                };
            }
        }
        false
    }

    pub fn fail(&mut self, st: &St, msg: String) {
        let blame = self.blame();
        let out = if let (Some(m), true) = (msg.strip_prefix("UB: "), blame) {
            Out::Ub(m.to_string())
        } else if let Some(m) = msg.strip_prefix("PANIC: ") {
            Out::Panic(m.to_string())
        } else {
            let chain: Vec<String> =
                self.stack.iter().rev().take(6).map(|(i, s)| format!("{} @{}", i.name(), s)).collect();
            Out::Unknown(format!("{msg} [{}]", chain.join(" <- ")))
        };
        let at = self.here();
        self.outs.push(Outcome {
            facts: st.facts.clone(),
            evs: st.evs.clone(),
            out,
            at,
            trail: st.trail_vec(),
        });
    }

    pub fn run(&mut self, mut st: St, inst: Instance, args: Vec<V>) -> Vec<(St, V)> {
        let bi = match self.body(inst) {
            Some(b) => b,
            None => {
                self.fail(&st, format!("no body for {}", inst.name()));
                return vec![];
            }
        };
        if self.stack.iter().filter(|(i, _)| *i == inst).count() >= 6 || self.stack.len() > 160 {
            self.fail(&st, format!("recursion through {}", inst.name()));
            return vec![];
        }
        self.calls += 1;
        let n = bi.body.locals().len() as Al;
        let base = self.next;
        self.next += n;
        {
            let mem = Rc::make_mut(&mut st.mem);
            for (i, l) in bi.body.locals().iter().enumerate() {
                mem.insert(base + i as Al, Cell { ty: l.ty, v: V::Undef, live: true });
            }
            for (i, a) in args.into_iter().enumerate() {
                mem.get_mut(&(base + 1 + i as Al)).unwrap().v = a;
            }
        }
        if bi.in_repo {
            self.seen_fns.insert(format!("{}: {}", bi.file, inst.def.name()));
            st.note(format!("{} ({})", inst.def.name(), span_str(&bi.body.span)).into());
        }
        let fr = Frame { bi: bi.clone(), base };
        self.stack.push((inst, span_str(&bi.body.span)));
        let all: HashSet<usize> = (0..bi.body.blocks.len()).collect();
        let mut rets = vec![];
        let exits = self.region(&fr, &all, vec![(0, st)], None, &mut rets);
        debug_assert!(exits.is_empty());
        self.stack.pop();
        let mut out: Vec<(St, V)> = vec![];
        for mut s in rets {
            let v = {
                let mem = Rc::make_mut(&mut s.mem);
                let v = mem.get(&base).map(|c| c.v.clone()).unwrap_or(V::Undef);
                for i in 0..n {
                    mem.remove(&(base + i));
                }
                v
            };
            out.push((s, v));
        }
        self.merge_rets(out)
    }

    fn merge_rets(&mut self, v: Vec<(St, V)>) -> Vec<(St, V)> {
        let mut r: Vec<(St, V)> = vec![];
        'n: for (s, x) in v {
            for (o, y) in r.iter_mut() {
                if *y == x {
                    if let Some(f) = mergeable(o, &s) {
                        o.facts = f;
                        self.merges += 1;
                        continue 'n;
                    }
                }
            }
            r.push((s, x));
        }
        r
    }

    /// Worklist over `blocks`. Returns states leaving the region (target, state);
    /// states reaching `head` again through a back edge are returned as exits to `head`.
    pub fn region(
        &mut self,
        fr: &Frame,
        blocks: &HashSet<usize>,
        init: Vec<(usize, St)>,
        head: Option<usize>,
        rets: &mut Vec<St>,
    ) -> Vec<(usize, St)> {
        let bi = fr.bi.clone();
        let mut pend: BTreeMap<usize, Vec<(usize, St, bool)>> = BTreeMap::new();
        for (b, s) in init {
            pend.entry(bi.rpo[b]).or_default().push((b, s, true));
        }
        let mut exits: Vec<(usize, St)> = vec![];
        loop {
            let k = match pend.keys().next() {
                Some(k) => *k,
                None => break,
            };
            let group = pend.remove(&k).unwrap();
            // merge states that agree up to one fact
            let mut merged: Vec<(usize, St, bool)> = vec![];
            'g: for (b, s, first) in group {
                for (ob, os, _) in merged.iter_mut() {
                    if *ob == b {
                        if let Some(f) = mergeable(os, &s) {
                            os.facts = f;
                            self.merges += 1;
                            continue 'g;
                        }
                    }
                }
                merged.push((b, s, first));
            }
            for (b, s, first) in merged {
                let is_loop = bi.preds_loop.contains_key(&b) && !(first && head == Some(b));
                let nexts: Vec<(usize, St)> = if is_loop {
                    self.run_loop(fr, b, s, rets)
                } else {
                    self.block(fr, b, s, rets)
                };
                for (t, ns) in nexts {
                    if Some(t) == head || !blocks.contains(&t) {
                        // leaves the region, or closes the loop
                        let mut done = false;
                        for (ot, os) in exits.iter_mut() {
                            if *ot == t {
                                if let Some(f) = mergeable(os, &ns) {
                                    os.facts = f;
                                    done = true;
                                    break;
                                }
                            }
                        }
                        if !done {
                            exits.push((t, ns));
                        }
                    } else {
                        pend.entry(bi.rpo[t]).or_default().push((t, ns, false));
                    }
                }
            }
        }
        exits
    }

    fn block(&mut self, fr: &Frame, b: usize, mut st: St, rets: &mut Vec<St>) -> Vec<(usize, St)> {
        self.steps += 1;
        if self.steps > self.max_steps {
            if !self.cut {
                self.cut = true;
                self.fail(&st, "analysis budget exhausted".into());
            }
            return vec![];
        }
        let bi = fr.bi.clone();
        if bi.in_repo {
            self.seen_blocks.insert((bi.inst, b));
        }
        let blk = &bi.body.blocks[b];
        for s in &blk.statements {
            let sp = &s.source_info.span;
            let r = self.stmt(&mut st, fr, &s.kind);
            if let Err(m) = r {
                self.stack.last_mut().unwrap().1 = span_str(sp);
                self.fail(&st, m);
                return vec![];
            }
        }
        let tspan = blk.terminator.source_info.span;
        match &blk.terminator.kind {
            TerminatorKind::Goto { target } => vec![(*target, st)],
            TerminatorKind::Drop { target, .. } => vec![(*target, st)],
            TerminatorKind::Return => {
                rets.push(st);
                vec![]
            }
            TerminatorKind::Unreachable => {
                self.stack.last_mut().unwrap().1 = span_str(&tspan);
                self.fail(&st, "UB: unreachable code is reached".into());
                vec![]
            }
            TerminatorKind::Resume | TerminatorKind::Abort => {
                self.fail(&st, "PANIC: abort".into());
                vec![]
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = discr.ty(bi.body.locals()).unwrap();
                let v = match self.operand(&mut st, fr, discr) {
                    Ok(v) => v,
                    Err(m) => {
                        self.stack.last_mut().unwrap().1 = span_str(&tspan);
                        self.fail(&st, m);
                        return vec![];
                    }
                };
                let t = match self.num(&v, ty) {
                    Ok(t) => t,
                    Err(m) => {
                        self.stack.last_mut().unwrap().1 = span_str(&tspan);
                        self.fail(&st, m);
                        return vec![];
                    }
                };
                let t = self.simp(&st, t);
                let (bits, s) = int_info(ty).unwrap_or((64, false));
                let mut rest = st.facts.range(t);
                let mut out: Vec<(usize, St)> = vec![];
                for (c, tgt) in targets.branches() {
                    let z = Z::u(c).wrap(if bits == 1 { 8 } else { bits }, s);
                    if rest.contains(z) {
                        let mut ns = st.clone();
                        if ns.facts.assume(t, &Ivs::point(z)) {
                            out.push((tgt, ns));
                        }
                        rest = rest.minus_point(z);
                    }
                }
                if !rest.is_empty() {
                    let mut ns = st.clone();
                    if ns.facts.assume(t, &rest) {
                        out.push((targets.otherwise(), ns));
                    }
                }
                // dead targets that are `unreachable` for every feasible value are dropped
                out.retain(|(b, s2)| {
                    let blk = &bi.body.blocks[*b];
                    let _ = s2;
                    !(matches!(blk.terminator.kind, TerminatorKind::Unreachable)
                        && blk.statements.is_empty()
                        && is_discr_like(t))
                });
                out
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let r = self
                    .operand(&mut st, fr, cond)
                    .and_then(|v| self.num(&v, Ty::bool_ty()));
                let t = match r {
                    Ok(t) => self.simp(&st, t),
                    Err(m) => {
                        self.stack.last_mut().unwrap().1 = span_str(&tspan);
                        self.fail(&st, m);
                        return vec![];
                    }
                };
                let good = Z::i(*expected as i128);
                let bad = Z::i(!*expected as i128);
                let mut fs = st.clone();
                if matches!(
                    msg,
                    AssertMessage::MisalignedPointerDereference { .. }
                        | AssertMessage::NullPointerDereference
                        | AssertMessage::NullReferenceConstructed
                        | AssertMessage::InvalidEnumConstruction(..)
                ) {
                    return vec![(*target, st)];
                }
                if fs.facts.assume(t, &Ivs::point(bad)) {
                    self.stack.last_mut().unwrap().1 = span_str(&tspan);
                    let d = match msg {
                        AssertMessage::BoundsCheck { .. } => "index out of bounds".to_string(),
                        m => m.description().unwrap_or("assertion").to_string(),
                    };
                    self.fail(&fs, format!("PANIC: {d}"));
                }
                if st.facts.assume(t, &Ivs::point(good)) {
                    vec![(*target, st)]
                } else {
                    vec![]
                }
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                self.stack.last_mut().unwrap().1 = span_str(&tspan);
                let locals = bi.body.locals();
                let mut vals = vec![];
                let mut tys = vec![];
                for a in args {
                    tys.push(a.ty(locals).unwrap());
                    match self.operand(&mut st, fr, a) {
                        Ok(v) => vals.push(v),
                        Err(m) => {
                            self.fail(&st, m);
                            return vec![];
                        }
                    }
                }
                let fty = func.ty(locals).unwrap();
                let dty = destination.ty(locals).unwrap();
                let rs = match &*kind(fty) {
                    RigidTy::FnDef(d, a) => match Instance::resolve(*d, a) {
                        Ok(i) => self.call(st, i, Some((*d, a.clone())), vals, &tys, dty),
                        Err(e) => {
                            self.fail(&st, format!("unresolved call {e:?}"));
                            return vec![];
                        }
                    },
                    RigidTy::FnPtr(_) => match self.operand(&mut st, fr, func) {
                        Ok(V::Fn(i)) => self.call(st, i, None, vals, &tys, dty),
                        Ok(o) => {
                            self.fail(&st, format!("call through unknown function pointer {o:?}"));
                            return vec![];
                        }
                        Err(m) => {
                            self.fail(&st, m);
                            return vec![];
                        }
                    },
                    _ => {
                        self.fail(&st, format!("call of {}", tname(fty)));
                        return vec![];
                    }
                };
                let mut out = vec![];
                if let Some(tg) = target {
                    for (mut s, v) in rs {
                        let r = self.place(&mut s, fr, destination).and_then(|pl| self.write(&mut s, &pl, v));
                        match r {
                            Ok(()) => out.push((*tg, s)),
                            Err(m) => self.fail(&s, m),
                        }
                    }
                } else {
                    for (s, _) in rs {
                        self.fail(&s, "UB: diverging call returned".into());
                    }
                }
                out
            }
            TerminatorKind::InlineAsm { .. } => {
                self.fail(&st, "inline asm".into());
                vec![]
            }
        }
    }

    fn stmt(&mut self, st: &mut St, fr: &Frame, k: &StatementKind) -> R<()> {
        match k {
            StatementKind::Assign(p, rv) => {
                let v = self.rvalue(st, fr, rv)?;
                if p.projection.is_empty() {
                    let al = fr.base + p.local as Al;
                    let m = Rc::make_mut(&mut st.mem);
                    let c = m.get_mut(&al).unwrap();
                    c.v = v;
                    c.live = true;
                    return Ok(());
                }
                let pl = self.place(st, fr, p)?;
                self.write(st, &pl, v)
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let pl = self.place(st, fr, place)?;
                let vi = variant_index.to_index() as u32;
                let old = self.read(st, &pl)?;
                let n = fields(pl.ty, vi).len();
                let v = match old {
                    V::Agg(c, f) if c == vi => V::Agg(c, f),
                    _ => V::agg(vi, vec![V::Undef; n]),
                };
                self.write(st, &pl, v)
            }
            StatementKind::StorageLive(l) => {
                let al = fr.base + *l as Al;
                let c = Rc::make_mut(&mut st.mem).get_mut(&al).unwrap();
                c.v = V::Undef;
                c.live = true;
                Ok(())
            }
            StatementKind::StorageDead(l) => {
                let al = fr.base + *l as Al;
                let c = Rc::make_mut(&mut st.mem).get_mut(&al).unwrap();
                c.v = V::Undef;
                c.live = false;
                Ok(())
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                let v = self.operand(st, fr, o)?;
                let t = self.num(&v, Ty::bool_ty())?;
                let mut bad = st.facts.clone();
                if bad.assume(t, &Ivs::point(Z::ZERO)) && !bad.range(t).is_empty() {
                    // compiler assumptions in std are taken as given
                }
                st.facts.assume(t, &Ivs::point(Z::ONE));
                Ok(())
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                let locals = fr.bi.body.locals();
                let (ts, td) = (c.src.ty(locals).unwrap(), c.dst.ty(locals).unwrap());
                let s = self.operand(st, fr, &c.src)?;
                let d = self.operand(st, fr, &c.dst)?;
                let n = self.operand(st, fr, &c.count)?;
                let n = self.num(&n, Ty::usize_ty())?;
                self.mem_copy(st, &s, ts, &d, td, n)
            }
            _ => Ok(()),
        }
    }

    /// memcpy of `n` elements.
    pub fn mem_copy(&mut self, st: &mut St, s: &V, ts: Ty, d: &V, td: Ty, n: T) -> R<()> {
        let n = self.simp(st, n);
        let elem = pointee(ts).unwrap();
        let sp = self.as_ptr(st, s, ts)?;
        let dp = self.as_ptr(st, d, td)?;
        if !is_u8(elem) {
            if as_int(n) == Some(Z::ONE) {
                let (path, ty) = self.reconcile(sp.path.clone(), sp.pty, elem)?;
                let v = self.read(st, &Pl { al: sp.al, path, ty, meta: Meta::None, variant: None })?;
                let (path, ty) = self.reconcile(dp.path.clone(), dp.pty, elem)?;
                return self.write(st, &Pl { al: dp.al, path, ty, meta: Meta::None, variant: None }, v);
            }
            return Err("memory copy of several non-byte elements".into());
        }
        // source bytes
        let to_seq = |p: &Ptr| -> Ptr {
            let mut q = p.clone();
            if !matches!(q.path.last(), Some(Pj::Idx(_))) {
                q.path.push(Pj::Idx(inti(0)));
            }
            q
        };
        let (sp, dp) = (to_seq(&sp), to_seq(&dp));
        let idx = |p: &Ptr| match p.path.last() {
            Some(Pj::Idx(i)) => *i,
            _ => inti(0),
        };
        let (si, di) = (idx(&sp), idx(&dp));
        let scap = self.seq_cap(st, &sp)?.ok_or("copy source")?;
        if st.facts.range(sub(add(si, n), scap)).max() > Z::ZERO {
            return Err(format!(
                "UB: copy of {} bytes may read past the end of its source ({} bytes)",
                show(n),
                show(sub(scap, si))
            ));
        }
        let dcap = self.seq_cap(st, &dp)?.ok_or("copy destination")?;
        if st.facts.range(sub(add(di, n), dcap)).max() > Z::ZERO {
            return Err(format!(
                "UB: copy of {} bytes at offset {} may write past the end of its destination ({} bytes)",
                show(n),
                show(di),
                show(dcap)
            ));
        }
        let sc = self.read_container(st, &sp)?;
        let text = match self.sub_seq(st, &sc, si, n) {
            V::Op(t) => t,
            _ => return Err("copied bytes are not text".into()),
        };
        let dc = self.read_container(st, &dp)?;
        match dc {
            V::Buf(cap, old) => {
                let new = if as_int(di) == Some(Z::ZERO) {
                    text
                } else if sub(di, len(old)) == inti(0)
                    || st.facts.range(sub(di, len(old))).as_point() == Some(Z::ZERO)
                {
                    concat(old, text)
                } else {
                    app("patched", vec![old, di, text])
                };
                let mut path = dp.path.clone();
                path.pop();
                self.write(
                    st,
                    &Pl { al: dp.al, path, ty: dp.pty, meta: Meta::None, variant: None },
                    V::Buf(cap, new),
                )
            }
            o => Err(format!("byte copy into {o:?}")),
        }
    }

    pub fn read_container(&mut self, st: &mut St, p: &Ptr) -> R<V> {
        let c = self.cell(st, p.al)?;
        let mut v = c.v.clone();
        let n = p.path.len();
        let upto = if matches!(p.path.last(), Some(Pj::Idx(_))) { n - 1 } else { n };
        for pj in &p.path[..upto] {
            v = self.project(st, &v, pj)?;
        }
        Ok(v)
    }

    // ---- loops ----

    fn run_loop(&mut self, fr: &Frame, head: usize, s0: St, rets: &mut Vec<St>) -> Vec<(usize, St)> {
        let bi = fr.bi.clone();
        let set = bi.preds_loop[&head].clone();
        let mark = self.outs.len();
        let rmark = rets.len();
        let ex = self.region(fr, &set, vec![(head, s0.clone())], Some(head), rets);
        let (backs, exits): (Vec<_>, Vec<_>) = ex.into_iter().partition(|(t, _)| *t == head);
        if backs.is_empty() {
            return exits;
        }
        // a trip count that does not hang on an unknown length may be literal: unfold
        let literal = backs.iter().all(|(_, b)| {
            b.facts.0.iter().all(|(t, r)| s0.facts.get(*t) == Some(r) || !mentions(*t, "len"))
        });
        if literal {
            let (m2, r2) = (self.outs.len(), rets.len());
            let mut all = exits.clone();
            let mut cur: Vec<St> = backs.iter().map(|x| x.1.clone()).collect();
            for _ in 0..12 {
                if cur.is_empty() {
                    self.unrolled += 1;
                    return all;
                }
                if cur.len() > 16 || self.outs.len() > m2 + 200 {
                    break;
                }
                let mut next = vec![];
                for s in cur {
                    let ex = self.region(fr, &set, vec![(head, s)], Some(head), rets);
                    for (t, s) in ex {
                        if t == head {
                            next.push(s)
                        } else {
                            all.push((t, s))
                        }
                    }
                }
                cur = next;
            }
            self.outs.truncate(m2);
            rets.truncate(r2);
        }
        // widen: generalise over the number of completed iterations
        let kept: Vec<Outcome> = self.outs.drain(mark..).collect();
        let kept_rets: Vec<St> = rets.drain(rmark..).collect();
        let bs: Vec<St> = backs.into_iter().map(|x| x.1).collect();
        if let Some(r) = crate::widen::widen(self, fr, head, &set, &s0, &bs, rets) {
            if !self.outs[mark..].iter().any(|o| matches!(o.out, Out::Unknown(_))) {
                self.widened += 1;
                return r;
            }
        }
        self.outs.truncate(mark);
        self.outs.extend(kept);
        rets.truncate(rmark);
        rets.extend(kept_rets);
        // bounded unfolding for loops with a literal trip count
        self.unrolled += 1;
        let (m2, r2) = (self.outs.len(), rets.len());
        let mut all = exits.clone();
        let mut cur = bs.clone();
        for _ in 0..40 {
            if cur.is_empty() {
                return all;
            }
            if cur.len() > 64 {
                break;
            }
            let mut next = vec![];
            for s in cur {
                let ex = self.region(fr, &set, vec![(head, s)], Some(head), rets);
                for (t, s) in ex {
                    if t == head {
                        next.push(s)
                    } else {
                        all.push((t, s))
                    }
                }
            }
            cur = next;
        }
        // the first iterations may differ from the others: summarise from a later one
        self.outs.truncate(m2);
        rets.truncate(r2);
        let mut exits = exits;
        let mut cur = bs;
        for _ in 0..2 {
            let mut next = vec![];
            for s in cur {
                let (m3, r3) = (self.outs.len(), rets.len());
                let ex = self.region(fr, &set, vec![(head, s.clone())], Some(head), rets);
                let (backs, ex): (Vec<_>, Vec<_>) = ex.into_iter().partition(|(t, _)| *t == head);
                if backs.is_empty() {
                    exits.extend(ex);
                    continue;
                }
                let kept: Vec<Outcome> = self.outs.drain(m3..).collect();
                let kept_rets: Vec<St> = rets.drain(r3..).collect();
                let bs: Vec<St> = backs.into_iter().map(|x| x.1).collect();
                if let Some(r) = crate::widen::widen(self, fr, head, &set, &s, &bs, rets) {
                    if !self.outs[m3..].iter().any(|o| matches!(o.out, Out::Unknown(_))) {
                        self.widened += 1;
                        exits.extend(r);
                        continue;
                    }
                }
                self.outs.truncate(m3);
                self.outs.extend(kept);
                rets.truncate(r3);
                rets.extend(kept_rets);
                exits.extend(ex);
                next.extend(bs);
            }
            cur = next;
            if cur.is_empty() {
                return exits;
            }
            if cur.len() > 64 {
                break;
            }
        }
        for s in cur {
            self.fail(&s, "loop could not be summarised".into());
        }
        exits
    }

    // ---- freezing values into terms ----

    pub fn freeze(&mut self, st: &mut St, v: &V, ty: Ty) -> T {
        self.freeze_d(st, v, ty, 0)
    }

    fn freeze_d(&mut self, st: &mut St, v: &V, ty: Ty, d: u32) -> T {
        if d > 40 {
            return sym("deep");
        }
        match v {
            V::Undef => sym("undef"),
            V::N(t) => self.simp(st, *t),
            V::F(t) => *t,
            V::Op(t) => *t,
            V::Fn(i) => app(&format!("fn:{}", i.name()), vec![]),
            V::Buf(n, t) => app("buf", vec![inti(*n as i128), *t]),
            V::Rep(x, n) => {
                let e = array_elem(ty).map(|x| x.0).unwrap_or(ty);
                let f = self.freeze_d(st, &x.clone(), e, d + 1);
                app("rep", vec![f, inti(*n as i128)])
            }
            V::Seq(items) => {
                let e = arg_ty(ty, 0).unwrap_or(ty);
                let a: Vec<T> =
                    items.iter().map(|x| self.freeze_d(st, x, e, d + 1)).collect();
                app("arr", a)
            }
            V::Agg(vi, items) => {
                let at = array_elem(ty).map(|x| x.0).or(slice_elem(ty));
                if let Some(e) = at {
                    let a: Vec<T> =
                        items.iter().map(|x| self.freeze_d(st, x, e, d + 1)).collect();
                    return app("arr", a);
                }
                let fs = fields(ty, *vi);
                let mut a: Vec<T> = vec![];
                for (i, x) in items.iter().enumerate() {
                    let ft = fs.get(i).copied().unwrap_or(ty);
                    a.push(self.freeze_d(st, x, ft, d + 1));
                }
                let en = is_enum(ty);
                // eta: a struct rebuilt from all the fields of one term is that term
                if !a.is_empty() && !en {
                    if let TK::App(op, args) = tk(a[0]) {
                        if &*op == "f:0" {
                            let t = args[0];
                            if a.iter().enumerate().all(|(i, x)| *x == fterm(t, 0, i as u32, false)) {
                                return t;
                            }
                        }
                    }
                }
                let label = if en { format!("v{vi}") } else { "s".into() };
                app(&label, a)
            }
            V::P(p) => {
                let p = p.clone();
                if self.cell(st, p.al).is_err() {
                    return sym("dangling");
                }
                let pl = Pl {
                    al: p.al,
                    path: p.path.clone(),
                    ty: p.pty,
                    meta: p.meta.clone(),
                    variant: None,
                };
                let c = match self.read(st, &pl) {
                    Ok(v) => v,
                    Err(e) => return app(&format!("badptr:{e}"), vec![]),
                };
                let ct = self.freeze_d(st, &c, p.pty, d + 1);
                match &p.meta {
                    Meta::Vt(t) => app(&format!("dyn:{}", tname(*t)), vec![ct]),
                    _ => mk_ref(ct),
                }
            }
        }
    }
}

fn c_ty(c: &Cell) -> Ty {
    c.ty
}

fn is_discr_like(t: T) -> bool {
    match tk(t) {
        TK::App(op, _) => &*op == "discr" || &*op == "cmp",
        TK::Int(_) => false,
        _ => false,
    }
}

pub fn mk_ref(c: T) -> T {
    if let TK::App(op, args) = tk(c) {
        if &*op == "deref" {
            return args[0];
        }
    }
    app("ref", vec![c])
}

/// Projection of a term.
pub fn fterm(t: T, v: u32, i: u32, en: bool) -> T {
    if let TK::App(op, args) = tk(t) {
        if en && *op == *format!("v{v}") {
            return args[i as usize];
        }
        if !en && &*op == "s" {
            return args[i as usize];
        }
    }
    if en {
        app(&format!("f:{v}.{i}"), vec![t])
    } else {
        app(&format!("f:{i}"), vec![t])
    }
}

pub fn mul(a: T, b: T) -> T {
    let (x, y) = (as_int(a), as_int(b));
    if let (Some(x), Some(y)) = (x, y) {
        if let Some(z) = x.mul(y) {
            return int(z);
        }
    }
    for (c, t) in [(x, b), (y, a)] {
        if let Some(z) = c {
            if let Some(k) = z.to_i128() {
                if k.abs() <= 4096 {
                    return scale(t, k as i64);
                }
            }
        }
    }
    app("mul", vec![a.min(b), a.max(b)])
}

fn bool_bin(op: &str, a: T, b: T) -> T {
    let (x, y) = (as_int(a), as_int(b));
    let abs = if op == "and" { Z::ZERO } else { Z::ONE };
    if x == Some(abs) || y == Some(abs) {
        return int(abs);
    }
    if x.is_some() {
        return b;
    }
    if y.is_some() {
        return a;
    }
    let t = app(op, vec![a, b]);
    bool_base(t);
    t
}

fn const_bin(op: BinOp, x: Z, y: Z, bits: u32, s: bool) -> Option<Z> {
    let z = match op {
        BinOp::BitAnd => Z { hi: x.hi & y.hi, lo: x.lo & y.lo },
        BinOp::BitOr => Z { hi: x.hi | y.hi, lo: x.lo | y.lo },
        BinOp::BitXor => Z { hi: x.hi ^ y.hi, lo: x.lo ^ y.lo },
        BinOp::Shl | BinOp::ShlUnchecked => {
            let k = (y.lo % bits as u128) as u32;
            Z::u(x.lo << k)
        }
        BinOp::Shr | BinOp::ShrUnchecked => {
            let k = (y.lo % bits as u128) as u32;
            if s {
                Z::i(x.to_i128()? >> k)
            } else {
                Z::u(x.lo >> k)
            }
        }
        BinOp::Div => {
            if s {
                Z::i(x.to_i128()?.checked_div(y.to_i128()?)?)
            } else {
                Z::u(x.lo.checked_div(y.lo)?)
            }
        }
        BinOp::Rem => {
            if s {
                Z::i(x.to_i128()?.checked_rem(y.to_i128()?)?)
            } else {
                Z::u(x.lo.checked_rem(y.lo)?)
            }
        }
        _ => return None,
    };
    Some(z.wrap(bits, s))
}

fn sole_field_unsized(ty: Ty) -> Option<(u32, Ty)> {
    match &*kind(ty) {
        RigidTy::Adt(d, _) if d.kind().is_struct() => {}
        _ => return None,
    }
    if is_ptr_adt(ty) || is_string(ty) || is_vec(ty) {
        return None;
    }
    let fs = fields(ty, 0);
    let nz: Vec<(usize, Ty)> = fs.iter().copied().enumerate().filter(|(_, t)| !is_zst(*t)).collect();
    let nz = if nz.is_empty() {
        fs.iter().copied().enumerate().filter(|(_, t)| !adt_path(*t).ends_with("PhantomData")).collect()
    } else {
        nz
    };
    if nz.len() == 1 {
        Some((nz[0].0 as u32, nz[0].1))
    } else {
        None
    }
}

fn sole_chain(outer: Ty, inner: Ty) -> bool {
    let mut o = outer;
    for _ in 0..6 {
        if same_ty(o, inner) {
            return true;
        }
        match sole_field_unsized(o) {
            Some((_, i)) => o = i,
            None => return false,
        }
    }
    false
}

/// Types whose values may be reinterpreted as each other in place.
fn compatible(a: Ty, b: Ty) -> bool {
    if same_ty(a, b) {
        return true;
    }
    let thin = |t: Ty| pointee(t).map(|p| size_of(p).is_some() || is_zst(p));
    if let (Some(x), Some(y)) = (thin(a), thin(b)) {
        return x == y;
    }
    if let (Some((x, _)), Some((y, _))) = (int_info(a), int_info(b)) {
        let cb = |t: Ty| matches!(&*kind(t), RigidTy::Bool | RigidTy::Char);
        return x == y && !cb(a) && !cb(b);
    }
    // the same generic type at different lifetimes prints identically; transparent wrappers
    sole_chain(a, b) || sole_chain(b, a)
}

/// If two states differ only in one fact, the state that covers both.
pub fn mergeable(a: &St, b: &St) -> Option<Facts> {
    if !(Rc::ptr_eq(&a.evs, &b.evs) || a.evs == b.evs) {
        return None;
    }
    let f = merge_facts(&a.facts, &b.facts)?;
    if !(Rc::ptr_eq(&a.mem, &b.mem) || same_mem(a, b)) {
        return None;
    }
    Some(f)
}

fn same_mem(a: &St, b: &St) -> bool {
    if a.mem.len() != b.mem.len() {
        return false;
    }
    a.mem.iter().all(|(k, c)| match b.mem.get(k) {
        Some(d) => c.live == d.live && (c.v == d.v),
        None => false,
    })
}

/// Exact union of two fact sets when they differ on one key (plus booleans it decides).
pub fn merge_facts(a: &Facts, b: &Facts) -> Option<Facts> {
    if a == b {
        return Some(a.clone());
    }
    let keys: BTreeSet<T> = a.0.keys().chain(b.0.keys()).copied().collect();
    let mut diff = vec![];
    for k in keys {
        if a.0.get(&k) != b.0.get(&k) {
            diff.push(k);
        }
    }
    // comparison booleans are implied by the facts on their operand
    let prim: Vec<T> = diff
        .iter()
        .copied()
        .filter(|k| match tk(*k) {
            TK::App(op, args) if &*op == "le" || &*op == "eqc" => !diff.contains(&args[0]),
            _ => true,
        })
        .collect();
    if prim.len() != 1 {
        return None;
    }
    let k = prim[0];
    if a.range(k).is_empty() || b.range(k).is_empty() {
        return None;
    }
    let u = a.range(k).union(&b.range(k));
    let mut r = a.clone();
    for d in diff {
        r.0.remove(&d);
    }
    if r.range(k) != u {
        r.0.insert(k, u);
    }
    Some(r)
}

fn zst_val(ty: Ty) -> V {
    if let Some((_, n)) = array_elem(ty) {
        if n == 0 {
            return V::agg(0, vec![]);
        }
    }
    V::agg(0, fields(ty, 0).iter().map(|f| zst_val(*f)).collect())
}
