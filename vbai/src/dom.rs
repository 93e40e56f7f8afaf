//! Abstract values, memory and program states.

use crate::terms::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type Al = u32;

#[derive(Clone, PartialEq, Debug)]
pub enum Pj {
    /// struct, tuple or closure field
    F(u32),
    /// enum variant field
    V(u32, u32),
    /// element of an array, slice or text
    Idx(T),
    /// contents of a growable container
    Cont,
    /// the place viewed through a transparent wrapper type
    Up(Ty),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Meta {
    None,
    Len(T),
    Vt(Ty),
    Dyn,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Ptr {
    pub al: Al,
    pub path: Vec<Pj>,
    pub pty: Ty,
    pub meta: Meta,
}

#[derive(Clone, PartialEq, Debug)]
pub enum V {
    Undef,
    N(T),
    F(T),
    Agg(u32, Rc<Vec<V>>),
    P(Rc<Ptr>),
    Fn(Instance),
    Op(T),
    /// Fixed-size byte buffer whose prefix holds `text`.
    Buf(u64, T),
    /// Growable sequence with known elements.
    Seq(Rc<Vec<V>>),
    /// Array of one repeated value.
    Rep(Rc<V>, u64),
}

impl V {
    pub fn agg(v: u32, f: Vec<V>) -> V {
        V::Agg(v, Rc::new(f))
    }
    pub fn unit() -> V {
        V::agg(0, vec![])
    }
    pub fn int(i: i128) -> V {
        V::N(inti(i))
    }
    pub fn ptr(p: Ptr) -> V {
        V::P(Rc::new(p))
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Cell {
    pub ty: Ty,
    pub v: V,
    pub live: bool,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ev {
    Call { name: Rc<str>, args: Vec<T>, ret: T },
    /// Placeholder / summary of the events of `count` loop iterations.
    Rep { id: u32, count: T, body: Vec<(Facts, Vec<Ev>)> },
}

pub struct Trail {
    pub what: Rc<str>,
    pub prev: Option<Rc<Trail>>,
}

#[derive(Clone)]
pub struct St {
    pub mem: Rc<HashMap<Al, Cell>>,
    pub derefs: Rc<HashMap<T, Al>>,
    pub facts: Facts,
    pub evs: Rc<Vec<Ev>>,
    pub trail: Option<Rc<Trail>>,
}

impl St {
    pub fn new() -> St {
        St {
            mem: Rc::new(HashMap::new()),
            derefs: Rc::new(HashMap::new()),
            facts: Facts::default(),
            evs: Rc::new(vec![]),
            trail: None,
        }
    }
    pub fn note(&mut self, s: Rc<str>) {
        if let Some(t) = &self.trail {
            if t.what == s {
                return;
            }
        }
        self.trail = Some(Rc::new(Trail { what: s, prev: self.trail.take() }));
    }
    pub fn trail_vec(&self) -> Vec<Rc<str>> {
        let mut r = vec![];
        let mut c = self.trail.clone();
        while let Some(t) = c {
            r.push(t.what.clone());
            c = t.prev.clone();
        }
        r.reverse();
        r
    }
}

// ---- type helpers ----

thread_local! {
    static NAMES: RefCell<HashMap<Ty, Rc<str>>> = RefCell::new(HashMap::new());
    static KINDS: RefCell<HashMap<Ty, Rc<RigidTy>>> = RefCell::new(HashMap::new());
    static FIELDS: RefCell<HashMap<(Ty, u32), Rc<Vec<Ty>>>> = RefCell::new(HashMap::new());
    /// Types recorded for enum-typed terms when their discriminant is consulted.
    pub static TERM_TY: RefCell<HashMap<T, Ty>> = RefCell::new(HashMap::new());
}

pub fn kind(ty: Ty) -> Rc<RigidTy> {
    if let Some(k) = KINDS.with(|k| k.borrow().get(&ty).cloned()) {
        return k;
    }
    let k = match ty.kind() {
        TyKind::RigidTy(r) => Rc::new(r),
        other => panic!("non-rigid type {other:?}"),
    };
    KINDS.with(|m| m.borrow_mut().insert(ty, k.clone()));
    k
}

fn strip_regions(s: &str) -> String {
    // removes 'a / '{erased} / '_ lifetimes from a printed type
    let b: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '\'' {
            i += 1;
            if i < b.len() && b[i] == '{' {
                while i < b.len() && b[i] != '}' {
                    i += 1;
                }
                i += 1;
            } else {
                while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                    i += 1;
                }
            }
            if i < b.len() && b[i] == ' ' {
                i += 1;
            } else if i + 1 < b.len() && b[i] == ',' && b[i + 1] == ' ' {
                i += 2;
            }
            continue;
        }
        o.push(b[i]);
        i += 1;
    }
    o.replace("<>", "").replace(" + )", ")").trim_end_matches(" + ").to_string()
}

pub fn tname(ty: Ty) -> Rc<str> {
    if let Some(n) = NAMES.with(|n| n.borrow().get(&ty).cloned()) {
        return n;
    }
    let n: Rc<str> = strip_regions(&format!("{ty}")).into();
    NAMES.with(|m| m.borrow_mut().insert(ty, n.clone()));
    n
}

pub fn same_ty(a: Ty, b: Ty) -> bool {
    a == b || tname(a) == tname(b)
}

/// (bits, signed) of integer-like types; bool is 1 bit, char 32.
pub fn int_info(ty: Ty) -> Option<(u32, bool)> {
    match &*kind(ty) {
        RigidTy::Int(i) => Some((i.num_bytes() as u32 * 8, true)),
        RigidTy::Uint(i) => Some((i.num_bytes() as u32 * 8, false)),
        RigidTy::Bool => Some((1, false)),
        RigidTy::Char => Some((32, false)),
        RigidTy::Pat(t, _) => int_info(*t),
        _ => None,
    }
}

pub fn type_range(ty: Ty) -> Option<Ivs> {
    match &*kind(ty) {
        RigidTy::Bool => Some(Ivs::range(Z::ZERO, Z::ONE)),
        RigidTy::Char => {
            Some(Ivs(vec![(Z::ZERO, Z::u(0xD7FF)), (Z::u(0xE000), Z::u(0x10FFFF))]))
        }
        _ => {
            let (bits, s) = int_info(ty)?;
            Some(bits_range(bits, s))
        }
    }
}

pub fn bits_range(bits: u32, s: bool) -> Ivs {
    if s {
        if bits == 128 {
            Ivs::range(Z::i(i128::MIN), Z::i(i128::MAX))
        } else {
            Ivs::range(Z::i(-(1i128 << (bits - 1))), Z::i((1i128 << (bits - 1)) - 1))
        }
    } else if bits == 128 {
        Ivs::range(Z::ZERO, Z::u(u128::MAX))
    } else {
        Ivs::range(Z::ZERO, Z::u((1u128 << bits) - 1))
    }
}

pub fn is_float(ty: Ty) -> Option<u32> {
    match &*kind(ty) {
        RigidTy::Float(FloatTy::F32) => Some(32),
        RigidTy::Float(FloatTy::F64) => Some(64),
        RigidTy::Float(FloatTy::F16) => Some(16),
        RigidTy::Float(FloatTy::F128) => Some(128),
        _ => None,
    }
}

pub fn adt_name(ty: Ty) -> Option<String> {
    match &*kind(ty) {
        RigidTy::Adt(d, _) => Some(d.trimmed_name()),
        _ => None,
    }
}

pub fn adt_path(ty: Ty) -> Rc<str> {
    thread_local! { static C: RefCell<HashMap<Ty, Rc<str>>> = RefCell::new(HashMap::new()); }
    if let Some(n) = C.with(|n| n.borrow().get(&ty).cloned()) {
        return n;
    }
    let n: Rc<str> = match &*kind(ty) {
        RigidTy::Adt(d, _) => d.name().into(),
        _ => "".into(),
    };
    C.with(|m| m.borrow_mut().insert(ty, n.clone()));
    n
}

pub fn arg_ty(ty: Ty, i: usize) -> Option<Ty> {
    match &*kind(ty) {
        RigidTy::Adt(_, a) => a.0.iter().filter_map(|x| x.ty().copied()).nth(i),
        _ => None,
    }
}

/// The smart pointers that the abstract memory represents directly as pointers.
pub fn is_ptr_adt(ty: Ty) -> bool {
    matches!(
        &*adt_path(ty),
        "std::boxed::Box"
            | "alloc::boxed::Box"
            | "std::ptr::Unique"
            | "core::ptr::Unique"
            | "std::ptr::NonNull"
            | "core::ptr::NonNull"
            | "std::sync::Arc"
            | "alloc::sync::Arc"
            | "std::rc::Rc"
            | "alloc::rc::Rc"
    )
}

pub fn is_string(ty: Ty) -> bool {
    matches!(&*adt_path(ty), "std::string::String" | "alloc::string::String")
}
pub fn is_vec(ty: Ty) -> bool {
    matches!(&*adt_path(ty), "std::vec::Vec" | "alloc::vec::Vec")
}

/// Static pointee type of a pointer-like type.
pub fn pointee(ty: Ty) -> Option<Ty> {
    match &*kind(ty) {
        RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _) => Some(*t),
        RigidTy::Adt(..) if is_ptr_adt(ty) => arg_ty(ty, 0),
        RigidTy::Pat(t, _) => pointee(*t),
        _ => None,
    }
}

pub fn is_dyn(ty: Ty) -> bool {
    matches!(&*kind(ty), RigidTy::Dynamic(..))
}
pub fn is_str(ty: Ty) -> bool {
    matches!(&*kind(ty), RigidTy::Str)
}
pub fn slice_elem(ty: Ty) -> Option<Ty> {
    match &*kind(ty) {
        RigidTy::Slice(t) => Some(*t),
        _ => None,
    }
}
pub fn array_elem(ty: Ty) -> Option<(Ty, u64)> {
    match &*kind(ty) {
        RigidTy::Array(t, n) => Some((*t, n.eval_target_usize().ok()?)),
        _ => None,
    }
}
pub fn is_u8(ty: Ty) -> bool {
    matches!(&*kind(ty), RigidTy::Uint(UintTy::U8))
}
pub fn is_enum(ty: Ty) -> bool {
    match &*kind(ty) {
        RigidTy::Adt(d, _) => d.kind().is_enum(),
        _ => false,
    }
}
pub fn is_union(ty: Ty) -> bool {
    match &*kind(ty) {
        RigidTy::Adt(d, _) => d.kind().is_union(),
        _ => false,
    }
}

/// Field types of a struct/tuple/closure (variant 0) or an enum variant.
pub fn fields(ty: Ty, variant: u32) -> Rc<Vec<Ty>> {
    if let Some(k) = FIELDS.with(|k| k.borrow().get(&(ty, variant)).cloned()) {
        return k;
    }
    let r: Vec<Ty> = match &*kind(ty) {
        RigidTy::Adt(d, a) => {
            let vs = d.variants();
            match vs.get(variant as usize) {
                Some(v) => v.fields().iter().map(|f| f.ty_with_args(a)).collect(),
                None => vec![],
            }
        }
        RigidTy::Tuple(ts) => ts.clone(),
        RigidTy::Closure(_, a) => {
            // the last generic argument is the tuple of captured values
            match a.0.last().and_then(|x| x.ty().copied()) {
                Some(t) => match &*kind(t) {
                    RigidTy::Tuple(ts) => ts.clone(),
                    _ => vec![],
                },
                None => vec![],
            }
        }
        _ => vec![],
    };
    let r = Rc::new(r);
    FIELDS.with(|m| m.borrow_mut().insert((ty, variant), r.clone()));
    r
}

pub fn n_variants(ty: Ty) -> usize {
    match &*kind(ty) {
        RigidTy::Adt(d, _) => d.num_variants(),
        _ => 1,
    }
}

pub fn discr_val(ty: Ty, variant: u32) -> Z {
    match &*kind(ty) {
        RigidTy::Adt(d, _) if d.kind().is_enum() => {
            let vs = d.variants();
            let idx = vs[variant as usize].idx();
            let di = d.discriminant_for_variant(idx);
            match int_info(di.ty) {
                Some((bits, s)) => Z::u(di.val).wrap(bits, s),
                None => Z::u(di.val),
            }
        }
        _ => Z::ZERO,
    }
}

pub fn variant_of_discr(ty: Ty, z: Z) -> Option<u32> {
    (0..n_variants(ty) as u32).find(|v| discr_val(ty, *v) == z)
}

pub fn inhabited(ty: Ty, depth: u32) -> bool {
    if depth == 0 {
        return true;
    }
    match &*kind(ty) {
        RigidTy::Never => false,
        RigidTy::Adt(d, _) if d.kind().is_enum() => {
            (0..n_variants(ty) as u32).any(|v| fields(ty, v).iter().all(|f| inhabited(*f, depth - 1)))
        }
        RigidTy::Adt(d, _) if d.kind().is_struct() && !is_ptr_adt(ty) => {
            fields(ty, 0).iter().all(|f| inhabited(*f, depth - 1))
        }
        RigidTy::Tuple(ts) => ts.iter().all(|f| inhabited(*f, depth - 1)),
        _ => true,
    }
}

/// Term for the discriminant of an enum-typed term.
pub fn discr_term(t: T, ty: Ty) -> T {
    let d = app("discr", vec![t]);
    let mut iv = Ivs(vec![]);
    for v in 0..n_variants(ty) as u32 {
        if fields(ty, v).iter().all(|f| inhabited(*f, 3)) {
            iv = iv.union(&Ivs::point(discr_val(ty, v)));
        }
    }
    set_base(d, iv);
    TERM_TY.with(|m| m.borrow_mut().insert(t, ty));
    d
}

pub fn is_zst(ty: Ty) -> bool {
    match ty.layout() {
        Ok(l) => {
            let s = l.shape();
            s.is_sized() && s.size.bytes() == 0
        }
        Err(_) => false,
    }
}

pub fn size_of(ty: Ty) -> Option<usize> {
    ty.layout().ok().map(|l| l.shape()).filter(|s| s.is_sized()).map(|s| s.size.bytes())
}

/// The single non-zero-sized field of a struct, if it has exactly one.
pub fn sole_field(ty: Ty) -> Option<(u32, Ty)> {
    match &*kind(ty) {
        RigidTy::Adt(d, _) if d.kind().is_struct() => {}
        RigidTy::Tuple(_) => {}
        _ => return None,
    }
    if is_ptr_adt(ty) || is_string(ty) || is_vec(ty) {
        return None;
    }
    let fs = fields(ty, 0);
    let nz: Vec<(usize, Ty)> =
        fs.iter().copied().enumerate().filter(|(_, t)| !is_zst(*t)).collect();
    if nz.len() == 1 {
        Some((nz[0].0 as u32, nz[0].1))
    } else {
        None
    }
}

pub fn def_name(i: &Instance) -> Rc<str> {
    thread_local! { static C: RefCell<HashMap<Instance, Rc<str>>> = RefCell::new(HashMap::new()); }
    if let Some(n) = C.with(|n| n.borrow().get(i).cloned()) {
        return n;
    }
    let n: Rc<str> = i.def.name().into();
    C.with(|m| m.borrow_mut().insert(*i, n.clone()));
    n
}
