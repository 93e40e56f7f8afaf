//! Hash-consed value terms, linear arithmetic over them, and interval facts.
//!
//! A term names a value by provenance: a root input, a projection of one, a call into
//! user code, a linear combination of other terms. Two occurrences of the same term
//! denote the same run-time value. Interval facts give the numeric abstract domain.

use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

/// 256-bit two's complement integer, wide enough for every sum of u128/i128 values.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Z {
    pub hi: i128,
    pub lo: u128,
}

impl Z {
    pub const ZERO: Z = Z { hi: 0, lo: 0 };
    pub const ONE: Z = Z { hi: 0, lo: 1 };
    pub fn i(v: i128) -> Z {
        Z { hi: if v < 0 { -1 } else { 0 }, lo: v as u128 }
    }
    pub fn u(v: u128) -> Z {
        Z { hi: 0, lo: v }
    }
    pub fn add(self, o: Z) -> Z {
        let (lo, c) = self.lo.overflowing_add(o.lo);
        Z { hi: self.hi.wrapping_add(o.hi).wrapping_add(c as i128), lo }
    }
    pub fn neg(self) -> Z {
        Z { hi: !self.hi, lo: !self.lo }.add(Z::ONE)
    }
    pub fn sub(self, o: Z) -> Z {
        self.add(o.neg())
    }
    pub fn is_zero(self) -> bool {
        self == Z::ZERO
    }
    pub fn to_i128(self) -> Option<i128> {
        let v = self.lo as i128;
        if (v < 0 && self.hi == -1) || (v >= 0 && self.hi == 0) {
            Some(v)
        } else {
            None
        }
    }
    pub fn to_u128(self) -> Option<u128> {
        if self.hi == 0 {
            Some(self.lo)
        } else {
            None
        }
    }
    pub fn mul(self, o: Z) -> Option<Z> {
        let (a, b) = (self.to_i128()?, o.to_i128()?);
        a.checked_mul(b).map(Z::i)
    }
    pub fn mul_small(self, k: i64) -> Z {
        // k is a tiny coefficient
        let mut r = Z::ZERO;
        let n = k.unsigned_abs();
        for _ in 0..n.min(1 << 20) {
            r = r.add(self);
        }
        if k < 0 {
            r.neg()
        } else {
            r
        }
    }
    pub fn max() -> Z {
        Z { hi: i128::MAX / 4, lo: u128::MAX }
    }
    pub fn min() -> Z {
        Z { hi: i128::MIN / 4, lo: 0 }
    }
    /// Wraps into `bits` bits, signed or not.
    pub fn wrap(self, bits: u32, signed: bool) -> Z {
        if bits == 128 {
            if signed {
                Z::i(self.lo as i128)
            } else {
                Z::u(self.lo)
            }
        } else {
            let m = (1u128 << bits) - 1;
            let v = self.lo & m;
            if signed && (v >> (bits - 1)) & 1 == 1 {
                Z::i(v as i128 - (1i128 << bits))
            } else {
                Z::u(v)
            }
        }
    }
}
impl PartialOrd for Z {
    fn partial_cmp(&self, o: &Z) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Z {
    fn cmp(&self, o: &Z) -> Ordering {
        self.hi.cmp(&o.hi).then(self.lo.cmp(&o.lo))
    }
}
impl std::fmt::Display for Z {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if let Some(v) = self.to_i128() {
            write!(f, "{v}")
        } else if let Some(v) = self.to_u128() {
            write!(f, "{v}")
        } else if self.hi < 0 {
            write!(f, "-inf")
        } else {
            write!(f, "inf")
        }
    }
}
impl std::fmt::Debug for Z {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{self}")
    }
}

/// A finite union of closed intervals, sorted and disjoint.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Ivs(pub Vec<(Z, Z)>);

impl Ivs {
    pub fn full() -> Ivs {
        Ivs(vec![(Z::min(), Z::max())])
    }
    pub fn range(a: Z, b: Z) -> Ivs {
        if a > b {
            Ivs(vec![])
        } else {
            Ivs(vec![(a, b)])
        }
    }
    pub fn point(a: Z) -> Ivs {
        Ivs(vec![(a, a)])
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn min(&self) -> Z {
        self.0.first().map(|x| x.0).unwrap_or(Z::max())
    }
    pub fn max(&self) -> Z {
        self.0.last().map(|x| x.1).unwrap_or(Z::min())
    }
    pub fn as_point(&self) -> Option<Z> {
        if self.0.len() == 1 && self.0[0].0 == self.0[0].1 {
            Some(self.0[0].0)
        } else {
            None
        }
    }
    pub fn contains(&self, z: Z) -> bool {
        self.0.iter().any(|(a, b)| *a <= z && z <= *b)
    }
    pub fn meet(&self, o: &Ivs) -> Ivs {
        let mut r = vec![];
        for (a, b) in &self.0 {
            for (c, d) in &o.0 {
                let lo = *a.max(c);
                let hi = *b.min(d);
                if lo <= hi {
                    r.push((lo, hi));
                }
            }
        }
        r.sort();
        Ivs(r)
    }
    pub fn union(&self, o: &Ivs) -> Ivs {
        let mut v: Vec<(Z, Z)> = self.0.iter().chain(o.0.iter()).copied().collect();
        v.sort();
        let mut r: Vec<(Z, Z)> = vec![];
        for (a, b) in v {
            if let Some(l) = r.last_mut() {
                if a <= l.1.add(Z::ONE) {
                    if b > l.1 {
                        l.1 = b;
                    }
                    continue;
                }
            }
            r.push((a, b));
        }
        Ivs(r)
    }
    pub fn minus_point(&self, z: Z) -> Ivs {
        let mut r = vec![];
        for (a, b) in &self.0 {
            if *a <= z && z <= *b {
                if *a < z {
                    r.push((*a, z.sub(Z::ONE)));
                }
                if z < *b {
                    r.push((z.add(Z::ONE), *b));
                }
            } else {
                r.push((*a, *b));
            }
        }
        Ivs(r)
    }
    pub fn subset(&self, o: &Ivs) -> bool {
        self.meet(o) == *self
    }
    pub fn shift(&self, k: Z) -> Ivs {
        Ivs(self.0.iter().map(|(a, b)| (sat_add(*a, k), sat_add(*b, k))).collect())
    }
    pub fn negate(&self) -> Ivs {
        Ivs(self.0.iter().rev().map(|(a, b)| (b.neg(), a.neg())).collect())
    }
}

fn sat_add(a: Z, k: Z) -> Z {
    if a >= Z::max() || a <= Z::min() {
        a
    } else {
        a.add(k)
    }
}

pub type T = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum TK {
    Sym(Rc<str>),
    Int(Z),
    F(u64),
    Str(Rc<str>),
    Lin(Vec<(T, i64)>, Z),
    App(Rc<str>, Vec<T>),
}

#[derive(Default)]
pub struct Terms {
    map: HashMap<TK, T>,
    ks: Vec<TK>,
    base: HashMap<T, Ivs>,
}

thread_local! {
    pub static TERMS: RefCell<Terms> = RefCell::new(Terms::default());
}

fn intern(k: TK) -> T {
    TERMS.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(i) = t.map.get(&k) {
            return *i;
        }
        let i = t.ks.len() as T;
        t.ks.push(k.clone());
        t.map.insert(k, i);
        i
    })
}

pub fn tk(t: T) -> TK {
    TERMS.with(|x| x.borrow().ks[t as usize].clone())
}

pub fn set_base(t: T, iv: Ivs) {
    TERMS.with(|x| {
        let mut x = x.borrow_mut();
        let n = match x.base.get(&t) {
            Some(o) => o.meet(&iv),
            None => iv,
        };
        x.base.insert(t, n);
    })
}

pub fn base(t: T) -> Option<Ivs> {
    TERMS.with(|x| x.borrow().base.get(&t).cloned())
}

pub fn sym(n: &str) -> T {
    intern(TK::Sym(n.into()))
}
pub fn int(z: Z) -> T {
    intern(TK::Int(z))
}
pub fn inti(v: i128) -> T {
    int(Z::i(v))
}
pub fn flt(bits: u64) -> T {
    intern(TK::F(bits))
}
pub fn strc(s: &str) -> T {
    intern(TK::Str(s.into()))
}

pub fn app(op: &str, args: Vec<T>) -> T {
    intern(TK::App(op.into(), args))
}

pub fn as_int(t: T) -> Option<Z> {
    match tk(t) {
        TK::Int(z) => Some(z),
        _ => None,
    }
}

/// Linear view of a numeric term.
pub fn lin_of(t: T) -> (Vec<(T, i64)>, Z) {
    match tk(t) {
        TK::Int(z) => (vec![], z),
        TK::Lin(v, c) => (v, c),
        _ => (vec![(t, 1)], Z::ZERO),
    }
}

pub fn mk_lin(mut v: Vec<(T, i64)>, c: Z) -> T {
    v.sort();
    let mut r: Vec<(T, i64)> = vec![];
    for (t, k) in v {
        if let Some(l) = r.last_mut() {
            if l.0 == t {
                l.1 += k;
                continue;
            }
        }
        r.push((t, k));
    }
    r.retain(|x| x.1 != 0);
    if r.is_empty() {
        return int(c);
    }
    if r.len() == 1 && r[0].1 == 1 && c.is_zero() {
        return r[0].0;
    }
    intern(TK::Lin(r, c))
}

pub fn add(a: T, b: T) -> T {
    let (mut va, ca) = lin_of(a);
    let (vb, cb) = lin_of(b);
    va.extend(vb);
    mk_lin(va, ca.add(cb))
}
pub fn scale(a: T, k: i64) -> T {
    let (va, ca) = lin_of(a);
    mk_lin(va.into_iter().map(|(t, c)| (t, c * k)).collect(), ca.mul_small(k))
}
pub fn sub(a: T, b: T) -> T {
    add(a, scale(b, -1))
}
pub fn add_c(a: T, c: i128) -> T {
    add(a, inti(c))
}

/// Canonical key of a linear term: (key, negated?, constant), t == (+-key) + constant.
pub fn canon(t: T) -> (T, bool, Z) {
    let (v, c) = lin_of(t);
    if v.is_empty() {
        return (t, false, Z::ZERO);
    }
    let neg = v[0].1 < 0;
    let k = mk_lin(v.iter().map(|(t, k)| (*t, if neg { -k } else { *k })).collect(), Z::ZERO);
    (k, neg, c)
}

#[derive(Clone, Default, PartialEq, Debug)]
pub struct Facts(pub BTreeMap<T, Ivs>);

pub fn isize_max() -> Z {
    Z::i(1 << 47)
}

impl Facts {
    pub fn get(&self, t: T) -> Option<&Ivs> {
        self.0.get(&t)
    }

    fn atom_range(&self, t: T) -> Ivs {
        let b = base(t).unwrap_or_else(Ivs::full);
        let mut r = match self.0.get(&t) {
            Some(f) => b.meet(f),
            None => b,
        };
        if let TK::App(op, args) = tk(t) {
            match &*op {
                "le" => {
                    let k = self.range(args[0]);
                    let c = as_int(args[1]).unwrap();
                    if k.max() <= c {
                        r = r.meet(&Ivs::point(Z::ONE));
                    } else if k.min() > c {
                        r = r.meet(&Ivs::point(Z::ZERO));
                    }
                }
                "eqc" => {
                    let k = self.range(args[0]);
                    let c = as_int(args[1]).unwrap();
                    if k.as_point() == Some(c) {
                        r = r.meet(&Ivs::point(Z::ONE));
                    } else if !k.contains(c) {
                        r = r.meet(&Ivs::point(Z::ZERO));
                    }
                }
                "and" | "or" => {
                    let (x, y) = (self.range(args[0]).as_point(), self.range(args[1]).as_point());
                    let abs = if &*op == "and" { Z::ZERO } else { Z::ONE };
                    if x == Some(abs) || y == Some(abs) {
                        r = r.meet(&Ivs::point(abs));
                    } else if x.is_some() && y.is_some() {
                        r = r.meet(&Ivs::point(if &*op == "and" { Z::ONE } else { Z::ZERO }));
                    }
                }
                _ => {}
            }
        }
        r
    }

    pub fn range(&self, t: T) -> Ivs {
        match tk(t) {
            TK::Int(z) => Ivs::point(z),
            TK::Lin(v, c) => {
                if v.len() == 1 {
                    let r = self.atom_range(v[0].0);
                    if v[0].1 == 1 {
                        return r.shift(c);
                    }
                    if v[0].1 == -1 {
                        return r.negate().shift(c);
                    }
                }
                let (mut lo, mut hi) = (Z::ZERO, Z::ZERO);
                let (mut inf_lo, mut inf_hi) = (false, false);
                for (a, k) in &v {
                    let r = self.atom_range(*a);
                    let (x, y) = (r.min(), r.max());
                    let (x, y) = if *k >= 0 { (x, y) } else { (y, x) };
                    if x <= Z::min() || x >= Z::max() {
                        inf_lo = true;
                    } else {
                        lo = lo.add(x.mul_small(*k));
                    }
                    if y <= Z::min() || y >= Z::max() {
                        inf_hi = true;
                    } else {
                        hi = hi.add(y.mul_small(*k));
                    }
                }
                let mut iv = Ivs::range(
                    if inf_lo { Z::min() } else { lo.add(c) },
                    if inf_hi { Z::max() } else { hi.add(c) },
                );
                let (key, neg, _) = canon(t);
                if let Some(f) = self.0.get(&key) {
                    let f = if neg { f.negate() } else { f.clone() };
                    iv = iv.meet(&f.shift(c));
                }
                iv
            }
            _ => self.atom_range(t),
        }
    }

    /// Meets `t in iv` into the facts; false if infeasible.
    pub fn assume(&mut self, t: T, iv: &Ivs) -> bool {
        let cur = self.range(t);
        let new = cur.meet(iv);
        if new.is_empty() {
            return false;
        }
        if new == cur {
            return true;
        }
        if as_int(t).is_some() {
            return true;
        }
        let (key, neg, c) = canon(t);
        let kiv = new.shift(c.neg());
        let kiv = if neg { kiv.negate() } else { kiv };
        self.0.insert(key, kiv.clone());
        // consequences
        match tk(key) {
            TK::Lin(v, _) => {
                // bounds propagate to the atoms
                for (i, (a, k)) in v.iter().enumerate() {
                    if *k != 1 && *k != -1 {
                        continue;
                    }
                    let rest: Vec<(T, i64)> =
                        v.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, x)| *x).collect();
                    let rest = mk_lin(rest, Z::ZERO);
                    let rr = self.range(rest);
                    // k*a in kiv - rest
                    let inf = |z: Z| z <= Z::min() || z >= Z::max();
                    let lo = if inf(kiv.min()) || inf(rr.max()) {
                        Z::min()
                    } else {
                        kiv.min().sub(rr.max())
                    };
                    let hi = if inf(kiv.max()) || inf(rr.min()) {
                        Z::max()
                    } else {
                        kiv.max().sub(rr.min())
                    };
                    let mut b = Ivs::range(lo, hi);
                    if *k == -1 {
                        b = b.negate();
                    }
                    let ca = self.atom_range(*a);
                    let na = ca.meet(&b);
                    if na.is_empty() {
                        return false;
                    }
                    if na != ca {
                        if !self.assume(*a, &na) {
                            return false;
                        }
                    }
                }
            }
            TK::App(op, args) => {
                let p = kiv.as_point();
                match (&*op, p) {
                    ("le", Some(p)) => {
                        let c = as_int(args[1]).unwrap();
                        let iv = if p == Z::ONE {
                            Ivs::range(Z::min(), c)
                        } else {
                            Ivs::range(c.add(Z::ONE), Z::max())
                        };
                        return self.assume(args[0], &iv);
                    }
                    ("eqc", Some(p)) => {
                        let c = as_int(args[1]).unwrap();
                        let cur = self.range(args[0]);
                        let iv = if p == Z::ONE { Ivs::point(c) } else { cur.minus_point(c) };
                        return self.assume(args[0], &iv);
                    }
                    ("and", Some(p)) if p == Z::ONE => {
                        return self.assume(args[0], &Ivs::point(Z::ONE))
                            && self.assume(args[1], &Ivs::point(Z::ONE));
                    }
                    ("or", Some(p)) if p == Z::ZERO => {
                        return self.assume(args[0], &Ivs::point(Z::ZERO))
                            && self.assume(args[1], &Ivs::point(Z::ZERO));
                    }
                    _ => {}
                }
            }
            _ => {}
        }
        // re-check linear facts mentioning a changed atom for consistency
        let keys: Vec<T> = self.0.keys().copied().collect();
        for k in keys {
            if let TK::Lin(v, _) = tk(k) {
                if v.iter().any(|(a, _)| *a == key) && self.range(k).is_empty() {
                    return false;
                }
            }
        }
        true
    }

    /// Meet of two fact sets; None if contradictory.
    pub fn meet(&self, o: &Facts) -> Option<Facts> {
        let mut r = self.clone();
        for (t, iv) in &o.0 {
            if !r.assume(*t, iv) {
                return None;
            }
        }
        // iterate once more: derived boolean atoms may have become decided
        let ks: Vec<(T, Ivs)> = r.0.iter().map(|(a, b)| (*a, b.clone())).collect();
        for (t, iv) in ks {
            if r.range(t).is_empty() || !r.assume(t, &iv) {
                return None;
            }
        }
        Some(r)
    }
}

pub fn bool_base(t: T) {
    set_base(t, Ivs::range(Z::ZERO, Z::ONE));
}

pub fn not(t: T) -> T {
    sub(inti(1), t)
}

/// a <= b as a 0/1 term
pub fn le(f: &Facts, a: T, b: T) -> T {
    let d = sub(a, b);
    let r = f.range(d);
    if r.max() <= Z::ZERO {
        return inti(1);
    }
    if r.min() > Z::ZERO {
        return inti(0);
    }
    let (key, neg, c) = canon(d);
    // +-key + c <= 0
    if !neg {
        let t = app("le", vec![key, int(c.neg())]);
        bool_base(t);
        t
    } else {
        // key >= c  <=>  not (key <= c-1)
        let t = app("le", vec![key, int(c.sub(Z::ONE))]);
        bool_base(t);
        not(t)
    }
}
pub fn lt(f: &Facts, a: T, b: T) -> T {
    le(f, add_c(a, 1), b)
}
pub fn eq(f: &Facts, a: T, b: T) -> T {
    let d = sub(a, b);
    let r = f.range(d);
    if let Some(p) = r.as_point() {
        return inti(p.is_zero() as i128);
    }
    if !r.contains(Z::ZERO) {
        return inti(0);
    }
    let (key, neg, c) = canon(d);
    let c = if neg { c } else { c.neg() };
    // booleans: b == 1 is b itself, b == 0 is !b
    if let Some(b) = base(key) {
        if b.min() >= Z::ZERO && b.max() <= Z::ONE {
            if c == Z::ONE {
                return key;
            }
            if c == Z::ZERO {
                return not(key);
            }
        }
    }
    let t = app("eqc", vec![key, int(c)]);
    bool_base(t);
    t
}

// ---- text terms ----

pub fn concat(a: T, b: T) -> T {
    let mut parts: Vec<T> = vec![];
    for t in [a, b] {
        match tk(t) {
            TK::App(op, args) if &*op == "concat" => parts.extend(args),
            _ => parts.push(t),
        }
    }
    let mut r: Vec<T> = vec![];
    for p in parts {
        if let TK::Str(s) = tk(p) {
            if s.is_empty() {
                continue;
            }
            if let Some(l) = r.last() {
                if let TK::Str(q) = tk(*l) {
                    let n = format!("{q}{s}");
                    *r.last_mut().unwrap() = strc(&n);
                    continue;
                }
            }
        }
        r.push(p);
    }
    match r.len() {
        0 => strc(""),
        1 => r[0],
        _ => app("concat", r),
    }
}

/// Length in elements (bytes for text) of a text or slice term.
pub fn len(t: T) -> T {
    match tk(t) {
        TK::Str(s) => inti(s.len() as i128),
        TK::App(op, args) => match &*op {
            "concat" => args.iter().fold(inti(0), |acc, a| add(acc, len(*a))),
            "substr" => args[2],
            "subslice" => args[2],
            "arr" => inti(args.len() as i128),
            "collect" => add(len(args[0]), args[1]),
            _ => {
                let l = app("len", vec![t]);
                set_base(l, Ivs::range(Z::ZERO, isize_max()));
                l
            }
        },
        _ => {
            let l = app("len", vec![t]);
            set_base(l, Ivs::range(Z::ZERO, isize_max()));
            l
        }
    }
}

pub fn substr(f: &Facts, t: T, start: T, n: T) -> T {
    if f.range(n).as_point() == Some(Z::ZERO) {
        return strc("");
    }
    if f.range(start).as_point() == Some(Z::ZERO) {
        let l = len(t);
        if sub(l, n) == inti(0) || f.range(sub(l, n)).as_point() == Some(Z::ZERO) {
            return t;
        }
    }
    if let (TK::Str(s), Some(a), Some(b)) = (tk(t), as_int(start), as_int(n)) {
        let (a, b) = (a.lo as usize, b.lo as usize);
        if let Some(x) = s.get(a..a + b) {
            return strc(x);
        }
    }
    // prefix of a concat on part boundaries
    if let TK::App(op, args) = tk(t) {
        if &*op == "concat" && as_int(start) == Some(Z::ZERO) {
            let mut acc = inti(0);
            let mut out = strc("");
            for a in args.iter().copied() {
                acc = add(acc, len(a));
                out = concat(out, a);
                if sub(acc, n) == inti(0) {
                    return out;
                }
            }
        }
        if &*op == "substr" {
            return app("substr", vec![args[0], add(args[1], start), n]);
        }
    }
    app("substr", vec![t, start, n])
}

/// Rebuilds `t`, mapping leaves/subterms through `m`.
pub fn subst(t: T, m: &dyn Fn(T) -> Option<T>) -> T {
    if let Some(r) = m(t) {
        return r;
    }
    match tk(t) {
        TK::Lin(v, c) => {
            let mut acc = int(c);
            for (a, k) in v {
                acc = add(acc, scale(subst(a, m), k));
            }
            acc
        }
        TK::App(op, args) => {
            let n: Vec<T> = args.iter().map(|a| subst(*a, m)).collect();
            if n == args {
                return t;
            }
            if &*op == "concat" {
                return n.into_iter().fold(strc(""), concat);
            }
            if &*op == "len" {
                return len(n[0]);
            }
            let r = app(&op, n);
            if let Some(b) = base(t) {
                set_base(r, b);
            }
            r
        }
        _ => t,
    }
}

/// Whether the term contains an application of `op` outside the arguments of calls.
pub fn mentions(t: T, op: &str) -> bool {
    match tk(t) {
        TK::Lin(v, _) => v.iter().any(|(a, _)| mentions(*a, op)),
        TK::App(o, args) => {
            (&*o == op && !(op == "len" && mentions(args[0], "idx")))
                || (!o.starts_with("ret:") && args.iter().any(|a| mentions(*a, op)))
        }
        _ => false,
    }
}

pub fn contains(t: T, x: T) -> bool {
    if t == x {
        return true;
    }
    match tk(t) {
        TK::Lin(v, _) => v.iter().any(|(a, _)| contains(*a, x)),
        TK::App(_, args) => args.iter().any(|a| contains(*a, x)),
        _ => false,
    }
}

pub fn show(t: T) -> String {
    match tk(t) {
        TK::Sym(s) => s.to_string(),
        TK::Int(z) => z.to_string(),
        TK::F(b) => format!("{}f", f64::from_bits(b)),
        TK::Str(s) => format!("{s:?}"),
        TK::Lin(v, c) => {
            let mut s = String::from("(");
            for (i, (t, k)) in v.iter().enumerate() {
                if i > 0 {
                    s.push_str(if *k < 0 { " - " } else { " + " });
                } else if *k < 0 {
                    s.push('-');
                }
                if k.abs() != 1 {
                    s.push_str(&format!("{}*", k.abs()));
                }
                s.push_str(&show(*t));
            }
            if !c.is_zero() {
                s.push_str(&format!(" + {c}"));
            }
            s.push(')');
            s
        }
        TK::App(op, args) => {
            let a: Vec<String> = args.iter().map(|a| show(*a)).collect();
            if let Some(p) = op.strip_prefix("f:") {
                return format!("{}.{}", a[0], p);
            }
            if &*op == "deref" {
                return format!("*{}", a[0]);
            }
            format!("{}({})", op, a.join(", "))
        }
    }
}

pub fn show_facts(f: &Facts) -> String {
    let mut v = vec![];
    for (t, iv) in &f.0 {
        let s: Vec<String> = iv
            .0
            .iter()
            .map(|(a, b)| if a == b { format!("{a}") } else { format!("{a}..={b}") })
            .collect();
        v.push(format!("{} in {{{}}}", show(*t), s.join(",")));
    }
    v.join("; ")
}
