//! Comparison of the analysed behaviour of an implementation path with its reference.

use crate::dom::*;
use crate::interp::*;
use crate::terms::*;
use crate::widen::map_ev;
use rustc_public::mir::mono::Instance;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub struct Report {
    pub name: String,
    pub ok: bool,
    pub undecided: bool,
    pub detail: Vec<String>,
    pub keys: Vec<String>,
    pub impl_parts: usize,
    pub spec_parts: usize,
    pub compared: usize,
    pub sites: Vec<String>,
}

impl Report {
    fn new(name: &str) -> Report {
        Report {
            name: name.into(),
            ok: true,
            undecided: false,
            detail: vec![],
            keys: vec![],
            impl_parts: 0,
            spec_parts: 0,
            compared: 0,
            sites: vec![],
        }
    }
    fn bad(&mut self, key: String, msg: String, und: bool) {
        if und {
            self.undecided = true;
        } else {
            self.ok = false;
        }
        if !self.keys.contains(&key) {
            self.keys.push(key);
        }
        if self.detail.len() < 6 {
            self.detail.push(msg);
        }
    }
}

/// Normal form of a term under facts.
pub struct Norm<'a> {
    pub facts: &'a Facts,
    memo: RefCell<HashMap<T, T>>,
}

impl<'a> Norm<'a> {
    pub fn new(facts: &'a Facts) -> Norm<'a> {
        Norm { facts, memo: RefCell::new(HashMap::new()) }
    }
    pub fn n(&self, t: T) -> T {
        if let Some(r) = self.memo.borrow().get(&t) {
            return *r;
        }
        let r = self.go(t, true);
        self.memo.borrow_mut().insert(t, r);
        r
    }
    fn go(&self, t: T, expand: bool) -> T {
        // a known enum term is spelled out
        let ty = if expand { TERM_TY.with(|m| m.borrow().get(&t).copied()) } else { None };
        if let Some(ty) = ty {
            let d = app("discr", vec![t]);
            if let Some(z) = self.facts.range(d).as_point() {
                if let Some(v) = variant_of_discr(ty, z) {
                    let fs = fields(ty, v);
                    let a: Vec<T> = (0..fs.len() as u32)
                        .map(|i| {
                            let x = fterm(t, v, i, true);
                            if let Some(r) = type_range(fs[i as usize]) {
                                set_base(x, r);
                            }
                            if is_zst(fs[i as usize]) && fields(fs[i as usize], 0).is_empty() {
                                return app("s", vec![]);
                            }
                            self.n(x)
                        })
                        .collect();
                    return app(&format!("v{v}"), a);
                }
            }
        }
        match tk(t) {
            TK::Int(_) | TK::F(_) | TK::Str(_) => t,
            TK::Sym(_) => match self.facts.range(t).as_point() {
                Some(z) => int(z),
                None => t,
            },
            TK::Lin(v, c) => {
                let mut acc = int(c);
                for (a, k) in v {
                    acc = add(acc, scale(self.n(a), k));
                }
                match self.facts.range(acc).as_point() {
                    Some(z) => int(z),
                    None => acc,
                }
            }
            TK::App(op, args) => {
                if op.starts_with("wrap:") {
                    let a = self.n(args[0]);
                    if let Some(b) = base(t) {
                        if self.facts.range(a).subset(&b) {
                            return a;
                        }
                    }
                }
                if base(t).is_some() {
                    if let Some(z) = self.facts.range(t).as_point() {
                        return int(z);
                    }
                }
                if let Some(p) = op.strip_prefix("f:") {
                    let x = self.go(args[0], false);
                    // projection of a spelled-out term
                    if let Some((v, i)) = p.split_once('.') {
                        let r = fterm(x, v.parse().unwrap(), i.parse().unwrap(), true);
                        if r != t {
                            if let Some(b) = base(t) {
                                set_base(r, b);
                            }
                        }
                        return r;
                    }
                    return fterm(x, 0, p.parse().unwrap(), false);
                }
                let n: Vec<T> = args.iter().map(|a| self.n(*a)).collect();
                match &*op {
                    "concat" => return n.into_iter().fold(strc(""), concat),
                    "len" => return len(n[0]),
                    "substr" => return substr(self.facts, n[0], n[1], n[2]),
                    "ref" => return mk_ref(n[0]),
                    "deref" => {
                        if let TK::App(o, a) = tk(n[0]) {
                            if &*o == "ref" {
                                return a[0];
                            }
                        }
                    }
                    _ => {}
                }
                if n == args {
                    return t;
                }
                let r = app(&op, n);
                if let Some(b) = base(t) {
                    set_base(r, b);
                }
                r
            }
        }
    }
}

/// Renames loop counters by order of appearance and drops event-free summaries.
fn alpha(o: &Outcome) -> Outcome {
    fn strip(es: &[Ev]) -> Vec<Ev> {
        let mut r = vec![];
        for e in es {
            match e {
                Ev::Rep { id, count, body } => {
                    let b: Vec<(Facts, Vec<Ev>)> =
                        body.iter().map(|(f, es)| (f.clone(), strip(es))).collect();
                    if b.iter().any(|x| !x.1.is_empty()) {
                        r.push(Ev::Rep { id: *id, count: *count, body: b });
                    }
                }
                c => r.push(c.clone()),
            }
        }
        r
    }
    fn ids(es: &[Ev], out: &mut Vec<u32>) {
        for e in es {
            if let Ev::Rep { id, body, .. } = e {
                if !out.contains(id) {
                    out.push(*id);
                }
                for (_, b) in body {
                    ids(b, out);
                }
            }
        }
    }
    fn kappas(t: T, out: &mut Vec<T>) {
        match tk(t) {
            TK::Sym(s) if s.starts_with('κ') => {
                if !out.contains(&t) {
                    out.push(t)
                }
            }
            TK::Lin(v, _) => v.iter().for_each(|x| kappas(x.0, out)),
            TK::App(_, a) => a.iter().for_each(|x| kappas(*x, out)),
            _ => {}
        }
    }
    let evs = strip(&o.evs);
    let mut order = vec![];
    ids(&evs, &mut order);
    let mut ks: Vec<T> = order.iter().map(|i| sym(&format!("κ{i}"))).collect();
    if let Out::Ret(t) = &o.out {
        kappas(*t, &mut ks);
    }
    for t in o.facts.0.keys() {
        kappas(*t, &mut ks);
    }
    let iotas = order.iter().enumerate().map(|(i, id)| {
        let n = sym(&format!("iter{i}"));
        set_base(n, Ivs::range(Z::ZERO, isize_max()));
        (sym(&format!("ι{id}")), n)
    });
    let map: HashMap<T, T> = ks
        .iter()
        .enumerate()
        .map(|(i, k)| {
            let n = sym(&format!("loop{i}"));
            set_base(n, Ivs::range(Z::ZERO, isize_max()));
            (*k, n)
        })
        .chain(iotas)
        .collect();
    let m = |t: T| subst(t, &|x| map.get(&x).copied());
    let mut facts = Facts::default();
    if map.is_empty() {
        facts = o.facts.clone();
    } else {
        for (t, iv) in &o.facts.0 {
            let n = m(*t);
            if n == *t {
                facts.0.insert(n, iv.clone());
            } else {
                facts.assume(n, iv);
            }
            if let Some(ty) = TERM_TY.with(|x| x.borrow().get(t).copied()) {
                TERM_TY.with(|x| x.borrow_mut().insert(n, ty));
            }
            if let TK::App(op, a) = tk(*t) {
                if &*op == "discr" {
                    if let Some(ty) = TERM_TY.with(|x| x.borrow().get(&a[0]).copied()) {
                        TERM_TY.with(|x| x.borrow_mut().insert(m(a[0]), ty));
                    }
                }
            }
        }
    }
    let evs: Vec<Ev> = evs
        .iter()
        .map(|e| {
            let e = map_ev(e, &m);
            renumber(e, &order)
        })
        .collect();
    Outcome {
        facts,
        evs: Rc::new(evs),
        out: match &o.out {
            Out::Ret(t) => Out::Ret(m(*t)),
            x => x.clone(),
        },
        at: o.at.clone(),
        trail: o.trail.clone(),
    }
}

fn renumber(e: Ev, order: &[u32]) -> Ev {
    match e {
        Ev::Rep { id, count, body } => Ev::Rep {
            id: order.iter().position(|x| *x == id).unwrap_or(999) as u32,
            count,
            body: body
                .into_iter()
                .map(|(f, es)| (f, es.into_iter().map(|e| renumber(e, order)).collect()))
                .collect(),
        },
        c => c,
    }
}

fn show_ev(e: &Ev, nm: &Norm) -> String {
    match e {
        Ev::Call { name, args, .. } => {
            let a: Vec<String> = args.iter().map(|a| show(nm.n(*a))).collect();
            format!("{}({})", name, a.join(", "))
        }
        Ev::Rep { count, body, .. } => {
            let b: Vec<String> = body
                .iter()
                .map(|(_, es)| es.iter().map(|e| show_ev(e, nm)).collect::<Vec<_>>().join("; "))
                .collect();
            format!("repeat {} times {{ {} }}", show(nm.n(*count)), b.join(" | "))
        }
    }
}

/// Identifies the results of calls whose arguments are equal under the facts.
fn has_wrap(t: T) -> bool {
    match tk(t) {
        TK::App(op, a) => op.starts_with("wrap:") || a.iter().any(|x| has_wrap(*x)),
        TK::Lin(v, _) => v.iter().any(|(x, _)| has_wrap(*x)),
        _ => false,
    }
}

fn congruent(mut j: Facts) -> Option<Facts> {
    let keys: Vec<(T, Ivs)> = j.0.iter().map(|(t, i)| (*t, i.clone())).collect();
    for (t, iv) in keys {
        let (x, d) = match tk(t) {
            TK::App(op, a) if &*op == "discr" => (a[0], true),
            _ => (t, false),
        };
        // a truncation that turns out to lose nothing is its operand
        if has_wrap(t) {
            let y = Norm::new(&j).n(t);
            if y != t && !j.assume(y, &iv) {
                return None;
            }
            if !j.assume(t, &iv) {
                return None;
            }
        }
        if let TK::App(op, args) = tk(x) {
            if !op.starts_with("ret:") || args.last().is_none_or(|o| as_int(*o).is_some()) {
                continue;
            }
            let nm = Norm::new(&j);
            let n: Vec<T> = args.iter().map(|a| nm.n(*a)).collect();
            if n == args {
                continue;
            }
            let mut y = app(&op, n);
            if let Some(b) = base(x) {
                set_base(y, b);
            }
            if let Some(ty) = TERM_TY.with(|m| m.borrow().get(&x).copied()) {
                TERM_TY.with(|m| m.borrow_mut().insert(y, ty));
            }
            if d {
                y = app("discr", vec![y]);
                if let Some(b) = base(t) {
                    set_base(y, b);
                }
            }
            if !j.assume(y, &iv) {
                return None;
            }
        }
    }
    Some(j)
}

fn same_log(a: &[Ev], b: &[Ev], facts: &Facts) -> Result<(), String> {
    let nm = Norm::new(facts);
    let runs = |e: &&Ev| !matches!(e, Ev::Rep { count, .. } if nm.n(*count) == inti(0));
    let a: Vec<&Ev> = a.iter().filter(runs).collect();
    let b: Vec<&Ev> = b.iter().filter(runs).collect();
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (Some(x), Some(y)) => match (x, y) {
                (Ev::Call { name: n1, args: a1, .. }, Ev::Call { name: n2, args: a2, .. }) => {
                    let same = n1 == n2
                        && a1.len() == a2.len()
                        && a1.iter().zip(a2).all(|(p, q)| nm.n(*p) == nm.n(*q));
                    if !same {
                        return Err(format!(
                            "call {} is {} where {} is required",
                            i + 1,
                            show_ev(x, &nm),
                            show_ev(y, &nm)
                        ));
                    }
                }
                (Ev::Rep { count: c1, body: b1, .. }, Ev::Rep { count: c2, body: b2, .. }) => {
                    if nm.n(*c1) != nm.n(*c2) {
                        return Err(format!(
                            "loop runs {} times where {} is required",
                            show(nm.n(*c1)),
                            show(nm.n(*c2))
                        ));
                    }
                    for (f1, e1) in b1 {
                        for (f2, e2) in b2 {
                            let j = facts.meet(f1).and_then(|f| f.meet(f2));
                            if let Some(j) = j {
                                same_log(e1, e2, &j)?;
                            }
                        }
                    }
                }
                _ => {
                    return Err(format!("{} where {} is required", show_ev(x, &nm), show_ev(y, &nm)))
                }
            },
            (Some(x), None) => return Err(format!("extra call {}", show_ev(x, &nm))),
            (None, Some(y)) => return Err(format!("missing call {}", show_ev(y, &nm))),
            _ => {}
        }
    }
    Ok(())
}

pub fn analyse(it: &mut Interp, inst: Instance) -> Vec<Outcome> {
    it.outs.clear();
    it.stack.clear();
    it.cut = false;
    it.steps = 0;
    it.kappa = 0;
    let mut st = St::new();
    let bi = match it.body(inst) {
        Some(b) => b,
        None => {
            it.fail(&st, "no body".into());
            return std::mem::take(&mut it.outs);
        }
    };
    let mut args = vec![];
    for (i, l) in bi.body.arg_locals().iter().enumerate() {
        let t = sym(&format!("arg{i}:{}", tname(l.ty)));
        let v = it.typed(&st, V::Op(t), l.ty).unwrap_or(V::Op(t));
        args.push(v);
    }
    let rty = bi.body.ret_local().ty;
    st.trail = None;
    let rs = it.run(st, inst, args);
    for (mut s, v) in rs {
        let t = it.freeze(&mut s, &v, rty);
        it.outs.push(Outcome {
            facts: s.facts.clone(),
            evs: s.evs.clone(),
            out: Out::Ret(t),
            at: String::new(),
            trail: s.trail_vec(),
        });
    }
    std::mem::take(&mut it.outs)
}

/// What to look for in the behaviours of one side on its own.
#[derive(Clone, Copy, PartialEq)]
pub enum Watch {
    Ub,
    Panic,
}

/// Reports the undefined behaviour or the panics the code may reach.
/// A panic counts where the reference behaviour returns.
pub fn watch(it: &mut Interp, name: &str, im: Instance, sp: Instance, w: Watch) -> Report {
    let mut r = Report::new(name);
    let before = it.seen_fns.clone();
    it.seen_fns.clear();
    let a: Vec<Outcome> = analyse(it, im).iter().map(alpha).collect();
    r.sites = it.seen_fns.iter().cloned().collect();
    it.seen_fns.extend(before);
    r.impl_parts = a.len();
    let mut b = vec![];
    if w == Watch::Panic && a.iter().any(|o| matches!(o.out, Out::Panic(_))) {
        let keep = it.seen_fns.clone();
        let keep_b = it.seen_blocks.clone();
        b = analyse(it, sp).iter().map(alpha).collect();
        it.seen_fns = keep;
        it.seen_blocks = keep_b;
        r.spec_parts = b.len();
    }
    if a.is_empty() {
        r.bad("no-behaviour".into(), "the analysed path never finishes".into(), true);
    }
    for o in &a {
        match &o.out {
            Out::Unknown(m) => {
                r.bad(format!("undecided {}", o.at), format!("undecided at {}: {m}", o.at), true);
            }
            Out::Ub(m) if w == Watch::Ub => {
                r.bad(
                    format!("ub {}", strip_line(&o.at)),
                    format!("{m} at {} when {} (through {})", o.at, show_facts(&o.facts), o.trail.join(" -> ")),
                    false,
                );
            }
            Out::Panic(m) if w == Watch::Panic => {
                for s in b.iter() {
                    match &s.out {
                        Out::Panic(_) => continue,
                        Out::Ret(_) => {}
                        _ => r.bad("spec".into(), "reference not analysable".into(), true),
                    }
                    let j = match o.facts.meet(&s.facts).and_then(congruent) {
                        Some(j) => j,
                        None => continue,
                    };
                    r.compared += 1;
                    r.bad(
                        format!("panic {}", strip_line(&o.at)),
                        format!("panics ({m}) at {} when {} (through {})", o.at, show_facts(&j), o.trail.join(" -> ")),
                        false,
                    );
                }
            }
            _ => {}
        }
    }
    r
}

pub fn compare(it: &mut Interp, name: &str, im: Instance, sp: Instance) -> Report {
    let mut r = Report::new(name);
    let before = it.seen_fns.clone();
    it.seen_fns.clear();
    let a: Vec<Outcome> = analyse(it, im).iter().map(alpha).collect();
    r.sites = it.seen_fns.iter().cloned().collect();
    it.seen_fns.extend(before);
    let keep = it.seen_fns.clone();
    let keep_b = it.seen_blocks.clone();
    let b: Vec<Outcome> = analyse(it, sp).iter().map(alpha).collect();
    it.seen_fns = keep;
    it.seen_blocks = keep_b;
    r.impl_parts = a.len();
    r.spec_parts = b.len();
    let bad = |r: &mut Report, key: String, msg: String, und: bool| r.bad(key, msg, und);
    if a.is_empty() {
        bad(&mut r, "no-behaviour".into(), "the analysed path never finishes".into(), false);
    }
    for s in &b {
        if let Out::Unknown(m) | Out::Ub(m) = &s.out {
            bad(&mut r, "spec".into(), format!("reference not analysable: {m}"), true);
        }
    }
    for o in &a {
        match &o.out {
            Out::Unknown(m) => {
                bad(&mut r, format!("undecided {}", o.at), format!("undecided at {}: {m}", o.at), true);
                continue;
            }
            Out::Ub(m) => {
                bad(
                    &mut r,
                    format!("ub {}", strip_line(&o.at)),
                    format!("{m} at {} when {}", o.at, show_facts(&o.facts)),
                    false,
                );
                continue;
            }
            _ => {}
        }
        for s in &b {
            let j = match o.facts.meet(&s.facts).and_then(congruent) {
                Some(j) => j,
                None => continue,
            };
            r.compared += 1;
            let nm = Norm::new(&j);
            let place = || {
                o.trail
                    .iter()
                    .rev()
                    .find(|t| t.contains("src/") || t.contains("meta/"))
                    .map(|t| t.to_string())
                    .unwrap_or_default()
            };
            match (&o.out, &s.out) {
                (Out::Ret(x), Out::Ret(y)) => {
                    let (nx, ny) = (nm.n(*x), nm.n(*y));
                    if nx != ny {
                        bad(
                            &mut r,
                            format!("value {}", strip_line(&place())),
                            format!(
                                "result is {} where {} is required, when {} (through {})",
                                show(nx),
                                show(ny),
                                show_facts(&j),
                                o.trail.join(" -> ")
                            ),
                            false,
                        );
                    }
                }
                (Out::Panic(_), Out::Panic(_)) => {}
                (Out::Panic(m), Out::Ret(_)) => {
                    bad(
                        &mut r,
                        format!("panic {}", strip_line(&o.at)),
                        format!("panics ({m}) at {} when {}", o.at, show_facts(&j)),
                        false,
                    );
                    continue;
                }
                (Out::Ret(x), Out::Panic(m)) => {
                    bad(
                        &mut r,
                        "nopanic".into(),
                        format!("returns {} where a panic ({m}) is required", show(nm.n(*x))),
                        false,
                    );
                }
                _ => {}
            }
            if let Err(e) = same_log(&o.evs, &s.evs, &j) {
                bad(
                    &mut r,
                    format!("calls {}", strip_line(&place())),
                    format!(
                        "{e}, when {} (through {})",
                        show_facts(&j),
                        o.trail.join(" -> ")
                    ),
                    false,
                );
            }
        }
    }
    if r.ok && !r.undecided && r.compared == 0 {
        bad(&mut r, "vacuous".into(), "no behaviour was compared".into(), true);
    }
    r
}

pub fn strip_line(s: &str) -> String {
    // drops ":123" line numbers
    let mut o = String::new();
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == ':' && i + 1 < b.len() && b[i + 1].is_ascii_digit() {
            i += 1;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            continue;
        }
        o.push(b[i]);
        i += 1;
    }
    o
}
