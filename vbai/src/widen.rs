//! Loop summaries by widening over the number of completed iterations.

use crate::dom::*;
use crate::interp::*;
use crate::terms::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

/// Anti-unifies the value before the loop with the value after one iteration.
/// `k` is the iteration counter the generalised value is expressed in.
fn gen(it: &mut Interp, k: T, a: &V, bs: &[&V], accs: &mut Vec<(T, T)>) -> Option<V> {
    if bs.iter().all(|b| *b == a) {
        return Some(a.clone());
    }
    if matches!(a, V::Undef) || bs.iter().any(|b| matches!(b, V::Undef)) {
        return Some(V::Undef);
    }
    match a {
        V::N(t) => {
            let mut d: Option<T> = None;
            for b in bs {
                let x = match b {
                    V::N(x) => sub(*x, *t),
                    _ => return None,
                };
                if *d.get_or_insert(x) != x {
                    return acc(it, k, *t, accs).map(V::N);
                }
            }
            let d = as_int(d?).and_then(|z| z.to_i128());
            match d {
                Some(d) if d.abs() <= 64 => Some(V::N(add(*t, scale(k, d as i64)))),
                _ => acc(it, k, *t, accs).map(V::N),
            }
        }
        V::P(p) => {
            let mut path = p.path.clone();
            let mut meta = p.meta.clone();
            let mut qs = vec![];
            for b in bs {
                match b {
                    V::P(q) if q.al == p.al && q.path.len() == p.path.len() && q.pty == p.pty => {
                        qs.push(q.clone())
                    }
                    _ => return None,
                }
            }
            for (i, pj) in path.iter_mut().enumerate() {
                if let Pj::Idx(t) = pj {
                    let bv: Vec<V> = qs
                        .iter()
                        .map(|q| match &q.path[i] {
                            Pj::Idx(x) => V::N(*x),
                            _ => V::Undef,
                        })
                        .collect();
                    let refs: Vec<&V> = bv.iter().collect();
                    match gen(it, k, &V::N(*t), &refs, accs)? {
                        V::N(n) => *t = n,
                        _ => return None,
                    }
                } else if qs.iter().any(|q| q.path[i] != *pj) {
                    return None;
                }
            }
            if let Meta::Len(t) = &mut meta {
                let bv: Vec<V> = qs
                    .iter()
                    .map(|q| match &q.meta {
                        Meta::Len(x) => V::N(*x),
                        _ => V::Undef,
                    })
                    .collect();
                let refs: Vec<&V> = bv.iter().collect();
                match gen(it, k, &V::N(*t), &refs, accs)? {
                    V::N(n) => *t = n,
                    _ => return None,
                }
            } else if qs.iter().any(|q| q.meta != meta) {
                return None;
            }
            Some(V::ptr(Ptr { al: p.al, path, pty: p.pty, meta }))
        }
        V::Agg(vi, fs) => {
            let mut cols: Vec<Vec<V>> = vec![vec![]; fs.len()];
            for b in bs {
                match b {
                    V::Agg(w, gs) if w == vi && gs.len() == fs.len() => {
                        for (c, g) in cols.iter_mut().zip(gs.iter()) {
                            c.push(g.clone());
                        }
                    }
                    _ => return None,
                }
            }
            let mut out = vec![];
            for (f, c) in fs.iter().zip(&cols) {
                let refs: Vec<&V> = c.iter().collect();
                out.push(gen(it, k, f, &refs, accs)?);
            }
            Some(V::agg(*vi, out))
        }
        V::Seq(items) => {
            // growing sequence: becomes an accumulator
            let mut init = vec![];
            for x in items.iter() {
                match x {
                    V::Op(t) | V::N(t) | V::F(t) => init.push(*t),
                    _ => return None,
                }
            }
            acc(it, k, app("arr", init), accs).map(V::Op)
        }
        V::Op(t) => acc(it, k, *t, accs).map(V::Op),
        _ => None,
    }
}

fn acc(it: &mut Interp, k: T, init: T, accs: &mut Vec<(T, T)>) -> Option<T> {
    it.kappa += 1;
    let a = app(&format!("acc{}", it.kappa), vec![k]);
    if let Some(b) = base(init) {
        // only type ranges survive; contents are unknown
        let _ = b;
    }
    accs.push((a, init));
    Some(a)
}

/// The value behind `a` in state `g` position, checked against `want` (== g with k+1).
fn same_shift(k: T, g: &V, b: &V, accs: &[(T, T)], steps: &mut HashMap<T, Vec<T>>) -> bool {
    let sh = |t: T| subst(t, &|x| if x == k { Some(add_c(k, 1)) } else { None });
    let is_acc = |t: T| accs.iter().any(|(a, _)| *a == t);
    match (g, b) {
        (V::Undef, _) => true,
        (V::N(x), V::N(y)) | (V::Op(x), V::Op(y)) | (V::F(x), V::F(y)) => {
            if is_acc(*x) {
                steps.entry(*x).or_default().push(*y);
                return true;
            }
            sh(*x) == *y
        }
        (V::P(p), V::P(q)) => {
            p.al == q.al
                && p.path.len() == q.path.len()
                && p.path.iter().zip(&q.path).all(|(a, b)| match (a, b) {
                    (Pj::Idx(x), Pj::Idx(y)) => sh(*x) == *y,
                    _ => a == b,
                })
                && match (&p.meta, &q.meta) {
                    (Meta::Len(x), Meta::Len(y)) => sh(*x) == *y,
                    (a, b) => a == b,
                }
        }
        (V::Agg(v, f), V::Agg(w, h)) => {
            v == w
                && f.len() == h.len()
                && f.iter().zip(h.iter()).all(|(x, y)| same_shift(k, x, y, accs, steps))
        }
        _ => g == b,
    }
}

fn map_v(v: &V, m: &dyn Fn(T) -> T) -> V {
    match v {
        V::N(t) => V::N(m(*t)),
        V::F(t) => V::F(m(*t)),
        V::Op(t) => V::Op(m(*t)),
        V::Buf(n, t) => V::Buf(*n, m(*t)),
        V::Agg(i, f) => V::agg(*i, f.iter().map(|x| map_v(x, m)).collect()),
        V::Seq(f) => V::Seq(Rc::new(f.iter().map(|x| map_v(x, m)).collect())),
        V::P(p) => {
            let mut q = (**p).clone();
            for pj in q.path.iter_mut() {
                if let Pj::Idx(t) = pj {
                    *t = m(*t);
                }
            }
            if let Meta::Len(t) = &mut q.meta {
                *t = m(*t);
            }
            V::ptr(q)
        }
        _ => v.clone(),
    }
}

pub fn map_ev(e: &Ev, m: &dyn Fn(T) -> T) -> Ev {
    match e {
        Ev::Call { name, args, ret } => {
            Ev::Call { name: name.clone(), args: args.iter().map(|a| m(*a)).collect(), ret: m(*ret) }
        }
        Ev::Rep { id, count, body } => Ev::Rep {
            id: *id,
            count: m(*count),
            body: body
                .iter()
                .map(|(f, es)| {
                    (
                        Facts(f.0.iter().map(|(t, i)| (m(*t), i.clone())).collect()),
                        es.iter().map(|e| map_ev(e, m)).collect(),
                    )
                })
                .collect(),
        },
    }
}

fn map_st(st: &mut St, m: &dyn Fn(T) -> T, from: usize) {
    let mem = Rc::make_mut(&mut st.mem);
    for c in mem.values_mut() {
        c.v = map_v(&c.v, m);
    }
    let f: Vec<(T, Ivs)> = st.facts.0.iter().map(|(t, i)| (*t, i.clone())).collect();
    st.facts = Facts::default();
    for (t, i) in f {
        let n = m(t);
        if n == t {
            st.facts.0.insert(t, i);
        } else {
            st.facts.assume(n, &i);
        }
    }
    let evs = Rc::make_mut(&mut st.evs);
    for e in evs.iter_mut().skip(from) {
        *e = map_ev(e, m);
    }
}

pub fn widen(
    it: &mut Interp,
    fr: &Frame,
    head: usize,
    set: &HashSet<usize>,
    s0: &St,
    bs: &[St],
    rets: &mut Vec<St>,
) -> Option<Vec<(usize, St)>> {
    it.kappa += 1;
    let id = it.kappa;
    let k = sym(&format!("κ{id}"));
    set_base(k, Ivs::range(Z::ZERO, isize_max()));
    let n0 = s0.evs.len();
    for b in bs {
        if b.evs.len() < n0 || b.evs[..n0] != s0.evs[..] {
            return None;
        }
    }
    let mut accs: Vec<(T, T)> = vec![];
    let mut g = s0.clone();
    {
        let cells: Vec<(Al, Cell)> = s0.mem.iter().map(|(a, c)| (*a, c.clone())).collect();
        for (al, c) in cells {
            let mut vs = vec![];
            let mut live = c.live;
            for b in bs {
                match b.mem.get(&al) {
                    Some(d) => {
                        live &= d.live;
                        vs.push(d.v.clone());
                    }
                    None => {
                        live = false;
                        vs.push(V::Undef);
                    }
                }
            }
            let refs: Vec<&V> = vs.iter().collect();
            let v = gen(it, k, &c.v, &refs, &mut accs)?;
            if v != c.v || live != c.live {
                Rc::make_mut(&mut g.mem).insert(al, Cell { ty: c.ty, v, live });
            }
        }
    }
    Rc::make_mut(&mut g.evs).push(Ev::Rep { id, count: k, body: vec![] });
    // candidate invariants: linear facts established by the first iteration that also hold initially
    let mut cand: Vec<(T, Ivs)> = vec![];
    for round in 0..4 {
        let mark = it.outs.len();
        let rmark = rets.len();
        let mut gi = g.clone();
        for (t, iv) in &cand {
            gi.facts.assume(*t, iv);
        }
        let ex = it.region(fr, set, vec![(head, gi.clone())], Some(head), rets);
        let (backs, exits): (Vec<_>, Vec<_>) = ex.into_iter().partition(|(t, _)| *t == head);
        // candidates hold after each iteration?
        let shift_back = |t: T| subst(t, &|x| if x == k { Some(add_c(k, -1)) } else { None });
        let shift_fwd = |t: T| subst(t, &|x| if x == k { Some(add_c(k, 1)) } else { None });
        let at0 = |t: T| subst(t, &|x| if x == k { Some(inti(0)) } else { None });
        let mut next: Option<Vec<(T, Ivs)>> = None;
        if round == 0 {
            let mut c: Vec<(T, Ivs)> = vec![];
            if let Some((_, b)) = backs.first() {
                for (t, iv) in &b.facts.0 {
                    if g.facts.0.get(t) == Some(iv) || !contains(*t, k) || *t == k {
                        continue;
                    }
                    if !matches!(tk(*t), TK::Lin(..)) {
                        continue;
                    }
                    let n = shift_back(*t);
                    // each bound on its own
                    let f = Ivs::full();
                    for half in [Ivs::range(iv.min(), f.max()), Ivs::range(f.min(), iv.max())] {
                        if s0.facts.range(at0(n)).subset(&half) {
                            c.push((n, half));
                        }
                    }
                }
            }
            if !c.is_empty() {
                next = Some(c);
            }
        }
        let mut ok: Vec<(T, Ivs)> = vec![];
        for (t, iv) in &cand {
            if backs.iter().all(|(_, b)| b.facts.range(shift_fwd(*t)).subset(iv)) {
                ok.push((*t, iv.clone()));
            }
        }
        if ok.len() != cand.len() {
            next = Some(ok);
        }
        if let Some(n) = next {
            it.outs.truncate(mark);
            rets.truncate(rmark);
            cand = n;
            continue;
        }
        // inductive?
        let mut steps: HashMap<T, Vec<T>> = HashMap::new();
        let mut body: Vec<(Facts, Vec<Ev>)> = vec![];
        let mut step_facts: Vec<Facts> = vec![];
        for (_, b) in &backs {
            for (al, c) in gi.mem.iter() {
                let d = match b.mem.get(al) {
                    Some(d) => d,
                    None => return None,
                };
                if c.live && !d.live {
                    return None;
                }
                if !same_shift(k, &c.v, &d.v, &accs, &mut steps) {
                    if std::env::var("VBAI_DEBUG").is_ok() {
                        eprintln!("not inductive: {:?} vs {:?}", c.v, d.v);
                    }
                    return None;
                }
            }
            let m = n0 + 1;
            if b.evs.len() < m || b.evs[..m] != gi.evs[..] {
                return None;
            }
            let mut f = Facts::default();
            for (t, iv) in &b.facts.0 {
                if gi.facts.0.get(t) != Some(iv) {
                    f.0.insert(*t, iv.clone());
                }
            }
            step_facts.push(f.clone());
            body.push((f, b.evs[m..].to_vec()));
        }
        // within the summary the completed iterations are numbered by a variable of their own
        let iota = sym(&format!("ι{id}"));
        set_base(iota, Ivs::range(Z::ZERO, isize_max()));
        let bound = |t: T| subst(t, &|x| if x == k { Some(iota) } else { None });
        let body: Vec<(Facts, Vec<Ev>)> = body
            .iter()
            .map(|(f, es)| {
                (
                    Facts(f.0.iter().map(|(t, i)| (bound(*t), i.clone())).collect()),
                    es.iter().map(|e| map_ev(e, &bound)).collect(),
                )
            })
            .collect();
        let silent = body.iter().all(|(_, es)| es.is_empty());
        // close accumulators: acc(k) == fold of the step over k iterations
        let mut closed: Vec<(T, T)> = vec![];
        for (a, init) in &accs {
            let ss = steps.get(a).cloned().unwrap_or_default();
            let mut args = vec![*init, k];
            let (self_ref, kv) = (sym("self"), sym("it"));
            let inner = |t: T| {
                subst(t, &|x| if x == *a { Some(self_ref) } else if x == k { Some(kv) } else { None })
            };
            // the conditions under which each alternative is taken
            let mut alts: Vec<(T, Vec<T>)> = vec![];
            for (i, s) in ss.iter().enumerate() {
                let mut when = vec![];
                for (t, iv) in &step_facts[i].0 {
                    if step_facts.iter().all(|f| f.0.get(t) == Some(iv)) {
                        continue;
                    }
                    if matches!(tk(*t), TK::App(op, _) if &*op == "le") {
                        continue;
                    }
                    when.push(app(&format!("when:{iv:?}"), vec![inner(*t)]));
                }
                when.sort();
                alts.push((inner(*s), when));
            }
            if alts.iter().all(|x| x.0 == alts[0].0) && !alts.is_empty() {
                alts.truncate(1);
                alts[0].1.clear();
            }
            alts.sort();
            for (s, when) in alts {
                args.extend(when);
                args.push(s);
            }
            closed.push((*a, fold_term(args)));
        }
        let close = |t: T| -> T {
            if closed.is_empty() {
                return t;
            }
            subst(t, &|x| closed.iter().find(|(a, _)| *a == x).map(|(_, c)| *c))
        };
        let finish = |st: &mut St| {
            map_st(st, &close, n0);
            // a loop that ran to a known count
            let known = st.facts.0.iter().find_map(|(t, iv)| {
                let c = iv.as_point()?;
                match tk(*t) {
                    TK::Lin(v, _) => {
                        let (_, n) = v.iter().find(|(x, _)| *x == k)?;
                        if n.abs() != 1 {
                            return None;
                        }
                        // t == c  =>  k == k - n * (t - c)
                        let r = sub(k, scale(sub(*t, int(c)), *n));
                        (!contains(r, k)).then_some(r)
                    }
                    _ => None,
                }
            });
            if let Some(r) = known {
                map_st(st, &|t| subst(t, &|x| if x == k { Some(r) } else { None }), n0);
                if !silent {
                    st.facts.assume(sub(k, r), &Ivs::point(Z::ZERO));
                }
            }
            let evs = Rc::make_mut(&mut st.evs);
            if silent {
                evs.retain(|e| !matches!(e, Ev::Rep { id: i, .. } if *i == id));
            }
            for e in evs.iter_mut() {
                if let Ev::Rep { id: i, body: bd, .. } = e {
                    if *i == id {
                        *bd = body.clone();
                    }
                }
            }
        };
        let mut out = vec![];
        for (t, mut s) in exits {
            finish(&mut s);
            out.push((t, s));
        }
        for s in rets[rmark..].iter_mut() {
            finish(s);
        }
        for o in it.outs[mark..].iter_mut() {
            let evs = Rc::make_mut(&mut o.evs);
            for e in evs.iter_mut() {
                if let Ev::Rep { id: i, body: bd, .. } = e {
                    if *i == id {
                        *bd = body.clone();
                    }
                }
            }
        }
        return Some(out);
    }
    None
}

/// Canonical form of simple folds.
fn fold_term(args: Vec<T>) -> T {
    // pushing one element per iteration onto a sequence
    if args.len() == 3 {
        if let TK::App(op, a) = tk(args[2]) {
            if &*op == "push" && a[0] == sym("self") {
                return app("collect", vec![args[0], args[1], a[1]]);
            }
        }
    }
    app("fold", args)
}
