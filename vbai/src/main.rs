//! Static analysis driver: a rustc wrapper that, for the `witness` crate, decides the
//! obligations it finds there by abstract interpretation of the compiled MIR.
#![feature(rustc_private)]
#![allow(dead_code)]

extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

mod check;
mod dom;
mod interp;
mod models;
mod stdm;
mod terms;
mod widen;

use rustc_public::mir::mono::Instance;
use rustc_public::all_local_items;
use std::collections::BTreeMap;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","))
}

fn analyze() -> ControlFlow<(), ()> {
    let mut prop = std::env::var("VBAI_PROP").unwrap_or_default();
    // these two properties are about every use of the library
    let only_for = match &prop[..] {
        "C19" => Some(check::Watch::Ub),
        "C20" => Some(check::Watch::Panic),
        _ => None,
    };
    if only_for.is_some() {
        prop.clear();
    }
    let shard = std::env::var("VBAI_SHARD").unwrap_or_default();
    let (part, parts) = match shard.split_once('/') {
        Some((a, b)) => (a.parse().unwrap_or(0), b.parse().unwrap_or(1)),
        None => (0usize, 1usize),
    };
    let out = std::env::var("VBAI_OUT").unwrap_or_default();
    let only = std::env::var("VBAI_ONLY").unwrap_or_default();
    let mut obs: BTreeMap<String, (Option<Instance>, Option<Instance>)> = BTreeMap::new();
    let mut it = interp::Interp::new();
    for item in all_local_items() {
        let n = item.0.name();
        let last = n.rsplit("::").next().unwrap_or("").to_string();
        if n.contains("shim::") {
            if let rustc_public::ty::TyKind::RigidTy(rustc_public::ty::RigidTy::FnDef(d, _)) =
                item.ty().kind()
            {
                it.shims.insert(last.clone(), d);
            }
        }
        // obligations are modules holding `imp` and `spec`
        let segs: Vec<&str> = n.split("::").collect();
        if segs.len() >= 2 && (last == "imp" || last == "spec") {
            let of = |x: &&str| x.starts_with(&prop) && !x[prop.len()..].starts_with(|c: char| c.is_numeric());
            if prop.is_empty() || segs[1..].iter().any(|x| of(x)) {
                let key = segs[1..segs.len() - 1].join("::");
                let e = obs.entry(key).or_default();
                let i = Instance::try_from(item).ok();
                if last == "imp" {
                    e.0 = i
                } else {
                    e.1 = i
                }
            }
        }
    }
    let mut reps = vec![];
    let (mut im_p, mut sp_p, mut cmp) = (0, 0, 0);
    for (k, (n, (i, s))) in obs.iter().enumerate() {
        if k % parts != part {
            continue;
        }
        if !only.is_empty() && !n.contains(&only) {
            continue;
        }
        let t0 = std::time::Instant::now();
        let r = match (i, s) {
            (Some(i), Some(s)) if only_for.is_some() => check::watch(&mut it, n, *i, *s, only_for.unwrap()),
            (Some(i), Some(s)) => check::compare(&mut it, n, *i, *s),
            _ => panic!("obligation {n} is incomplete"),
        };
        if std::env::var("VBAI_VERBOSE").is_ok() {
            eprintln!(
                "{} {} parts={}/{} compared={} {:?} fns={} steps={}",
                if !r.ok { "FAIL" } else if r.undecided { "UNDECIDED" } else { "ok" },
                n,
                r.impl_parts,
                r.spec_parts,
                r.compared,
                t0.elapsed(),
                r.sites.len(),
                it.steps
            );
            for d in &r.detail {
                eprintln!("    {d}");
            }
        }
        im_p += r.impl_parts;
        sp_p += r.spec_parts;
        cmp += r.compared;
        reps.push(r);
    }
    if !out.is_empty() {
        let mut s = String::from("{\"obligations\":[");
        for (i, r) in reps.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            s.push_str(&format!(
                "{{\"name\":{},\"ok\":{},\"undecided\":{},\"detail\":{},\"keys\":{},\"impl_parts\":{},\"spec_parts\":{},\"compared\":{},\"functions\":{}}}",
                esc(&r.name), r.ok, r.undecided, list(&r.detail), list(&r.keys), r.impl_parts, r.spec_parts, r.compared, r.sites.len()
            ));
        }
        let fns: Vec<String> = it.seen_fns.iter().cloned().collect();
        let models: Vec<String> =
            it.models_used.iter().map(|(k, v)| format!("{k} x{v}")).collect();
        s.push_str(&format!(
            "],\"impl_partitions\":{im_p},\"spec_partitions\":{sp_p},\"compared\":{cmp},\"repo_functions\":{},\"repo_blocks\":{},\"calls\":{},\"loops_widened\":{},\"loops_unfolded\":{},\"merges\":{},\"models\":{}}}",
            list(&fns), it.seen_blocks.len(), it.calls, it.widened, it.unrolled, it.merges, list(&models)
        ));
        std::fs::write(&out, s).expect("write output");
    }
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let _ = rustc_public::run!(&args, analyze);
}
