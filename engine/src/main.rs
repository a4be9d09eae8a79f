//! Rustc driver.  Two modes:
//!  * wrapper (`RUSTC_WORKSPACE_WRAPPER`): records the compiler arguments of the adapters crate in
//!    `$MA_CAPTURE` and otherwise behaves as plain rustc;
//!  * analysis (`MA_TASKS` set): analyses the entry functions of the adapters crate.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod bdd;
mod bv;
mod float;
mod interp;
mod intrinsics;
mod lint;
mod mem;

use bdd::Bit;
use bv::Bv;
use interp::*;
use mem::AByte;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_middle::ty::{Instance, TyCtxt};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::io::Write as _;
use std::time::Instant;

struct Plain;
impl Callbacks for Plain {}
struct Analyse;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jlist<I: Iterator<Item = String>>(it: I) -> String {
    format!("[{}]", it.collect::<Vec<_>>().join(","))
}

/// Turn a satisfying valuation of bit variables into readable inputs.
fn witness(c: Bit) -> String {
    let Some(w) = bdd::witness(c) else { return "{}".into() };
    let mut words: BTreeMap<String, (u128, u128)> = BTreeMap::new();
    for (n, v) in &w {
        let (base, bit) = if let Some(p) = n.rfind("].") {
            // name[i].j
            (n[..p + 1].to_string(), n[p + 2..].parse::<u32>().unwrap_or(0))
        } else if let Some(p) = n.rfind('[') {
            (n[..p].to_string(), n[p + 1..n.len() - 1].parse::<u32>().unwrap_or(0))
        } else {
            (n.clone(), 0)
        };
        let e = words.entry(base).or_insert((0, 0));
        e.1 |= 1 << bit;
        if *v {
            e.0 |= 1 << bit;
        }
    }
    format!(
        "{{{}}}",
        words.iter().map(|(k, (v, _))| format!("{}:{}", js(k), js(&v.to_string()))).collect::<Vec<_>>().join(",")
    )
}
fn notes(n: &[(String, u128)]) -> String {
    format!("{{{}}}", n.iter().map(|(k, v)| format!("{}:{}", js(k), js(&v.to_string()))).collect::<Vec<_>>().join(","))
}

struct Task {
    func: String,
    p: u64,
    w: u64,
}

fn entries<'tcx>(tcx: TyCtxt<'tcx>) -> (HashMap<String, rustc_hir::def_id::DefId>, HashMap<String, rustc_hir::def_id::DefId>) {
    let mut ents = HashMap::new();
    let mut rt = HashMap::new();
    for ld in tcx.hir_body_owners() {
        let did = ld.to_def_id();
        if tcx.def_kind(did) != DefKind::Fn {
            continue;
        }
        let path = tcx.def_path_str(did);
        let name = tcx.item_name(did).to_string();
        if path.starts_with("rt::") {
            rt.insert(name, did);
            continue;
        }
        if !tcx.visibility(did).is_public() {
            continue;
        }
        if tcx.generics_of(did).requires_monomorphization(tcx) {
            continue;
        }
        let segs: Vec<&str> = path.split("::").collect();
        if let Some(k) = segs.iter().position(|s| {
            let b = s.as_bytes();
            b.len() > 4 && b[0] == b'c' && b[1].is_ascii_digit() && b[2].is_ascii_digit() && b[3] == b'_'
        }) {
            if k + 1 < segs.len() {
                ents.insert(segs[k..].join("::"), did);
            }
        }
    }
    (ents, rt)
}

fn concrete_u64(le: bool, b: &[AByte]) -> Option<Vec<u64>> {
    // a tuple of u64 laid out in order
    let mut out = vec![];
    for ch in b.chunks(8) {
        let mut v = 0u64;
        for i in 0..8 {
            let AByte::K(k) = ch[if le { 7 - i } else { i }] else { return None };
            v = v << 8 | k as u64;
        }
        out.push(v);
    }
    Some(out)
}

impl Callbacks for Analyse {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let filt = std::env::var("MA_TASKS").unwrap();
        let thorough = std::env::var("MA_TIER").map(|t| t == "thorough").unwrap_or(false);
        let out_path = std::env::var("MA_OUT").unwrap();
        let claim = std::env::var("MA_CLAIM").ok();
        let step_limit: u64 = std::env::var("MA_STEPS").ok().and_then(|x| x.parse().ok()).unwrap_or(400_000_000);
        let time_limit: f64 = std::env::var("MA_TIME").ok().and_then(|x| x.parse().ok()).unwrap_or(1e9);
        let num = |n: &str| -> u64 { std::env::var(n).ok().and_then(|x| x.parse().ok()).unwrap_or(0) };
        let (thin, seed) = (num("MA_THIN"), num("MA_SEED"));
        let started = Instant::now();
        let mut out = std::fs::File::create(&out_path).unwrap();
        let (ents, rt) = entries(tcx);
        let pats: Vec<&str> = filt.split(',').collect();
        let mut names: Vec<&String> = ents
            .keys()
            .filter(|n| !n.contains("::range::"))
            .filter(|n| {
                pats.iter().any(|p| {
                    let (f, _) = p.split_once('@').unwrap_or((p, ""));
                    f == n.as_str() || n.starts_with(&format!("{f}_")) || n.starts_with(&format!("{f}::"))
                })
            })
            .collect();
        names.sort();
        let mut tasks: Vec<Task> = vec![];
        bdd::reset();
        let mut it = Interp::new(tcx);
        it.rt_fns = rt.clone();
        // long instances start first; runs that take a sample of the instances leave the longest out
        let long = |n: &str| n.contains("_huge");
        if thin > 1 {
            names.retain(|n| !["c01_huge", "c14_huge", "c17_huge", "c18_huge"].iter().any(|x| n.starts_with(x)));
        }
        for n in &names {
            // an explicit instance: name@p
            let explicit: Vec<u64> = pats
                .iter()
                .filter_map(|p| p.split_once('@'))
                .filter(|(f, _)| f == n)
                .flat_map(|(_, v)| v.split('+').filter_map(|x| x.parse().ok()).collect::<Vec<u64>>())
                .collect();
            if !explicit.is_empty() {
                for p in explicit {
                    tasks.push(Task { func: n.to_string(), p, w: p });
                }
                continue;
            }
            let rn = n.replacen("::", "::range::", 1);
            match ents.get(&rn) {
                None => tasks.push(Task { func: n.to_string(), p: 0, w: 1 }),
                Some(did) => {
                    let inst = Instance::mono(tcx, *did);
                    let r = it.entry(inst, vec![Bv::c(8, thorough as u128)]);
                    let v = match r {
                        Ok(v) if v.len() == 1 => concrete_u64(it.le, &v[0].1),
                        _ => None,
                    };
                    match v {
                        Some(v) if v.len() == 3 => {
                            let h: u64 = n.bytes().fold(seed, |a, b| a.wrapping_mul(31).wrapping_add(b as u64));
                            let mut p = v[0];
                            while p <= v[1] {
                                if thin <= 1 || p == v[0] || p + v[2].max(1) > v[1] || (h.wrapping_add(p / v[2].max(1))) % thin == 0 {
                                    tasks.push(Task { func: n.to_string(), p, w: if long(n) { 1 << 20 } else { p } });
                                }
                                p += v[2].max(1);
                            }
                        }
                        _ => {
                            let _ = writeln!(
                                out,
                                "{{\"entry\":{},\"p\":0,\"unsup\":[{}],\"bad_range\":true}}",
                                js(n),
                                js(&format!("range not evaluated: {:?} {:?}", it.unsup, it.exits))
                            );
                        }
                    }
                }
            }
        }
        tasks.sort_by(|a, b| b.w.cmp(&a.w).then(a.func.cmp(&b.func)));
        let total = tasks.len();
        if let Ok(which) = std::env::var("MA_LINT") {
            let mine = match &claim {
                Some(c) => std::fs::OpenOptions::new().write(true).create_new(true).open(format!("{c}/lint")).is_ok(),
                None => true,
            };
            if mine {
                let (le, r) = if which == "2" { ("c32_surface", lint::surface(tcx)) } else { ("c30_lint", lint::run(tcx)) };
                let viol = r.findings.iter().map(|f| {
                    format!(
                        "{{\"kind\":\"lint\",\"tag\":{},\"detail\":{},\"site\":{},\"chain\":[{}],\"witness\":{{}},\"notes\":{{}}}}",
                        js(&f.tag),
                        js(&f.detail),
                        js(&f.site),
                        js(&f.func)
                    )
                });
                let _ = writeln!(
                    out,
                    "{{\"entry\":{},\"p\":0,\"total\":{},\"time\":0,\"ended\":1,\"violations\":{},\"unsup\":{},\"steps\":0,\"checks\":{},\"tags\":{},\"mem\":0,\"forks\":0,\"joins\":0,\"nodes\":0,\"vars\":0,\"funcs\":{},\"asserts\":[]}}",
                    js(le),
                    tasks.len(),
                    jlist(viol),
                    jlist(r.unsup.iter().map(|x| js(x))),
                    r.obligations.values().sum::<u64>(),
                    format!("{{{}}}", r.obligations.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")),
                    jlist(r.funcs.iter().map(|x| js(x))),
                );
            }
        }
        for (i, t) in tasks.iter().enumerate() {
            if let Some(c) = &claim {
                let f = format!("{c}/{i}");
                if std::fs::OpenOptions::new().write(true).create_new(true).open(&f).is_err() {
                    continue;
                }
            }
            if started.elapsed().as_secs_f64() > time_limit {
                let _ = writeln!(out, "{{\"entry\":{},\"p\":{},\"skipped\":true}}", js(&t.func), t.p);
                continue;
            }
            let t0 = Instant::now();
            bdd::reset();
            it.exits.clear();
            it.fails.clear();
            it.unsup.clear();
            it.stats = Default::default();
            it.abort = None;
            it.step_limit = step_limit;
            it.reset_consts();
            let inst = Instance::mono(tcx, ents[&t.func]);
            let bi = it.body(inst);
            let nargs = bi.as_ref().map(|b| b.body.arg_count).unwrap_or(0);
            let args = if nargs == 0 { vec![] } else { vec![Bv::c(it.pw(), t.p as u128)] };
            let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| it.entry(inst, args))) {
                Ok(r) => r,
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
                    it = Interp::new(tcx);
                    it.rt_fns = rt.clone();
                    unsup(format!("the analyser failed: {}", m.unwrap_or_default()))
                }
            };
            let mut uns: Vec<String> = it.unsup.clone();
            let mut ended = 0;
            match r {
                Ok(v) => ended = v.len(),
                Err(e) => uns.push(format!("{e:?}")),
            }
            if let Some(a) = &it.abort {
                uns.push(format!("analysis stopped: {a}"));
            }
            let mut viol = vec![];
            for e in &it.exits {
                viol.push(format!(
                    "{{\"kind\":{},\"tag\":{},\"site\":{},\"chain\":{},\"witness\":{},\"notes\":{}}}",
                    js(match e.kind {
                        ExitKind::Panic => "panic",
                        ExitKind::Overflow => "overflow",
                        ExitKind::Ub => "ub",
                        ExitKind::Leak => "leak",
                    }),
                    js(&e.msg),
                    js(&e.site),
                    jlist(e.chain.iter().map(|x| js(x))),
                    witness(e.pc),
                    notes(&e.notes)
                ));
            }
            for f in &it.fails {
                viol.push(format!(
                    "{{\"kind\":\"check\",\"tag\":{},\"detail\":{},\"site\":{},\"chain\":{},\"witness\":{},\"notes\":{}}}",
                    js(&f.tag),
                    js(&f.detail),
                    js(&f.site),
                    jlist(f.chain.iter().map(|x| js(x))),
                    witness(f.cond),
                    notes(&f.notes)
                ));
            }
            let s = &it.stats;
            let _ = writeln!(
                out,
                "{{\"entry\":{},\"p\":{},\"total\":{},\"time\":{:.3},\"ended\":{},\"violations\":[{}],\"unsup\":{},\"steps\":{},\"checks\":{},\"tags\":{},\"mem\":{},\"forks\":{},\"joins\":{},\"nodes\":{},\"vars\":{},\"funcs\":{},\"asserts\":{}}}",
                js(&t.func),
                t.p,
                total,
                t0.elapsed().as_secs_f64(),
                ended,
                viol.join(","),
                jlist(uns.iter().map(|x| js(x))),
                s.steps,
                s.checks,
                format!("{{{}}}", s.check_tags.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")),
                s.mem_accesses,
                s.forks,
                s.joins,
                bdd::node_count(),
                bdd::var_count(),
                jlist(s.funcs.iter().map(|x| js(x))),
                jlist(s.assert_sites.iter().map(|x| js(x))),
            );
            let _ = out.flush();
        }
        let _ = writeln!(out, "{{\"done\":true,\"total\":{total}}}");
        Compilation::Stop
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // wrapper invocation: engine rustc <args>
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    if std::env::var("MA_TASKS").is_ok() {
        std::process::exit(code(|| rustc_driver::compiler_entrypoint(&args, &mut Analyse)));

    }
    if let Ok(f) = std::env::var("MA_CAPTURE") {
        let is = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "morton_adapters");
        if is {
            let _ = std::fs::write(f, args[1..].join("\0"));
        }
    }
    std::process::exit(code(|| rustc_driver::compiler_entrypoint(&args, &mut Plain)));
}
fn code(f: impl FnOnce()) -> i32 {
    let ok = std::process::ExitCode::SUCCESS;
    let r = rustc_driver::catch_with_exit_code(f);
    if format!("{r:?}") == format!("{ok:?}") {
        0
    } else {
        1
    }
}
