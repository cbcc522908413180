//! symx: symbolic execution of whole-program LLVM IR, decided by SMT solvers.

mod exec;
mod expr;
mod ir;
mod smt;

use exec::*;
use expr::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn nums(v: &[u128]) -> String {
    let s: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    format!("[{}]", s.join(","))
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut opt: HashMap<String, String> = HashMap::new();
    let mut i = 1;
    while i < a.len() {
        let k = a[i].trim_start_matches("--").to_string();
        let flag = matches!(k.as_str(), "cross" | "lemmas" | "notwin");
        if flag {
            opt.insert(k, "1".into());
            i += 1;
        } else {
            opt.insert(k, a.get(i + 1).cloned().unwrap_or_default());
            i += 2;
        }
    }
    let th = std::thread::Builder::new()
        .stack_size(2 << 30)
        .spawn(move || real(opt))
        .unwrap();
    match th.join() {
        Ok(()) => {}
        Err(_) => {
            println!("{{\"status\":\"inconclusive\",\"why\":\"engine panicked\"}}");
            std::process::exit(0);
        }
    }
}

fn proj(m: &[u128], inputs: &[u32]) -> Vec<u128> {
    inputs.iter().map(|&i| m[i as usize]).collect()
}

fn real(opt: HashMap<String, String>) {
    let g = |k: &str| opt.get(k).cloned();
    let f = |k: &str, d: f64| g(k).and_then(|x| x.parse().ok()).unwrap_or(d);
    let entry = g("entry").expect("--entry");
    let args: Vec<u64> = g("args")
        .unwrap_or_default()
        .split(',')
        .filter(|x| !x.is_empty())
        .map(|x| x.parse().unwrap())
        .collect();
    let t0 = std::time::Instant::now();
    let m = match ir::Module::load(&g("ir").expect("--ir")) {
        Ok(m) => m,
        Err(e) => {
            println!("{{\"status\":\"inconclusive\",\"why\":{}}}", js(&e));
            return;
        }
    };
    let mut solver = smt::Solver::new(f("qsecs", 60.0));
    solver.dump = g("dump");
    solver.cross = g("cross").is_some();
    let lim = Limits {
        steps: f("steps", 4e8) as u64,
        secs: f("secs", 300.0),
    };
    let mut en = Engine::new(m, solver, lim);
    en.twin = g("notwin").is_none();
    if g("lemmas").is_some() {
        en.cx.tab_log = Some(HashMap::new());
    }
    let mut status = "ok";
    let mut why = String::new();
    if let Err(e) = en.run(&entry, &args) {
        status = "inconclusive";
        why = e;
    }
    let exec_ms = t0.elapsed().as_secs_f64() * 1e3;

    // ---- obligations
    let mut viol: Vec<(String, Vec<u128>)> = vec![];
    let mut whats: BTreeMap<String, u64> = BTreeMap::new();
    for o in &en.obls {
        *whats.entry(o.what.clone()).or_default() += 1;
    }
    let obls = std::mem::take(&mut en.obls);
    let mut todo: Vec<(usize, Vec<E>)> = vec![];
    // goals with the part of the path condition that is about the same inputs
    let mut near: Vec<(Vec<E>, E, Vec<usize>)> = vec![];
    let mut near_at: HashMap<(Vec<E>, E), usize> = HashMap::new();
    let mut sup: HashMap<E, Vec<u32>> = HashMap::new();
    for (i, o) in obls.iter().enumerate() {
        let mut l = en.pc_lits(&o.dom, &o.conds);
        let n = en.cx.not(o.cond);
        for &e in l.iter().chain([&n]) {
            sup.entry(e).or_insert_with(|| smt::vars_of(&en.cx, e));
        }
        let gv = &sup[&n];
        let mut rel: Vec<E> = l.iter().copied().filter(|e| sup[e].iter().all(|v| gv.binary_search(v).is_ok())).collect();
        rel.sort_unstable();
        rel.dedup();
        let at = *near_at.entry((rel.clone(), n)).or_insert_with(|| {
            near.push((rel, n, vec![]));
            near.len() - 1
        });
        near[at].2.push(i);
        l.push(n);
        todo.push((i, l));
    }
    drop(near_at);
    let nobl = todo.len();
    let ngoals = near.len();
    let maxviol = f("maxviol", 6.0) as usize;
    let chunk = f("chunk", 64.0) as usize;
    let mut undecided = 0;
    let deadline = f("total", f("secs", 300.0) * 2.0);
    // what holds for every path with these inputs holds on this one
    let mut proved = vec![false; nobl];
    near.sort_by_key(|x| x.2[0]);
    let mut size = chunk;
    while let Some(k) = Some(near.len().min(size)).filter(|&k| k > 0) {
        if t0.elapsed().as_secs_f64() > deadline {
            break;
        }
        let from = near.len() - k;
        let dnf: Vec<Vec<E>> = near[from..].iter().map(|x| x.0.iter().copied().chain([x.1]).collect()).collect();
        match en.solver.check(&en.cx, &dnf, true) {
            Ok(smt::Res::Unsat) => {
                for x in near.drain(from..) {
                    for i in x.2 {
                        proved[i] = true;
                    }
                }
                size = chunk;
            }
            Ok(smt::Res::Sat(model)) => {
                // those the model satisfies need their whole path condition
                let mut memo = HashMap::new();
                let mut j = from;
                let n0 = near.len();
                while j < near.len() {
                    let x = &near[j];
                    if x.0.iter().chain([&x.1]).all(|&e| en.cx.eval(e, &model, &mut memo) != 0) {
                        near.remove(j);
                    } else {
                        j += 1;
                    }
                }
                if near.len() == n0 {
                    near.truncate(from);
                }
            }
            _ => {
                if k > 1 {
                    size = (k / 4).max(1);
                } else {
                    near.pop();
                }
            }
        }
    }
    todo.retain(|x| !proved[x.0]);
    while !todo.is_empty() && viol.len() < maxviol {
        if t0.elapsed().as_secs_f64() > deadline {
            undecided += todo.len();
            why = "time limit in the solver phase".into();
            break;
        }
        let k = todo.len().min(chunk);
        let dnf: Vec<Vec<E>> = todo[todo.len() - k..].iter().map(|x| x.1.clone()).collect();
        match en.solver.check(&en.cx, &dnf, true) {
            Ok(smt::Res::Unsat) => {
                todo.truncate(todo.len() - k);
            }
            Ok(smt::Res::Sat(model)) => {
                let mut memo = HashMap::new();
                let mut found: BTreeMap<String, usize> = BTreeMap::new();
                for (i, l) in &todo {
                    if l.iter().all(|&e| en.cx.eval(e, &model, &mut memo) != 0) {
                        found.entry(obls[*i].what.clone()).or_insert(*i);
                    }
                }
                if found.is_empty() {
                    status = "inconclusive";
                    why = "solver model does not satisfy the query".into();
                    break;
                }
                for (w, i) in &found {
                    viol.push((w.clone(), proj(&model, &obls[*i].inputs)));
                }
                todo.retain(|(i, _)| !found.contains_key(&obls[*i].what));
            }
            Ok(smt::Res::Unknown(w)) => {
                // decide one at a time
                if k > 1 {
                    let mut keep = vec![];
                    let tail: Vec<(usize, Vec<E>)> = todo.split_off(todo.len() - k);
                    for (i, l) in tail {
                        match en.solver.check(&en.cx, &[l.clone()], true) {
                            Ok(smt::Res::Unsat) => {}
                            Ok(smt::Res::Sat(model)) => {
                                viol.push((obls[i].what.clone(), proj(&model, &obls[i].inputs)))
                            }
                            Ok(smt::Res::Unknown(w)) => {
                                undecided += 1;
                                why = format!("undecided: {}: {w}", obls[i].what);
                            }
                            Err(e) => {
                                undecided += 1;
                                why = e;
                            }
                        }
                        if t0.elapsed().as_secs_f64() > deadline {
                            undecided += 1;
                            keep.clear();
                            why = "time limit in the solver phase".into();
                            break;
                        }
                    }
                    todo.extend(keep.drain(..));
                } else {
                    undecided += 1;
                    why = format!("undecided: {}: {w}", obls[todo[todo.len() - 1].0].what);
                    todo.pop();
                }
            }
            Err(e) => {
                status = "inconclusive";
                why = e;
                break;
            }
        }
    }
    if undecided > 0 {
        status = "inconclusive";
    }

    // ---- non-vacuity
    let mut reach: Vec<(String, Option<Vec<u128>>)> = vec![];
    let rs = std::mem::take(&mut en.reach);
    for (id, v) in rs {
        let mut ok = None;
        for ch in v.chunks(64) {
            let dnf: Vec<Vec<E>> = ch.iter().map(|x| en.pc_lits(&x.0, &x.1)).collect();
            if let Ok(smt::Res::Sat(m)) = en.solver.check(&en.cx, &dnf, true) {
                let mut memo = HashMap::new();
                for (x, l) in ch.iter().zip(&dnf) {
                    if ok.is_none() && l.iter().all(|&e| en.cx.eval(e, &m, &mut memo) != 0) {
                        ok = Some(proj(&m, &x.2));
                    }
                }
                break;
            }
        }
        reach.push((id, ok));
    }

    // ---- traces for validating the engine against native runs
    let mut traces: Vec<(Vec<u128>, Vec<u128>)> = vec![];
    let want = f("traces", 4.0) as usize;
    let fins = std::mem::take(&mut en.fins);
    let mut rng = Rng(f("seed", 1.0) as u64 ^ 0xabcdef);
    let mut tries = 0;
    while traces.len() < want && tries < 4000 && !fins.is_empty() {
        tries += 1;
        let fin = &fins[(rng.next() % fins.len() as u64) as usize];
        if !fin.outs_ok {
            continue;
        }
        let mut asg: Vec<u128> = en
            .cx
            .vars
            .iter()
            .map(|v| {
                let n = v.hi - v.lo + 1;
                match rng.next() % 8 {
                    0 => v.lo,
                    1 => v.hi,
                    _ => v.lo + rng.next() as u128 % n,
                }
            })
            .collect();
        en.cx.equate(&mut asg);
        for (&b, &t) in fin.dom.iter() {
            if let K::Var(i) = en.cx.k[b as usize] {
                let tv = &en.cx.tabs[t as usize];
                let ok: Vec<usize> = (0..tv.len()).filter(|&j| tv[j] != 0).collect();
                asg[i as usize] = en.cx.lo(b) + ok[(rng.next() % ok.len() as u64) as usize] as u128;
            }
        }
        en.cx.equate(&mut asg);
        let pc = en.pc_lits(&fin.dom, &fin.conds);
        let mut memo = HashMap::new();
        if pc.iter().all(|&e| en.cx.eval(e, &asg, &mut memo) != 0) {
            let outs = fin.outs.iter().map(|o| en.cx.eval(o.1, &asg, &mut memo)).collect();
            traces.push((proj(&asg, &fin.inputs), outs));
        }
    }
    if traces.is_empty() && want > 0 {
        for fin in fins.iter().filter(|x| x.outs_ok).take(8) {
            let pc = en.pc_lits(&fin.dom, &fin.conds);
            if let Ok(smt::Res::Sat(asg)) = en.solver.check(&en.cx, &[pc], true) {
                let mut memo = HashMap::new();
                let outs = fin.outs.iter().map(|o| en.cx.eval(o.1, &asg, &mut memo)).collect();
                traces.push((proj(&asg, &fin.inputs), outs));
                break;
            }
        }
    }

    // ---- certify the finite-domain rewrites
    let mut lem = (0usize, 0usize, "off".to_string(), 0.0);
    if let Some(log) = en.cx.tab_log.take() {
        let t = std::time::Instant::now();
        let r = smt::certify(&mut en.solver, &en.cx, &log, f("lemsecs", 120.0));
        lem = (r.0, r.1, r.2, t.elapsed().as_secs_f64() * 1e3);
        if lem.2 == "refuted" {
            status = "inconclusive";
            why = "a tabulated rewrite was refuted by the solver".into();
        }
    }

    // ---- functions of /repo executed
    let mut funs: BTreeMap<(String, String), BTreeSet<u32>> = BTreeMap::new();
    for id in en.used_dbg.clone() {
        if let Some((n, file, line)) = en.m.dbg_fn(id) {
            funs.entry((file, n)).or_default().insert(line);
        }
    }
    if !viol.is_empty() {
        status = if status == "ok" { "violation" } else { "violation+inconclusive" };
    }

    let mut o = String::from("{");
    let _ = write!(o, "\"status\":{},\"why\":{},", js(status), js(&why));
    let v: Vec<String> = viol
        .iter()
        .map(|(w, m)| format!("{{\"what\":{},\"model\":{}}}", js(w), nums(m)))
        .collect();
    let _ = write!(o, "\"violations\":[{}],", v.join(","));
    let v: Vec<String> = reach
        .iter()
        .map(|(w, m)| {
            format!("{}:{}", js(w), m.as_ref().map(|m| nums(m)).unwrap_or("null".into()))
        })
        .collect();
    let _ = write!(o, "\"reach\":{{{}}},", v.join(","));
    let v: Vec<String> = traces
        .iter()
        .map(|(a, b)| format!("{{\"in\":{},\"out\":{}}}", nums(a), nums(b)))
        .collect();
    let _ = write!(o, "\"traces\":[{}],", v.join(","));
    let v: Vec<String> = funs
        .iter()
        .map(|((f, n), l)| format!("[{},{},{}]", js(f), js(n), l.len()))
        .collect();
    let _ = write!(o, "\"functions\":[{}],", v.join(","));
    let s = &en.stats;
    let _ = write!(
        o,
        "\"steps\":{},\"forks\":{},\"merges\":{},\"refused\":{},\"checks\":{},\"checks_canonical\":{},\"checks_const\":{},\"branch_queries\":{},\"obligations\":{},\"goals\":{},\"paths\":{},\"maxstates\":{},\"vars\":{},\"nodes\":{},\"tables\":{},\"tabops\":{},",
        s.steps, s.forks, s.merges, s.refused_merges, s.checks, s.checks_trivial, s.checks_const, s.branch_queries, nobl, ngoals, fins.len(), s.max_states,
        en.cx.vars.len(), en.cx.k.len(), en.cx.tabs.len(), en.cx.n_tab_ops
    );
    let ss = &en.solver.stats;
    let by: Vec<String> = ss.by.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect();
    let _ = write!(
        o,
        "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_ms\":{:.1},\"max_query_ms\":{:.1},\"biggest_query\":{},\"by\":{{{}}},",
        ss.queries, ss.sat, ss.unsat, ss.unknown, ss.ms, ss.max_ms, ss.biggest, by.join(",")
    );
    let _ = write!(
        o,
        "\"lemmas\":{},\"lemmas_skipped\":{},\"lemma_result\":{},\"lemma_ms\":{:.1},",
        lem.0, lem.1, js(&lem.2), lem.3
    );
    let v: Vec<String> = whats.iter().map(|(k, n)| format!("{}:{n}", js(k))).collect();
    let _ = write!(o, "\"obligation_kinds\":{{{}}},", v.join(","));
    let _ = write!(o, "\"exec_ms\":{exec_ms:.1},\"total_ms\":{:.1}}}", t0.elapsed().as_secs_f64() * 1e3);
    println!("{o}");
}
