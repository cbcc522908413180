//! Export of expressions to SMT-LIB and a small portfolio of solvers.

use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub enum Res {
    Sat(Vec<u128>),
    Unsat,
    Unknown(String),
}

#[derive(Default, Clone, Debug)]
pub struct SolverStats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub ms: f64,
    pub max_ms: f64,
    pub biggest: usize,
    pub by: std::collections::BTreeMap<String, u64>,
}

pub struct Solver {
    pub stats: SolverStats,
    /// seconds before giving up on one query
    pub timeout: f64,
    pub dump: Option<String>,
    /// every unsat answer must be confirmed by a second, different solver
    pub cross: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Bv,
    Int,
}

pub struct Script {
    pub text: String,
    pub vars: Vec<u32>,
}

fn lit(v: i128, mode: Mode, w: u32) -> String {
    match mode {
        Mode::Int => {
            if v < 0 {
                format!("(- {})", -v)
            } else {
                format!("{v}")
            }
        }
        Mode::Bv => format!("(_ bv{} {w})", (v as u128) & mask(w)),
    }
}

struct Em<'a> {
    cx: &'a Cx,
    mode: Mode,
    w: u32,
    out: String,
}

impl<'a> Em<'a> {
    fn isb(&self, e: E) -> bool {
        self.cx.is_bool(e)
    }
    fn num(&self, e: E) -> String {
        if let Some(v) = self.cx.konst(e) {
            return lit(v as i128, self.mode, self.w);
        }
        if self.isb(e) {
            format!("(ite n{e} {} {})", lit(1, self.mode, self.w), lit(0, self.mode, self.w))
        } else {
            format!("n{e}")
        }
    }
    fn boolean(&self, e: E) -> String {
        match self.cx.konst(e) {
            Some(0) => "false".into(),
            Some(_) => "true".into(),
            None => format!("n{e}"),
        }
    }
    /// table over base, as a numeral term
    fn table(&self, b: E, t: &[u128], isbool: bool) -> String {
        let lo = self.cx.lo(b) as i128;
        if self.isb(b) {
            // two entries
            let l = |v: u128| {
                if isbool {
                    (if v != 0 { "true" } else { "false" }).to_string()
                } else {
                    lit(v as i128, self.mode, self.w)
                }
            };
            return format!("(ite {} {} {})", self.boolean(b), l(t[1]), l(t[0]));
        }
        let x = self.num(b);
        // greedy pieces: (start, value, slope)
        let mut ps: Vec<(usize, i128, i128)> = vec![];
        let mut i = 0;
        while i < t.len() {
            let v = t[i] as i128;
            let mut j = i + 1;
            while j < t.len() && t[j] == t[i] {
                j += 1;
            }
            if j - i >= 2 || j == t.len() || isbool {
                ps.push((i, v, 0));
                i = j;
                continue;
            }
            let d = (t[i + 1] as i128).wrapping_sub(v);
            let mut j = i + 1;
            while j < t.len() && (t[j] as i128).wrapping_sub(t[j - 1] as i128) == d {
                j += 1;
            }
            if j - i >= 3 {
                ps.push((i, v, d));
                i = j;
            } else {
                ps.push((i, v, 0));
                i += 1;
            }
        }
        self.pieces(&ps, &x, lo, isbool)
    }
    fn pieces(&self, ps: &[(usize, i128, i128)], x: &str, lo: i128, isbool: bool) -> String {
        if ps.len() == 1 {
            let (s, v, d) = ps[0];
            if isbool {
                return (if v != 0 { "true" } else { "false" }).into();
            }
            if d == 0 {
                return lit(v, self.mode, self.w);
            }
            // v + d * (x - lo - s)
            let c = v - d * (lo + s as i128);
            let m = if d == 1 { x.to_string() } else { self.mulc(x, d) };
            return self.addc(&m, c);
        }
        let h = ps.len() / 2;
        let th = lit(lo + ps[h].0 as i128, self.mode, self.w);
        let cmp = match self.mode {
            Mode::Bv => "bvult",
            Mode::Int => "<",
        };
        format!(
            "(ite ({cmp} {x} {th}) {} {})",
            self.pieces(&ps[..h], x, lo, isbool),
            self.pieces(&ps[h..], x, lo, isbool)
        )
    }
    fn mulc(&self, x: &str, k: i128) -> String {
        if k == 1 {
            return x.into();
        }
        match self.mode {
            Mode::Bv => format!("(bvmul {x} {})", lit(k, self.mode, self.w)),
            Mode::Int => format!("(* {x} {})", lit(k, self.mode, self.w)),
        }
    }
    fn addc(&self, x: &str, k: i128) -> String {
        if k == 0 {
            return x.into();
        }
        self.sum(&[x.to_string(), lit(k, self.mode, self.w)])
    }
    fn sum(&self, v: &[String]) -> String {
        if v.len() == 1 {
            return v[0].clone();
        }
        match self.mode {
            Mode::Int => format!("(+ {})", v.join(" ")),
            Mode::Bv => format!("(bvadd {})", v.join(" ")),
        }
    }
    fn define(&mut self, e: E) {
        let cx = self.cx;
        let b = self.isb(e);
        let sort = if b {
            "Bool".to_string()
        } else if self.mode == Mode::Int {
            "Int".into()
        } else {
            format!("(_ BitVec {})", self.w)
        };
        let w = self.w;
        let body: String = match &cx.k[e as usize] {
            K::C(_) => return,
            K::Var(i) => {
                let _ = writeln!(self.out, "(declare-const v{i} {sort})");
                if !b {
                    let (l, h) = (cx.lo(e) as i128, cx.hi(e) as i128);
                    let le = if self.mode == Mode::Int { "<=" } else { "bvule" };
                    let _ = writeln!(
                        self.out,
                        "(assert ({le} {} v{i}))\n(assert ({le} v{i} {}))",
                        lit(l, self.mode, w),
                        lit(h, self.mode, w)
                    );
                }
                format!("v{i}")
            }
            K::Tab(bb, t) => self.table(*bb, &cx.tabs[*t as usize], b),
            K::Sep(c, l, t) | K::Mod2(_, c, l, t) => {
                let mut v = vec![];
                for (x, k) in l.iter() {
                    v.push(self.mulc(&self.num(*x), *k));
                }
                for (bb, t) in t.iter() {
                    v.push(self.table(*bb, &cx.tabs[*t as usize], false));
                }
                if *c != 0 || v.is_empty() {
                    v.push(lit(*c, self.mode, w));
                }
                let s = self.sum(&v);
                let s = match &cx.k[e as usize] {
                    K::Mod2(mw, ..) => match self.mode {
                        Mode::Int => format!("(mod {s} {})", 1u128 << mw),
                        Mode::Bv => format!("(bvand {s} {})", lit(mask(*mw) as i128, self.mode, w)),
                    },
                    _ => s,
                };
                if b {
                    format!("(= {s} {})", lit(1, self.mode, w))
                } else {
                    s
                }
            }
            K::URem(a, m) | K::UDiv(a, m) => {
                let rem = matches!(cx.k[e as usize], K::URem(..));
                let op = match (self.mode, rem) {
                    (Mode::Int, true) => "mod",
                    (Mode::Int, false) => "div",
                    (Mode::Bv, true) => "bvurem",
                    (Mode::Bv, false) => "bvudiv",
                };
                let s = format!("({op} {} {})", self.num(*a), lit(*m as i128, self.mode, w));
                if b {
                    format!("(= {s} {})", lit(1, self.mode, w))
                } else {
                    s
                }
            }
            K::Bit(op, x, y, bw) => {
                let (x, y) = (self.num(*x), self.num(*y));
                let o = match op {
                    BO::And => "bvand",
                    BO::Or => "bvor",
                    BO::Xor => "bvxor",
                    BO::Shl => "bvshl",
                    BO::LShr => "bvlshr",
                    BO::Mul => "bvmul",
                    BO::UDiv => "bvudiv",
                    BO::URem => "bvurem",
                };
                let mut s = format!("({o} {x} {y})");
                if matches!(op, BO::UDiv | BO::URem) {
                    let z = lit(0, self.mode, w);
                    s = format!("(ite (= {y} {z}) {z} {s})");
                }
                if *bw < w && matches!(op, BO::Shl | BO::Mul) {
                    s = format!("(bvand {s} {})", lit(mask(*bw) as i128, self.mode, w));
                }
                if b {
                    format!("(= {s} {})", lit(1, self.mode, w))
                } else {
                    s
                }
            }
            K::Ite(c, x, y) => {
                if b {
                    format!("(ite {} {} {})", self.boolean(*c), self.boolean(*x), self.boolean(*y))
                } else {
                    format!("(ite {} {} {})", self.boolean(*c), self.num(*x), self.num(*y))
                }
            }
            K::Eq(x, y) => format!("(= {} {})", self.num(*x), self.num(*y)),
            K::Ult(x, y) => format!(
                "({} {} {})",
                if self.mode == Mode::Int { "<" } else { "bvult" },
                self.num(*x),
                self.num(*y)
            ),
            K::Not(x) => format!("(not {})", self.boolean(*x)),
            K::And(v) => {
                let s: Vec<String> = v.iter().map(|x| self.boolean(*x)).collect();
                format!("(and {})", s.join(" "))
            }
        };
        let _ = writeln!(self.out, "(define-fun n{e} () {sort} {body})");
    }
}

pub fn reachable(cx: &Cx, roots: &[E]) -> Vec<E> {
    let mut seen: HashSet<E> = HashSet::new();
    let mut st: Vec<E> = roots.to_vec();
    let mut v = vec![];
    while let Some(e) = st.pop() {
        if !seen.insert(e) {
            continue;
        }
        v.push(e);
        st.extend(cx.children(e));
    }
    // children always have smaller ids
    v.sort();
    v
}

/// the inputs a term depends on, copies included
pub fn vars_of(cx: &Cx, e: E) -> Vec<u32> {
    let mut v = vec![];
    for x in reachable(cx, &[e]) {
        if let K::Var(i) = cx.k[x as usize] {
            v.push(i);
            v.extend(cx.twins.get(&i));
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

fn bits(v: u128) -> u32 {
    128 - v.leading_zeros()
}

/// script asserting OR over `dnf` of AND over literals
pub fn script(cx: &Cx, dnf: &[Vec<E>], mode: Mode, model: bool) -> Option<Script> {
    let mut roots: Vec<E> = dnf.iter().flatten().copied().collect();
    roots.sort();
    roots.dedup();
    let mut nodes = reachable(cx, &roots);
    let used: Vec<u32> = nodes
        .iter()
        .filter_map(|&e| if let K::Var(i) = cx.k[e as usize] { Some(i) } else { None })
        .collect();
    let mut same = vec![];
    for &i in &used {
        if let Some(&j) = cx.twins.get(&i) {
            if !used.contains(&j) {
                nodes.push(cx.var_e(j).unwrap());
            }
            if i < j || !used.contains(&j) {
                same.push((i, j));
            }
        }
    }
    nodes.sort_unstable();
    let mut w = 2;
    for &e in &nodes {
        w = w.max(bits(cx.hi(e)));
        match &cx.k[e as usize] {
            K::Mod2(m, ..) => w = w.max(*m),
            K::URem(_, m) | K::UDiv(_, m) => w = w.max(bits(*m)),
            K::Bit(op, _, _, _) => {
                if mode == Mode::Int {
                    return None;
                }
                let _ = op;
            }
            _ => {}
        }
    }
    if w > 127 {
        return None;
    }
    let mut em = Em {
        cx,
        mode,
        w,
        out: String::new(),
    };
    let logic = if mode == Mode::Int { "ALL" } else { "QF_BV" };
    let _ = writeln!(em.out, "(set-logic {logic})");
    let mut vars = vec![];
    for &e in &nodes {
        em.define(e);
        if let K::Var(i) = cx.k[e as usize] {
            vars.push(i);
        }
    }
    for (i, j) in same {
        let _ = writeln!(em.out, "(assert (= v{i} v{j}))");
    }
    // what all alternatives share is asserted once; separate assertions help preprocessing
    let mut common: Vec<E> = dnf.first().cloned().unwrap_or_default();
    if dnf.len() > 1 {
        for a in &dnf[1..] {
            let h: HashSet<E> = a.iter().copied().collect();
            common.retain(|e| h.contains(e));
        }
        common.sort_unstable();
        common.dedup();
        for &e in &common {
            let s = em.boolean(e);
            let _ = writeln!(em.out, "(assert {s})");
        }
    }
    let mut alts = vec![];
    for a in dnf {
        let l: Vec<String> = a.iter().filter(|e| common.binary_search(e).is_err()).map(|&e| em.boolean(e)).collect();
        alts.push(match l.len() {
            0 => "true".to_string(),
            1 => l[0].clone(),
            _ => format!("(and {})", l.join(" ")),
        });
    }
    if alts.len() == 1 {
        for &e in &dnf[0] {
            let s = em.boolean(e);
            let _ = writeln!(em.out, "(assert {s})");
        }
    } else {
        let _ = writeln!(em.out, "(assert (or {}))", if alts.is_empty() { "false".into() } else { alts.join(" ") });
    }
    let _ = writeln!(em.out, "(check-sat)");
    if model && !vars.is_empty() {
        let vs: Vec<String> = vars.iter().map(|i| format!("v{i}")).collect();
        let _ = writeln!(em.out, "(get-value ({}))", vs.join(" "));
    }
    Some(Script { text: em.out, vars })
}

struct Job {
    name: String,
    child: Child,
    rx: std::sync::mpsc::Receiver<String>,
}

fn spawn(name: &str, text: &str, secs: f64) -> Result<Job, String> {
    let s = secs.ceil().max(1.0) as u64;
    let (bin, args): (&str, Vec<String>) = match name.split('/').next().unwrap() {
        "z3" => ("z3", vec!["-in".into(), format!("-T:{s}")]),
        "z3-new" => ("z3-new", vec!["-in".into(), format!("-T:{s}")]),
        "cvc5" => (
            "cvc5",
            vec!["--lang=smt2".into(), format!("--tlimit={}", s * 1000), "--produce-models".into(), "-q".into()],
        ),
        x => return Err(format!("unknown solver {x}")),
    };
    let mut child = Command::new(bin)
        .args(&args)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| format!("{bin}: {e}"))?;
    let mut inp = child.stdin.take().unwrap();
    let t = text.to_string();
    std::thread::spawn(move || {
        let _ = inp.write_all(t.as_bytes());
    });
    let mut out = child.stdout.take().unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut s = String::new();
        let _ = out.read_to_string(&mut s);
        let _ = tx.send(s);
    });
    Ok(Job {
        name: name.to_string(),
        child,
        rx,
    })
}

fn parse_answer(s: &str, cx: &Cx) -> Res {
    let first = s.lines().next().unwrap_or("").trim();
    match first {
        "unsat" => {
            // get-value after unsat is an expected error
            Res::Unsat
        }
        "sat" => {
            let mut m: Vec<u128> = cx.vars.iter().map(|v| v.lo).collect();
            let rest = &s[s.find("sat").unwrap() + 3..];
            if rest.contains("(error") {
                return Res::Unknown(format!("solver error: {}", rest.trim()));
            }
            let toks: Vec<String> = rest
                .replace('(', " ( ")
                .replace(')', " ) ")
                .split_whitespace()
                .map(|x| x.to_string())
                .collect();
            let mut i = 0;
            while i < toks.len() {
                if toks[i].starts_with('v') && toks[i][1..].parse::<usize>().is_ok() {
                    let id: usize = toks[i][1..].parse().unwrap();
                    let t = &toks[i + 1];
                    let v = if let Some(h) = t.strip_prefix("#x") {
                        u128::from_str_radix(h, 16).unwrap_or(0)
                    } else if let Some(h) = t.strip_prefix("#b") {
                        u128::from_str_radix(h, 2).unwrap_or(0)
                    } else if t == "true" {
                        1
                    } else if t == "false" {
                        0
                    } else if t == "(" && toks.get(i + 2).map(|x| x == "_").unwrap_or(false) {
                        toks[i + 3].trim_start_matches("bv").parse().unwrap_or(0)
                    } else {
                        t.parse().unwrap_or(0)
                    };
                    if id < m.len() {
                        m[id] = v;
                    }
                }
                i += 1;
            }
            Res::Sat(m)
        }
        x => Res::Unknown(if x.is_empty() { "no answer".into() } else { x.chars().take(200).collect() }),
    }
}

impl Solver {
    pub fn new(timeout: f64) -> Solver {
        Solver {
            stats: SolverStats::default(),
            timeout,
            dump: None,
            cross: false,
        }
    }
    pub fn check(&mut self, cx: &Cx, dnf: &[Vec<E>], model: bool) -> Result<Res, String> {
        // decided without a solver?
        let mut d: Vec<Vec<E>> = vec![];
        for a in dnf {
            if a.iter().any(|&e| e == 0) {
                continue;
            }
            d.push(a.iter().copied().filter(|&e| e != 1).collect());
        }
        if d.is_empty() {
            d.push(vec![0]);
        }
        let bv = script(cx, &d, Mode::Bv, model);
        let int = script(cx, &d, Mode::Int, model);
        if let Some(p) = &self.dump {
            if let Some(b) = &bv {
                let _ = std::fs::write(format!("{p}.{}.smt2", self.stats.queries), &b.text);
            }
        }
        let mut plan: Vec<(&str, &Script, f64)> = vec![];
        if let Some(b) = &bv {
            plan.push(("z3-new/bv", b, 0.0));
            plan.push(("z3/bv", b, 1.5));
            plan.push(("cvc5/bv", b, 3.0));
        }
        if let Some(i) = &int {
            plan.push(("z3-new/int", i, if bv.is_some() { 1.0 } else { 0.0 }));
            plan.push(("cvc5/int", i, 5.0));
        }
        if plan.is_empty() {
            return Ok(Res::Unknown("no encoding".into()));
        }
        let r = self.race(cx, &plan)?;
        if self.cross {
            if let (Res::Unsat, by) = (&r.0, &r.1) {
                let second: Vec<(&str, &Script, f64)> = plan
                    .iter()
                    .filter(|p| p.0.starts_with("cvc5") != by.starts_with("cvc5"))
                    .map(|p| (p.0, p.1, 0.0))
                    .collect();
                if !second.is_empty() {
                    let q = self.race(cx, &second)?;
                    if let Res::Sat(m) = q.0 {
                        return Err(format!("solvers disagree: {by} unsat, {} sat {m:?}", q.1));
                    }
                }
            }
        }
        Ok(r.0)
    }
    pub fn raw(&mut self, text: &str) -> Result<Res, String> {
        let cx = Cx::new();
        let s = Script {
            text: text.to_string(),
            vars: vec![],
        };
        let plan = vec![("z3-new/bv", &s, 0.0), ("cvc5/bv", &s, 20.0)];
        Ok(self.race(&cx, &plan)?.0)
    }
    fn race(&mut self, cx: &Cx, plan: &[(&str, &Script, f64)]) -> Result<(Res, String), String> {
        let t0 = Instant::now();
        self.stats.queries += 1;
        self.stats.biggest = self.stats.biggest.max(plan[0].1.text.len());
        let mut jobs: Vec<Job> = vec![];
        let mut next = 0;
        let mut why = String::new();
        let mut ans: Option<(Res, String)> = None;
        loop {
            let el = t0.elapsed().as_secs_f64();
            while next < plan.len() && (plan[next].2 <= el || jobs.is_empty()) {
                let (n, s, _) = &plan[next];
                jobs.push(spawn(n, &s.text, self.timeout - el)?);
                next += 1;
            }
            let mut i = 0;
            while i < jobs.len() {
                match jobs[i].rx.try_recv() {
                    Ok(s) => {
                        let mut j = jobs.swap_remove(i);
                        let _ = j.child.wait();
                        let r = parse_answer(&s, cx);
                        match r {
                            Res::Unknown(x) => {
                                let _ = write!(why, "{}: {x}; ", j.name);
                            }
                            r => {
                                ans = Some((r, j.name.clone()));
                                break;
                            }
                        }
                    }
                    Err(std::sync::mpsc::TryRecvError::Empty) => i += 1,
                    Err(_) => {
                        let mut j = jobs.swap_remove(i);
                        let _ = j.child.kill();
                        let _ = j.child.wait();
                    }
                }
            }
            if ans.is_some() {
                break;
            }
            if t0.elapsed().as_secs_f64() > self.timeout || (jobs.is_empty() && next >= plan.len()) {
                break;
            }
            let e = t0.elapsed().as_millis();
            std::thread::sleep(Duration::from_micros(if e < 50 { 500 } else { 5000 }));
        }
        for j in jobs.iter_mut() {
            let _ = j.child.kill();
            let _ = j.child.wait();
        }
        let ms = t0.elapsed().as_secs_f64() * 1000.0;
        self.stats.ms += ms;
        self.stats.max_ms = self.stats.max_ms.max(ms);
        let (r, by) = ans.unwrap_or((Res::Unknown(if why.is_empty() { "timeout".into() } else { why }), "none".into()));
        match &r {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown(_) => self.stats.unknown += 1,
        }
        *self.stats.by.entry(by.clone()).or_default() += 1;
        Ok((r, by))
    }
}

// ------------------------------------------------------------ lemma certification
/// SMT script whose unsatisfiability certifies every tabulated rewrite used:
/// each entry (op, argument tables, result table) is checked on the whole domain.
pub fn lemma_script(cx: &Cx, log: &HashMap<(String, Vec<T>, T), ()>) -> (String, usize, usize) {
    let mut s = String::from("(set-logic ALL)\n");
    let mut n = 0;
    let mut skipped = 0;
    let mut ors = vec![];
    let mut keys: Vec<_> = log.keys().collect();
    keys.sort();
    for (name, ts, o) in keys {
        let tv: Vec<&[u128]> = ts.iter().map(|&t| &cx.tabs[t as usize][..]).collect();
        let ov = &cx.tabs[*o as usize];
        let len = ov.len();
        let f: Box<dyn Fn(&[String]) -> String> = match op_smt(name) {
            Some(f) => f,
            None => {
                skipped += 1;
                continue;
            }
        };
        let w = 128;
        let x = format!("x{n}");
        let _ = writeln!(s, "(declare-const {x} (_ BitVec 12))");
        let enc = |t: &[u128]| -> String { table12(t, &x, 0, w) };
        let args: Vec<String> = tv.iter().map(|t| enc(t)).collect();
        let r = f(&args);
        let _ = writeln!(
            s,
            "(define-fun l{n} () Bool (and (bvult {x} (_ bv{len} 12)) (not (= {r} {}))))",
            enc(ov)
        );
        ors.push(format!("l{n}"));
        n += 1;
    }
    let _ = writeln!(s, "(assert (or false {}))\n(check-sat)", ors.join(" "));
    (s, n, skipped)
}

fn table12(t: &[u128], x: &str, off: usize, w: u32) -> String {
    // constant or affine piece
    if t.iter().all(|v| *v == t[0]) {
        return format!("(_ bv{} {w})", t[0]);
    }
    if t.windows(2).all(|p| p[1] == p[0].wrapping_add(1)) {
        return format!(
            "(bvadd ((_ zero_extend {}) {x}) (_ bv{} {w}))",
            w - 12,
            t[0].wrapping_sub(off as u128)
        );
    }
    let h = t.len() / 2;
    format!(
        "(ite (bvult {x} (_ bv{} 12)) {} {})",
        off + h,
        table12(&t[..h], x, off, w),
        table12(&t[h..], x, off + h, w)
    )
}

fn op_smt(name: &str) -> Option<Box<dyn Fn(&[String]) -> String>> {
    let b = |c: String| format!("(ite {c} (_ bv1 128) (_ bv0 128))");
    Some(match name {
        "eq" => Box::new(move |a| b(format!("(= {} {})", a[0], a[1]))),
        "ult" => Box::new(move |a| b(format!("(bvult {} {})", a[0], a[1]))),
        _ => return None,
    })
}

pub fn certify(
    s: &mut Solver,
    cx: &Cx,
    log: &HashMap<(String, Vec<T>, T), ()>,
    secs: f64,
) -> (usize, usize, String) {
    let (text, n, skipped) = lemma_script(cx, log);
    if n == 0 {
        return (0, skipped, "none".into());
    }
    let old = s.timeout;
    s.timeout = secs;
    let r = s.raw(&text);
    s.timeout = old;
    let st = match r {
        Ok(Res::Unsat) => "certified",
        Ok(Res::Sat(_)) => "refuted",
        _ => "undecided",
    };
    (n, skipped, st.into())
}
