//! Symbolic executor with state merging.

use crate::expr::*;
use crate::ir::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    U,
    E(E),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Cell {
    pub e: E, // UNDEF = u32::MAX
    pub i: u8,
    pub n: u8,
}
const UNDEF: E = u32::MAX;
const UC: Cell = Cell {
    e: UNDEF,
    i: 0,
    n: 1,
};

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub cells: Vec<Cell>,
    pub ro: bool,
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub block: u32,
    pub ip: u32,
    pub regs: Rc<Vec<V>>,
    pub loops: Vec<(u32, u32)>,
    pub allocas: Vec<u64>,
    pub sp: u64,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub objs: Rc<BTreeMap<u64, Rc<Obj>>>,
    pub dom: Rc<BTreeMap<E, T>>,
    pub conds: Rc<Vec<E>>, // sorted
    pub sp: u64,
    /// variables of the vp_any calls so far, in order
    pub inputs: Rc<Vec<u32>>,
    pub outs: Rc<Vec<(u32, E)>>,
    pub outs_ok: bool,
    /// just forked: must execute its next instruction before merging
    pub solo: bool,
    /// values of the vp_split calls on the way here
    pub tags: Rc<Vec<u32>>,
}

pub struct Obl {
    pub what: String,
    pub inputs: Rc<Vec<u32>>,
    pub dom: Rc<BTreeMap<E, T>>,
    pub conds: Rc<Vec<E>>,
    /// must hold under dom/conds
    pub cond: E,
}

pub struct Fin {
    pub inputs: Rc<Vec<u32>>,
    pub dom: Rc<BTreeMap<E, T>>,
    pub conds: Rc<Vec<E>>,
    pub outs: Rc<Vec<(u32, E)>>,
    pub outs_ok: bool,
}

pub type R<X> = Result<X, String>;

pub struct Limits {
    pub steps: u64,
    pub secs: f64,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub steps: u64,
    pub forks: u64,
    pub merges: u64,
    pub refused_merges: u64,
    pub checks: u64,
    pub checks_trivial: u64,
    pub checks_const: u64,
    pub branch_queries: u64,
    pub max_states: u64,
}

pub struct Engine {
    pub m: Module,
    pub cx: Cx,
    pub obls: Vec<Obl>,
    pub fins: Vec<Fin>,
    pub reach: BTreeMap<String, Vec<(Rc<BTreeMap<E, T>>, Rc<Vec<E>>, Rc<Vec<u32>>)>>,
    gobjs: HashMap<usize, Rc<Obj>>,
    pub stats: Stats,
    pub lim: Limits,
    pub t0: std::time::Instant,
    pub used_dbg: BTreeSet<u32>,
    pub used_funcs: BTreeSet<Rc<str>>,
    noreturn: HashMap<Rc<str>, bool>,
    nr_groups: BTreeSet<u32>,
    pub solver: crate::smt::Solver,
    bq: HashMap<(Vec<E>, Vec<(E, T)>), bool>,
    enumerated: HashMap<(E, Vec<E>, Vec<(E, T)>), Option<Vec<u128>>>,
    sup: HashMap<E, Rc<[u32]>>,
    trace: bool,
    trace_refuse: bool,
    /// vp_twin gives copies
    pub twin: bool,
    pub sensitive: bool,
    queue: BTreeMap<Vec<u32>, Vec<State>>,
    nstates: u64,
}

enum Next {
    Go,
    Done,
    Fork(Vec<State>),
}

const STACK0: u64 = 0x7000_0000_0000;
const HEAP0: u64 = 0x2000_0000_0000;

impl Engine {
    pub fn new(m: Module, solver: crate::smt::Solver, lim: Limits) -> Engine {
        let mut nr = BTreeSet::new();
        for l in m.lines.iter().rev() {
            if l.starts_with('!') || l.is_empty() {
                continue;
            }
            if !l.starts_with("attributes #") {
                break;
            }
            let id: u32 = l[12..].split(' ').next().unwrap().parse().unwrap_or(u32::MAX);
            if l.contains(" noreturn") {
                nr.insert(id);
            }
        }
        if nr.is_empty() {
            for l in m.lines.iter() {
                if l.starts_with("attributes #") && l.contains(" noreturn") {
                    let id: u32 = l[12..].split(' ').next().unwrap().parse().unwrap_or(u32::MAX);
                    nr.insert(id);
                }
            }
        }
        Engine {
            m,
            cx: Cx::new(),
            obls: vec![],
            fins: vec![],
            reach: BTreeMap::new(),
            gobjs: HashMap::new(),
            stats: Stats::default(),
            lim,
            t0: std::time::Instant::now(),
            used_dbg: BTreeSet::new(),
            used_funcs: BTreeSet::new(),
            noreturn: HashMap::new(),
            nr_groups: nr,
            solver,
            bq: HashMap::new(),
            enumerated: HashMap::new(),
            sup: HashMap::new(),
            twin: true,
            trace_refuse: std::env::var("SYMX_REFUSE").is_ok(),
            trace: std::env::var("SYMX_TRACE").is_ok(),
            sensitive: true,
            queue: BTreeMap::new(),
            nstates: 0,
        }
    }

    fn is_noreturn(&mut self, n: &Rc<str>) -> bool {
        if let Some(&b) = self.noreturn.get(n) {
            return b;
        }
        let b = match self.m.funcs.get(n) {
            Some(&l) => {
                let s = &self.m.lines[l];
                match s.rfind(") ") {
                    Some(k) => s[k..].split_whitespace().any(|w| {
                        w.strip_prefix('#')
                            .and_then(|x| x.parse::<u32>().ok())
                            .map_or(false, |id| self.nr_groups.contains(&id))
                    }),
                    None => false,
                }
            }
            None => n.as_ref() == "abort" || n.contains("panicking") || n.as_ref() == "exit",
        };
        self.noreturn.insert(n.clone(), b);
        b
    }

    // ------------------------------------------------------------ path condition
    pub fn simp(&mut self, s: &State, e: E) -> E {
        match self.cx.k[e as usize] {
            K::C(_) => e,
            K::Tab(b, t) => match s.dom.get(&b) {
                None => e,
                Some(&m) => {
                    if (!self.cx.is_bool(e) || self.cx.is_bool(b)) && self.cx.identity_on(b, t, m) {
                        return self.single(b, m).unwrap_or(b);
                    }
                    let r = self.cx.restrict_tab(t, m);
                    if r == t {
                        e
                    } else {
                        let v = self.cx.tabs[r as usize].to_vec();
                        self.cx.mk_tab(b, v)
                    }
                }
            },
            K::Var(_) => match s.dom.get(&e) {
                None => e,
                Some(&m) => self.single(e, m).unwrap_or(e),
            },
            _ => {
                if let Some(&m) = s.dom.get(&e) {
                    if let Some(r) = self.single(e, m) {
                        return r;
                    }
                }
                self.simp_slow(s, e)
            }
        }
    }
    /// For values of one input: substitute constants only.  A table restricted to
    /// the part of its base still possible would be a different term on every path.
    fn simp_val(&mut self, s: &State, e: E) -> E {
        let r = self.simp(s, e);
        if r == e || self.cx.is_bool(e) || self.cx.konst(r).is_some() {
            return r;
        }
        match self.cx.k[e as usize] {
            K::Tab(b, _) if r != b => e,
            _ => r,
        }
    }
    fn single(&mut self, b: E, m: T) -> Option<E> {
        let mv = self.cx.tabs[m as usize].clone();
        let mut it = mv.iter().enumerate().filter(|x| *x.1 != 0);
        let f = it.next()?;
        if it.next().is_some() {
            return None;
        }
        let v = self.cx.lo(b) + f.0 as u128;
        Some(self.cx.c(v))
    }
    fn has(&mut self, s: &State, e: E) -> bool {
        if s.conds.is_empty() {
            return false;
        }
        if s.conds.binary_search(&e).is_ok() {
            return true;
        }
        let t = self.cx.twin(e, false);
        t != e && s.conds.binary_search(&t).is_ok()
    }
    fn simp_slow(&mut self, s: &State, e: E) -> E {
        match self.cx.k[e as usize].clone() {
            K::Not(x) => {
                let y = self.simp(s, x);
                if y == x {
                    if self.has(s, e) {
                        return 1;
                    }
                    e
                } else {
                    self.cx.not(y)
                }
            }
            K::And(v) => {
                if self.has(s, e) {
                    return 1;
                }
                if v.len() > 64 {
                    return e;
                }
                let ne = self.cx.not(e);
                if self.has(s, ne) {
                    return 0;
                }
                let mut out = vec![];
                let mut ch = false;
                for &x in v.iter() {
                    let y = self.simp(s, x);
                    if y == 0 {
                        return 0;
                    }
                    if y != x {
                        ch = true;
                    }
                    if y != 1 {
                        out.push(y);
                    }
                }
                if ch {
                    self.cx.band(&out)
                } else {
                    e
                }
            }
            K::Eq(a, b) | K::Ult(a, b) => {
                if self.has(s, e) {
                    return 1;
                }
                let ne = self.cx.not(e);
                if self.has(s, ne) {
                    return 0;
                }
                let x = self.simp(s, a);
                let y = self.simp(s, b);
                if x != a || y != b {
                    let r = if let K::Eq(..) = self.cx.k[e as usize] {
                        self.cx.eq(x, y)
                    } else {
                        self.cx.ult(x, y)
                    };
                    return r;
                }
                e
            }
            K::Ite(c, a, b) => {
                let x = self.simp(s, c);
                match self.cx.konst(x) {
                    Some(1) => self.simp(s, a),
                    Some(_) => self.simp(s, b),
                    None => {
                        if x != c {
                            self.cx.ite(x, a, b)
                        } else {
                            e
                        }
                    }
                }
            }
            _ => e,
        }
    }
    /// false if the state becomes (obviously) infeasible
    pub fn assume(&mut self, s: &mut State, c: E) -> bool {
        let c = self.simp(s, c);
        match self.cx.k[c as usize].clone() {
            K::C(v) => v != 0,
            K::And(v) => {
                for &x in v.iter() {
                    if !self.assume(s, x) {
                        return false;
                    }
                }
                true
            }
            K::Tab(b, t) => {
                let tv = self.cx.tabs[t as usize].clone();
                self.mask_dom(s, b, &tv)
            }
            K::Var(_) => {
                let v = [0u128, 1];
                self.mask_dom(s, c, &v)
            }
            _ => {
                let nc = self.cx.not(c);
                if self.has(s, nc) {
                    return false;
                }
                if let Err(i) = s.conds.binary_search(&c) {
                    Rc::make_mut(&mut s.conds).insert(i, c);
                }
                true
            }
        }
    }
    fn mask_dom(&mut self, s: &mut State, b: E, tv: &[u128]) -> bool {
        let t = self.cx.twin(b, false);
        // what is known of an input is known of its copy
        (t == b || self.mask_dom1(s, t, tv)) && self.mask_dom1(s, b, tv)
    }
    fn mask_dom1(&mut self, s: &mut State, b: E, tv: &[u128]) -> bool {
        let nv: Vec<u128> = match s.dom.get(&b) {
            None => tv.iter().map(|&x| (x != 0) as u128).collect(),
            Some(&m) => {
                let mv = &self.cx.tabs[m as usize];
                tv.iter()
                    .zip(mv.iter())
                    .map(|(&x, &y)| (x != 0 && y != 0) as u128)
                    .collect()
            }
        };
        if nv.iter().all(|&x| x == 0) {
            return false;
        }
        if nv.iter().all(|&x| x == 1) {
            return true;
        }
        let t = self.cx.tab(nv);
        if s.dom.get(&b) != Some(&t) {
            Rc::make_mut(&mut s.dom).insert(b, t);
        }
        true
    }
    fn multi(&self, c: E) -> bool {
        !matches!(self.cx.k[c as usize], K::C(_) | K::Tab(..) | K::Var(_))
    }
    /// input variables of an expression
    fn support(&mut self, e: E) -> Rc<[u32]> {
        if let Some(r) = self.sup.get(&e) {
            return r.clone();
        }
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if self.sup.contains_key(&x) {
                st.pop();
                continue;
            }
            let ch = self.cx.children(x);
            let todo: Vec<E> = ch.iter().copied().filter(|c| !self.sup.contains_key(c)).collect();
            if !todo.is_empty() {
                st.extend(todo);
                continue;
            }
            let mut v: Vec<u32> = vec![];
            if let K::Var(i) = self.cx.k[x as usize] {
                let j = self.cx.twins.get(&i).copied().unwrap_or(i);
                v.push(i.min(j));
            }
            for c in ch {
                v.extend_from_slice(&self.sup[&c]);
            }
            v.sort_unstable();
            v.dedup();
            self.sup.insert(x, v.into());
            st.pop();
        }
        self.sup[&e].clone()
    }
    /// ask the solver whether the path condition, to which `c` was added last,
    /// is satisfiable: the part of it connected with `c` through variables
    fn feasible(&mut self, s: &State, c: E) -> R<bool> {
        if s.conds.is_empty() {
            return Ok(true);
        }
        let vars: std::collections::HashSet<u32> = self.support(c).iter().copied().collect();
        let (conds, dom) = self.reaching(s, vars);
        if conds.is_empty() {
            return Ok(true);
        }
        let key = (
            conds.clone(),
            dom.iter().map(|(a, b)| (*a, *b)).collect::<Vec<_>>(),
        );
        if let Some(&b) = self.bq.get(&key) {
            return Ok(b);
        }
        let lits = self.pc_lits(&dom, &conds);
        self.stats.branch_queries += 1;
        let r = self.solver.check(&self.cx, &[lits], false)?;
        let b = match r {
            crate::smt::Res::Sat(_) => true,
            crate::smt::Res::Unsat => false,
            crate::smt::Res::Unknown(_) => true, // explore: sound for proving
        };
        self.bq.insert(key, b);
        Ok(b)
    }
    pub fn pc_lits(&mut self, dom: &BTreeMap<E, T>, conds: &[E]) -> Vec<E> {
        let mut v: Vec<E> = conds.to_vec();
        for (&b, &t) in dom.iter() {
            let tv = self.cx.tabs[t as usize].to_vec();
            v.push(self.cx.mk_tab(b, tv));
        }
        v
    }

    // ------------------------------------------------------------ scheduling key
    fn key(s: &State) -> Vec<u32> {
        let mut k = Vec::with_capacity(s.frames.len() * 8 + s.tags.len() + 1);
        k.push(s.tags.len() as u32);
        k.extend_from_slice(&s.tags);
        k.push(s.inputs.len() as u32);
        k.push(s.inputs.last().copied().unwrap_or(0));
        for f in &s.frames {
            k.push(f.f.id);
            for &(p, i) in &f.loops {
                k.push(p);
                k.push(i);
            }
            k.push(f.f.blocks[f.block as usize].pos);
            k.push(f.ip);
        }
        k
    }

    fn set_loops(fr: &mut Frame, target: u32) {
        let b = &fr.f.blocks[target as usize];
        let mut nl: Vec<(u32, u32)> = Vec::with_capacity(b.loops.len());
        let mut inside = true;
        for (d, &h) in b.loops.iter().enumerate() {
            let last = d + 1 == b.loops.len();
            if inside && d < fr.loops.len() && fr.loops[d].0 == h {
                let it = fr.loops[d].1;
                if last && b.is_header {
                    nl.push((h, it + 1));
                } else {
                    nl.push((h, it));
                }
            } else {
                inside = false;
                nl.push((h, 0));
            }
        }
        fr.loops = nl;
    }

    fn goto(&mut self, s: &mut State, target: u32) -> R<()> {
        let fr = s.frames.last().unwrap();
        let from = fr.block;
        let f = fr.f.clone();
        let b = &f.blocks[target as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for p in &b.phis {
                let o = p
                    .inc
                    .iter()
                    .find(|x| x.0 == from)
                    .ok_or_else(|| format!("phi without predecessor in {}", f.name))?;
                let v = self.op(s, &o.1);
                vals.push((p.dst, v));
            }
            let fr = s.frames.last_mut().unwrap();
            let regs = Rc::make_mut(&mut fr.regs);
            for (d, v) in vals {
                regs[d as usize] = v;
            }
        }
        let fr = s.frames.last_mut().unwrap();
        Self::set_loops(fr, target);
        fr.block = target;
        fr.ip = 0;
        Ok(())
    }

    // ------------------------------------------------------------ values
    fn cv(&mut self, c: &CV) -> V {
        match c {
            CV::Int(v) => V::E(self.cx.c(*v)),
            CV::Undef => V::U,
            CV::Agg(v) => V::A(Rc::new(v.iter().map(|x| self.cv(x)).collect())),
        }
    }
    fn op(&mut self, s: &State, o: &Op) -> V {
        match o {
            Op::Reg(r) => {
                let v = s.frames.last().unwrap().regs[*r as usize].clone();
                match v {
                    V::E(e) => V::E(self.simp_val(s, e)),
                    v => v,
                }
            }
            Op::C(c) => self.cv(c),
        }
    }
    fn ope(&mut self, s: &State, o: &Op, what: &str) -> R<E> {
        match self.op(s, o) {
            V::E(e) => Ok(e),
            V::U => Err(format!("undef operand in {what}")),
            V::A(_) => Err(format!("aggregate operand in {what}")),
        }
    }
    fn setr(s: &mut State, r: u32, v: V) {
        let fr = s.frames.last_mut().unwrap();
        Rc::make_mut(&mut fr.regs)[r as usize] = v;
    }
    fn vite(&mut self, c: E, a: &V, b: &V) -> R<V> {
        Ok(match (a, b) {
            (V::U, x) | (x, V::U) => x.clone(),
            (V::E(x), V::E(y)) => V::E(self.cx.ite(c, *x, *y)),
            (V::A(x), V::A(y)) if x.len() == y.len() => {
                let mut o = vec![];
                for i in 0..x.len() {
                    o.push(self.vite(c, &x[i], &y[i])?);
                }
                V::A(Rc::new(o))
            }
            _ => return Err("ite of aggregate and scalar".into()),
        })
    }

    // ------------------------------------------------------------ memory
    fn gobj(&mut self, gi: usize) -> R<Rc<Obj>> {
        if let Some(o) = self.gobjs.get(&gi) {
            return Ok(o.clone());
        }
        let init = self.m.global_init(gi)?;
        let mut cells = Vec::with_capacity(init.len());
        for b in init {
            match b {
                InitByte::B(x) => cells.push(Cell {
                    e: self.cx.c(x as u128),
                    i: 0,
                    n: 1,
                }),
                InitByte::U => cells.push(UC),
            }
        }
        let g = &self.m.gdefs[gi];
        let o = Rc::new(Obj {
            base: g.addr,
            cells,
            ro: g.constant,
        });
        self.gobjs.insert(gi, o.clone());
        Ok(o)
    }
    fn find(&mut self, s: &State, addr: u64, n: u64) -> R<Option<Rc<Obj>>> {
        if let Some((b, o)) = s.objs.range(..=addr).next_back() {
            if addr.saturating_add(n) <= b + o.cells.len() as u64 {
                return Ok(Some(o.clone()));
            }
        }
        if let Some(gi) = self.m.global_at(addr) {
            let o = self.gobj(gi)?;
            if addr.saturating_add(n) <= o.base + o.cells.len() as u64 {
                return Ok(Some(o));
            }
        }
        Ok(None)
    }
    fn find_mut<'a>(&mut self, s: &'a mut State, addr: u64, n: u64) -> R<Option<&'a mut Obj>> {
        let mut hit = None;
        if let Some((b, o)) = s.objs.range(..=addr).next_back() {
            if addr.saturating_add(n) <= b + o.cells.len() as u64 {
                hit = Some(*b);
            }
        }
        if hit.is_none() {
            if let Some(gi) = self.m.global_at(addr) {
                let o = self.gobj(gi)?;
                if !o.ro && addr.saturating_add(n) <= o.base + o.cells.len() as u64 {
                    Rc::make_mut(&mut s.objs).insert(o.base, o.clone());
                    hit = Some(o.base);
                }
            }
        }
        match hit {
            None => Ok(None),
            Some(b) => {
                let o = Rc::make_mut(&mut s.objs).get_mut(&b).unwrap();
                if o.ro {
                    return Ok(None);
                }
                Ok(Some(Rc::make_mut(o)))
            }
        }
    }
    fn cell_byte(&mut self, c: Cell) -> E {
        if c.n == 1 {
            c.e
        } else {
            self.cx.byte(c.e, c.i)
        }
    }
    fn read_cells(&mut self, cells: &[Cell], bits: u32) -> R<V> {
        let n = cells.len();
        if cells.iter().any(|c| c.e == UNDEF) {
            return Ok(V::U);
        }
        let c0 = cells[0];
        if c0.n as usize == n
            && cells
                .iter()
                .enumerate()
                .all(|(k, c)| c.e == c0.e && c.i as usize == k && c.n == c0.n)
        {
            let e = c0.e;
            return Ok(V::E(if (bits as usize) < 8 * n {
                self.cx.trunc(e, bits)
            } else {
                e
            }));
        }
        let mut acc: E = 0;
        let mut k = 0;
        while k < n {
            // run of consecutive bytes of one expression
            let c = cells[k];
            let mut len = 1;
            while k + len < n
                && cells[k + len].e == c.e
                && cells[k + len].n == c.n
                && cells[k + len].i as usize == c.i as usize + len
            {
                len += 1;
            }
            let v = if c.n == 1 {
                c.e
            } else {
                let x = self.cx.udivk(c.e, 1u128 << (8 * c.i as u32));
                if c.i as usize + len < c.n as usize {
                    self.cx.trunc(x, 8 * len as u32)
                } else {
                    x
                }
            };
            let sh = self.cx.c(8 * k as u128);
            let w = (8 * n as u32).max(bits);
            let v = self.cx.shl(w, v, sh).ok_or("shl in load")?;
            acc = self.cx.add(w, acc, v).ok_or("add in load")?;
            k += len;
        }
        Ok(V::E(if bits as usize != 8 * n {
            self.cx.trunc(acc, bits)
        } else {
            acc
        }))
    }
    fn load_at(&mut self, o: &Obj, off: usize, t: &TyR) -> R<V> {
        match &**t {
            Ty::Arr(n, et) => {
                let mut v = vec![];
                for i in 0..*n as usize {
                    v.push(self.load_at(o, off + i * et.alloc() as usize, et)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Vec(n, et) => {
                let mut v = vec![];
                if **et == Ty::Int(1) {
                    return Err("load of i1 vector".into());
                }
                for i in 0..*n as usize {
                    v.push(self.load_at(o, off + i * et.size() as usize, et)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Struct(fs, _) => {
                let mut v = vec![];
                for i in 0..fs.len() {
                    let (fo, ft) = t.field_off(i);
                    v.push(self.load_at(o, off + fo as usize, &ft)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => {
                let n = t.size() as usize;
                let cells: Vec<Cell> = o.cells[off..off + n].to_vec();
                self.read_cells(&cells, t.bits())
            }
        }
    }
    fn write_cells(cells: &mut [Cell], v: &V, n: usize) {
        match v {
            V::E(e) => {
                for k in 0..n {
                    cells[k] = Cell {
                        e: *e,
                        i: k as u8,
                        n: n as u8,
                    };
                }
            }
            _ => {
                for k in 0..n {
                    cells[k] = UC;
                }
            }
        }
    }
    fn store_at(o: &mut Obj, off: usize, t: &TyR, v: &V) -> R<()> {
        match (&**t, v) {
            (Ty::Arr(..), V::A(vs)) | (Ty::Vec(..), V::A(vs)) | (Ty::Struct(..), V::A(vs)) => {
                for (i, x) in vs.iter().enumerate() {
                    let (fo, ft) = t.field_off(i);
                    Self::store_at(o, off + fo as usize, &ft, x)?;
                }
                Ok(())
            }
            _ => {
                let n = t.size() as usize;
                Self::write_cells(&mut o.cells[off..off + n], v, n);
                Ok(())
            }
        }
    }

    fn obligation(&mut self, s: &State, what: String, cond: E) {
        self.obls.push(Obl {
            what,
            inputs: s.inputs.clone(),
            dom: s.dom.clone(),
            conds: s.conds.clone(),
            cond,
        });
    }
    fn whereis(&self, s: &State) -> String {
        let mut v: Vec<String> = vec![];
        for f in s.frames.iter().rev() {
            let mut n = demangle(&f.f.name);
            let b = &f.f.blocks[f.block as usize];
            if let Some(i) = b.insts.get((f.ip as usize).min(b.insts.len().saturating_sub(1))) {
                if i.dbg != 0 {
                    if let Some((fun, file, line)) = self.m.dbg_fn(i.dbg) {
                        n = format!("{n} [{fun} {}:{line}]", file.rsplit("/repo/").next().unwrap_or(&file));
                    }
                }
            }
            v.push(n);
        }
        v.join(" < ")
    }

    fn cands0(&mut self, s: &State, e: E, limit: usize) -> Option<Vec<u128>> {
        let dom = s.dom.clone();
        self.cx.values(e, &|b| dom.get(&b).copied(), limit)
    }
    /// the values e may have on this path (maybe more); None: too many
    fn cands(&mut self, s: &State, e: E, limit: usize) -> R<Option<Vec<u128>>> {
        match self.cands0(s, e, limit) {
            Some(v) => Ok(Some(v)),
            None => self.enumerate(s, e, limit.min(64)),
        }
    }
    /// path condition reaching the given variables, directly or not
    fn reaching(&mut self, s: &State, mut vars: std::collections::HashSet<u32>) -> (Vec<E>, BTreeMap<E, T>) {
        let mut rest: Vec<(Rc<[u32]>, E, Option<T>)> = vec![];
        for &e in s.conds.iter() {
            rest.push((self.support(e), e, None));
        }
        for (&e, &t) in s.dom.iter() {
            rest.push((self.support(e), e, Some(t)));
        }
        let mut conds = vec![];
        let mut dom: BTreeMap<E, T> = BTreeMap::new();
        loop {
            let n = rest.len();
            rest.retain(|(v, e, t)| {
                if !v.iter().any(|x| vars.contains(x)) {
                    return true;
                }
                vars.extend(v.iter().copied());
                match t {
                    None => conds.push(*e),
                    Some(t) => {
                        dom.insert(*e, *t);
                    }
                }
                false
            });
            if rest.len() == n {
                break;
            }
        }
        conds.sort_unstable();
        (conds, dom)
    }
    /// the values of e on this path, one solver model after the other
    fn enumerate(&mut self, s: &State, e: E, limit: usize) -> R<Option<Vec<u128>>> {
        let vars: std::collections::HashSet<u32> = self.support(e).iter().copied().collect();
        let (conds, dom) = self.reaching(s, vars);
        let key = (e, conds.clone(), dom.iter().map(|(a, b)| (*a, *b)).collect::<Vec<_>>());
        if let Some(v) = self.enumerated.get(&key) {
            return Ok(v.clone());
        }
        let mut lits = self.pc_lits(&dom, &conds);
        let mut out: Vec<u128> = vec![];
        let r = loop {
            self.stats.branch_queries += 1;
            match self.solver.check(&self.cx, &[lits.clone()], true)? {
                crate::smt::Res::Sat(m) => {
                    let v = self.cx.eval(e, &m, &mut HashMap::new());
                    if out.contains(&v) || out.len() >= limit {
                        break None;
                    }
                    out.push(v);
                    let c = self.cx.c(v);
                    let g = self.cx.eq(e, c);
                    let n = self.cx.not(g);
                    lits.push(n);
                }
                crate::smt::Res::Unsat => {
                    out.sort();
                    break Some(out);
                }
                crate::smt::Res::Unknown(_) => break None,
            }
        };
        self.enumerated.insert(key, r.clone());
        Ok(r)
    }

    /// all (address, guard) an address expression may denote
    fn targets(&mut self, s: &State, a: E) -> R<Vec<(u64, E)>> {
        if let Some(v) = self.cx.konst(a) {
            return Ok(vec![(v as u64, 1)]);
        }
        let vs = self
            .cands(s, a, 4096)?;
        if vs.is_none() && std::env::var("SYMX_DEBUG").is_ok() {
            eprintln!("{}", self.cx.show(a, 6));
        }
        let vs = vs.ok_or_else(|| format!("address with too many values at {}", self.whereis(s)))?;
        let mut out = vec![];
        for v in vs {
            let c = self.cx.c(v);
            let g = self.cx.eq(a, c);
            let g = self.simp(s, g);
            if g != 0 {
                out.push((v as u64, g));
            }
        }
        Ok(out)
    }

    fn load(&mut self, s: &mut State, t: &TyR, a: E) -> R<Option<V>> {
        let n = t.size();
        if let Some(v) = self.cx.konst(a) {
            let v = v as u64;
            return match self.find(s, v, n)? {
                Some(o) => Ok(Some(self.load_at(&o, (v - o.base) as usize, t)?)),
                None => {
                    let w = format!("invalid read of {n} bytes at {v:#x}: {}", self.whereis(s));
                    self.obligation(s, w, 0);
                    Ok(None)
                }
            };
        }
        let ts = self.targets(s, a)?;
        // constant table: keep it as a lookup
        if t.is_scalar() {
            let base = self.cx.base(a);
            let mut vals: Vec<(u64, u128)> = vec![];
            let mut okc = base.is_some();
            if okc {
                for &(v, _) in &ts {
                    match self.find(s, v, n)? {
                        Some(o) => match self.load_at(&o, (v - o.base) as usize, t)? {
                            V::E(e) if self.cx.konst(e).is_some() => {
                                vals.push((v, self.cx.konst(e).unwrap()))
                            }
                            _ => {
                                okc = false;
                                break;
                            }
                        },
                        None => {
                            okc = false;
                            break;
                        }
                    }
                }
            }
            if okc && !vals.is_empty() {
                let mp: HashMap<u64, u128> = vals.iter().copied().collect();
                let dflt = vals[0].1;
                if let Some(r) = self
                    .cx
                    .un("rom", &[a], |v| *mp.get(&(v[0] as u64)).unwrap_or(&dflt))
                {
                    return Ok(Some(V::E(r)));
                }
            }
        }
        let mut acc: Option<V> = None;
        for (v, g) in ts {
            match self.find(s, v, n)? {
                Some(o) => {
                    let x = self.load_at(&o, (v - o.base) as usize, t)?;
                    acc = Some(match acc {
                        None => x,
                        Some(y) => self.vite(g, &x, &y)?,
                    });
                }
                None => {
                    let ng = self.cx.not(g);
                    let w = format!("invalid read of {n} bytes at {v:#x}: {}", self.whereis(s));
                    self.obligation(s, w, ng);
                    if !self.assume(s, ng) {
                        return Ok(None);
                    }
                }
            }
        }
        Ok(acc)
    }
    fn store(&mut self, s: &mut State, t: &TyR, v: &V, a: E) -> R<bool> {
        let n = t.size();
        let ts = self.targets(s, a)?;
        let single = ts.len() == 1;
        for (ad, g) in ts {
            let old = if single {
                None
            } else {
                match self.find(s, ad, n)? {
                    Some(o) => Some(self.load_at(&o, (ad - o.base) as usize, t)?),
                    None => None,
                }
            };
            let nv = match old {
                None => v.clone(),
                Some(o) => self.vite(g, v, &o)?,
            };
            match self.find_mut(s, ad, n)? {
                Some(o) => {
                    let off = (ad - o.base) as usize;
                    Self::store_at(o, off, t, &nv)?;
                }
                None => {
                    let ng = if single { 0 } else { self.cx.not(g) };
                    let w = format!("invalid write of {n} bytes at {ad:#x}: {}", self.whereis(s));
                    self.obligation(s, w, ng);
                    if !self.assume(s, ng) {
                        return Ok(false);
                    }
                }
            }
        }
        Ok(true)
    }
    fn copy(&mut self, s: &mut State, d: u64, src: u64, n: u64) -> R<bool> {
        if n == 0 {
            return Ok(true);
        }
        let cells = match self.find(s, src, n)? {
            Some(o) => {
                let off = (src - o.base) as usize;
                o.cells[off..off + n as usize].to_vec()
            }
            None => {
                let w = format!("invalid copy source {src:#x}+{n}: {}", self.whereis(s));
                self.obligation(s, w, 0);
                return Ok(false);
            }
        };
        match self.find_mut(s, d, n)? {
            Some(o) => {
                let off = (d - o.base) as usize;
                o.cells[off..off + n as usize].copy_from_slice(&cells);
                Ok(true)
            }
            None => {
                let w = format!("invalid copy target {d:#x}+{n}: {}", self.whereis(s));
                self.obligation(s, w, 0);
                Ok(false)
            }
        }
    }
    fn alloc(&mut self, s: &mut State, n: u64, zero: bool) -> u64 {
        // the lowest free slot: paths that keep the same objects alive agree on
        // addresses however they came to allocate them
        let mut a = HEAP0;
        for k in s.objs.range(HEAP0..).map(|x| *x.0) {
            if k >= STACK0 || k != a {
                break;
            }
            a += 1 << 26;
        }
        let c = if zero { Cell { e: 0, i: 0, n: 1 } } else { UC };
        Rc::make_mut(&mut s.objs).insert(
            a,
            Rc::new(Obj {
                base: a,
                cells: vec![c; n as usize],
                ro: false,
            }),
        );
        a
    }

    /// fork the state on the value of `e`
    fn split(&mut self, s: &State, e: E, what: &str) -> R<Vec<State>> {
        let vs = self
            .cands(s, e, 600)?
            .ok_or_else(|| format!("{what} with too many values at {}", self.whereis(s)))?;
        let mut out = vec![];
        for v in vs {
            let c = self.cx.c(v);
            let g = self.cx.eq(e, c);
            let mut t = s.clone();
            t.solo = true;
            if self.assume(&mut t, g) && (!self.multi(g) || self.feasible(&t, g)?) {
                out.push(t);
            }
        }
        self.stats.forks += out.len() as u64;
        Ok(out)
    }
    /// constant value of e, or the states to continue with instead
    fn concrete(&mut self, s: &State, e: E, what: &str) -> R<Result<u128, Vec<State>>> {
        let e = self.simp(s, e);
        if let Some(v) = self.cx.konst(e) {
            return Ok(Ok(v));
        }
        let st = self.split(s, e, what)?;
        // make sure progress is possible: in each branch e must now be known
        let mut out = vec![];
        for mut t in st {
            let x = self.simp(&t, e);
            if self.cx.konst(x).is_none() {
                // pin the registers holding e to the value implied
                let vs = self.cands(&t, e, 600)?.unwrap_or_default();
                let mut val = None;
                for v in vs {
                    let c = self.cx.c(v);
                    let g = self.cx.eq(e, c);
                    let g = self.simp(&t, g);
                    if g == 1 {
                        val = Some(c);
                    }
                }
                let Some(c) = val else {
                    return Err(format!("cannot pin {what} at {}", self.whereis(s)));
                };
                let fr = t.frames.last_mut().unwrap();
                for r in Rc::make_mut(&mut fr.regs).iter_mut() {
                    if let V::E(y) = r {
                        if *y == e {
                            *r = V::E(c);
                        }
                    }
                }
            }
            out.push(t);
        }
        Ok(Err(out))
    }

    // ------------------------------------------------------------ merging
    fn mergeable(&mut self, a: &State, b: &State) -> bool {
        let n = a.frames.len();
        // loop-carried control values of the current function
        let fa = &a.frames[n - 1];
        let fb = &b.frames[n - 1];
        let blk = &fa.f.blocks[fa.block as usize];
        for h in &blk.loops {
            if let Some(rs) = fa.f.ctl.get(h) {
                for &r in rs {
                    if fa.ip == 0 && blk.live_in[r as usize / 64] >> (r % 64) & 1 == 0 {
                        continue;
                    }
                    if let (V::E(x), V::E(y)) = (&fa.regs[r as usize], &fb.regs[r as usize]) {
                        if x != y && self.cx.konst(*x).is_some() && self.cx.konst(*y).is_some() {
                            if self.trace_refuse {
                                eprintln!("refused: r{r} {:?} {:?} at {}", self.cx.konst(*x), self.cx.konst(*y), self.whereis(a));
                            }
                            return false;
                        }
                    }
                }
            }
        }
        // words in stack memory
        if !Rc::ptr_eq(&a.objs, &b.objs) {
            for (k, oa) in a.objs.range(STACK0..) {
                if let Some(ob) = b.objs.get(k) {
                    if Rc::ptr_eq(oa, ob) {
                        continue;
                    }
                    for (ca, cb) in oa.cells.iter().zip(ob.cells.iter()) {
                        if ca != cb
                            && ca.n == 8
                            && cb.n == 8
                            && ca.e != UNDEF
                            && cb.e != UNDEF
                            && ca.e != cb.e
                            && self.cx.konst(ca.e).is_some()
                            && self.cx.konst(cb.e).is_some()
                        {
                            if self.trace_refuse {
                                eprintln!("refused: stack {k:#x} {:?} {:?} at {}", self.cx.konst(ca.e), self.cx.konst(cb.e), self.whereis(a));
                            }
                            return false;
                        }
                    }
                }
            }
        }
        true
    }

    fn merge(&mut self, a: State, b: State) -> R<State> {
        self.stats.merges += 1;
        // path conditions
        let (mut ra, mut rb, mut common) = (vec![], vec![], vec![]);
        for &x in a.conds.iter() {
            if b.conds.binary_search(&x).is_ok() {
                common.push(x)
            } else {
                ra.push(x)
            }
        }
        for &x in b.conds.iter() {
            if a.conds.binary_search(&x).is_err() {
                rb.push(x)
            }
        }
        let mut dom: BTreeMap<E, T> = BTreeMap::new();
        let mut diff: Vec<(E, E, E)> = vec![]; // base, in-mask a, in-mask b
        let mut sep: Option<E> = None;
        let full = |s: &mut Self, b: E| -> Vec<u128> { vec![1; s.cx.width_of_base(b) as usize] };
        if Rc::ptr_eq(&a.dom, &b.dom) {
            dom = (*a.dom).clone();
        } else {
            let keys: BTreeSet<E> = a.dom.keys().chain(b.dom.keys()).copied().collect();
            // inputs before their copies
            let (first, then): (Vec<E>, Vec<E>) = keys.into_iter().partition(|&k| !self.cx.is_copy(k));
            for k in first.into_iter().chain(then) {
                let ta = a.dom.get(&k).copied();
                let tb = b.dom.get(&k).copied();
                if ta == tb {
                    dom.insert(k, ta.unwrap());
                    continue;
                }
                let va = match ta {
                    Some(t) => self.cx.tabs[t as usize].to_vec(),
                    None => full(self, k),
                };
                let vb = match tb {
                    Some(t) => self.cx.tabs[t as usize].to_vec(),
                    None => full(self, k),
                };
                let u: Vec<u128> = va.iter().zip(vb.iter()).map(|(x, y)| x | y).collect();
                let disjoint = va.iter().zip(vb.iter()).all(|(x, y)| x & y == 0);
                if !u.iter().all(|&x| x == 1) {
                    let t = self.cx.tab(u);
                    dom.insert(k, t);
                }
                let tk = self.cx.twin(k, false);
                if tk != k && self.cx.is_copy(k) && diff.iter().any(|d| d.0 == tk) && a.dom.get(&tk) == a.dom.get(&k) && b.dom.get(&tk) == b.dom.get(&k) {
                    // the copy of an input that was just treated
                    continue;
                }
                let ea = self.cx.mk_tab(k, va);
                let eb = self.cx.mk_tab(k, vb);
                if disjoint && sep.is_none() {
                    sep = Some(ea);
                }
                diff.push((k, ea, eb));
            }
        }
        let single = ra.is_empty() && rb.is_empty() && diff.len() == 1;
        let guard;
        let mut extra = None;
        if single {
            guard = diff[0].1;
        } else {
            let mut lit = None;
            for &x in &ra {
                let nx = self.cx.not(x);
                if rb.contains(&nx) {
                    lit = Some((x, nx));
                    break;
                }
            }
            let mut la = ra.clone();
            la.extend(diff.iter().map(|d| d.1));
            let mut lb = rb.clone();
            lb.extend(diff.iter().map(|d| d.2));
            if let Some((x, nx)) = lit {
                la.retain(|&y| y != x);
                lb.retain(|&y| y != nx);
                let ga = self.cx.band(&la);
                let gb = self.cx.band(&lb);
                extra = Some(self.cx.ite(x, ga, gb));
                guard = x;
            } else {
                let ga = self.cx.band(&la);
                let gb = self.cx.band(&lb);
                extra = Some(self.cx.bor(ga, gb));
                guard = match sep {
                    Some(e) => e,
                    None => ga,
                };
            }
        }
        let mut s = State {
            frames: vec![],
            objs: a.objs.clone(),
            dom: Rc::new(dom),
            conds: Rc::new(common),
            sp: a.sp,
            inputs: a.inputs.clone(),
            outs: a.outs.clone(),
            outs_ok: a.outs_ok && b.outs_ok,
            solo: false,
            tags: a.tags.clone(),
        };
        if a.inputs != b.inputs {
            return Err("paths with different inputs merged".into());
        }
        if let Some(x) = extra {
            if !self.assume(&mut s, x) {
                return Err("merge of contradictory states".into());
            }
        }
        // the guard is only valid under the merged path condition, which is what we need
        let g = guard;
        // registers
        let n = a.frames.len();
        let mut memo: HashMap<(E, E), E> = HashMap::new();
        for i in 0..n {
            let fa = &a.frames[i];
            let fb = &b.frames[i];
            let mut fr = fa.clone();
            if !Rc::ptr_eq(&fa.regs, &fb.regs) {
                let mut regs = Vec::with_capacity(fa.regs.len());
                let blk = &fa.f.blocks[fa.block as usize];
                let top = i == n - 1 && fa.ip == 0;
                for r in 0..fa.regs.len() {
                    if top && blk.live_in[r / 64] >> (r % 64) & 1 == 0 {
                        regs.push(V::U);
                        continue;
                    }
                    let (x, y) = (&fa.regs[r], &fb.regs[r]);
                    regs.push(match (x, y) {
                        (V::E(p), V::E(q)) if p == q => x.clone(),
                        (V::E(p), V::E(q)) => V::E(self.mite(&mut memo, g, *p, *q)),
                        _ => match self.vite(g, x, y) {
                            Ok(v) => v,
                            Err(_) => V::U,
                        },
                    });
                }
                fr.regs = Rc::new(regs);
            }
            if fa.allocas.len() < fb.allocas.len() {
                fr.allocas = fb.allocas.clone();
            }
            s.frames.push(fr);
        }
        s.sp = a.sp.max(b.sp);
        // memory
        if !Rc::ptr_eq(&a.objs, &b.objs) {
            let mut objs = (*a.objs).clone();
            for (k, ob) in b.objs.iter() {
                match a.objs.get(k) {
                    None => {
                        objs.insert(*k, ob.clone());
                    }
                    Some(oa) => {
                        if Rc::ptr_eq(oa, ob) {
                            continue;
                        }
                        let (la, lb) = (oa.cells.len(), ob.cells.len());
                        let mut cells = Vec::with_capacity(la.max(lb));
                        for i in 0..la.max(lb) {
                            let ca = oa.cells.get(i).copied().unwrap_or(UC);
                            let cb = ob.cells.get(i).copied().unwrap_or(UC);
                            cells.push(if ca == cb {
                                ca
                            } else if ca.e == UNDEF {
                                cb
                            } else if cb.e == UNDEF {
                                ca
                            } else if ca.i == cb.i && ca.n == cb.n {
                                Cell {
                                    e: self.mite(&mut memo, g, ca.e, cb.e),
                                    i: ca.i,
                                    n: ca.n,
                                }
                            } else {
                                let x = self.cell_byte(ca);
                                let y = self.cell_byte(cb);
                                Cell {
                                    e: self.mite(&mut memo, g, x, y),
                                    i: 0,
                                    n: 1,
                                }
                            });
                        }
                        objs.insert(
                            *k,
                            Rc::new(Obj {
                                base: *k,
                                cells,
                                ro: oa.ro,
                            }),
                        );
                    }
                }
            }
            s.objs = Rc::new(objs);
        }
        // outputs
        if !Rc::ptr_eq(&a.outs, &b.outs) {
            if a.outs.len() == b.outs.len() && a.outs.iter().zip(b.outs.iter()).all(|(x, y)| x.0 == y.0) {
                let mut v = Vec::with_capacity(a.outs.len());
                for (x, y) in a.outs.iter().zip(b.outs.iter()) {
                    v.push((x.0, self.mite(&mut memo, g, x.1, y.1)));
                }
                s.outs = Rc::new(v);
            } else {
                s.outs_ok = false;
                if b.outs.len() > a.outs.len() {
                    s.outs = b.outs.clone();
                }
            }
        }
        Ok(s)
    }
    fn mite(&mut self, memo: &mut HashMap<(E, E), E>, g: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if let Some(&r) = memo.get(&(a, b)) {
            return r;
        }
        let r = self.cx.ite(g, a, b);
        memo.insert((a, b), r);
        r
    }

    // ------------------------------------------------------------ main loop
    pub fn run(&mut self, entry: &str, args: &[u64]) -> R<()> {
        let name: Rc<str> = entry.into();
        let f = self.m.func(&name)?.ok_or(format!("no function {entry}"))?;
        let mut regs = vec![V::U; f.nregs as usize];
        if f.params.len() != args.len() {
            return Err(format!("{entry} takes {} arguments", f.params.len()));
        }
        for (p, &a) in f.params.iter().zip(args) {
            if let Some(r) = p.1 {
                regs[r as usize] = V::E(self.cx.c(a as u128));
            }
        }
        let mut fr = Frame {
            f,
            block: 0,
            ip: 0,
            regs: Rc::new(regs),
            loops: vec![],
            allocas: vec![],
            sp: STACK0,
        };
        Self::set_loops(&mut fr, 0);
        let s = State {
            frames: vec![fr],
            objs: Rc::new(BTreeMap::new()),
            dom: Rc::new(BTreeMap::new()),
            conds: Rc::new(vec![]),
            sp: STACK0,
            inputs: Rc::new(vec![]),
            outs: Rc::new(vec![]),
            outs_ok: true,
            solo: false,
            tags: Rc::new(vec![]),
        };
        self.push(s);
        while let Some((k, mut v)) = self.queue.pop_first() {
            self.nstates -= v.len() as u64;
            if v.iter().any(|s| s.solo) {
                let mut rest = vec![];
                for mut s in v {
                    if s.solo {
                        s.solo = false;
                        self.step_until_yield(s, &k)?;
                    } else {
                        rest.push(s);
                    }
                }
                if rest.is_empty() {
                    continue;
                }
                v = rest;
            }
            let s = if v.len() == 1 {
                v.pop().unwrap()
            } else {
                let total = v.len();
                let mut groups: Vec<State> = vec![];
                for s in v {
                    let mut done = false;
                    let mut i = 0;
                    while i < groups.len() {
                        if !self.sensitive || total > 600 || self.mergeable(&groups[i], &s) {
                            let g = groups.swap_remove(i);
                            let m = self.merge(g, s.clone())?;
                            groups.push(m);
                            done = true;
                            break;
                        }
                        i += 1;
                    }
                    if !done {
                        groups.push(s);
                    }
                }
                self.stats.refused_merges += groups.len() as u64 - 1;
                let s = groups.pop().unwrap();
                for g in groups {
                    self.step_until_yield(g, &k)?;
                }
                s
            };
            self.step_until_yield(s, &k)?;
        }
        Ok(())
    }
    fn push(&mut self, s: State) {
        self.nstates += 1;
        self.stats.max_states = self.stats.max_states.max(self.nstates);
        let k = Self::key(&s);
        self.queue.entry(k).or_default().push(s);
    }
    /// runs `s` (which must make progress) until it should wait for others
    fn step_until_yield(&mut self, mut s: State, _k: &[u32]) -> R<()> {
        loop {
            match self.step(&mut s)? {
                Next::Done => return Ok(()),
                Next::Fork(v) => {
                    for t in v {
                        self.push(t);
                    }
                    return Ok(());
                }
                Next::Go => {}
            }
            // at a possible merge point?
            let fr = s.frames.last().unwrap();
            let at_join = fr.ip == 0 && fr.f.blocks[fr.block as usize].npreds > 1;
            let after_call = fr.ip > 0
                && matches!(
                    fr.f.blocks[fr.block as usize].insts[fr.ip as usize - 1].i,
                    I::Call(..)
                );
            if !self.queue.is_empty() && (at_join || after_call) {
                let k = Self::key(&s);
                let min = self.queue.keys().next().unwrap();
                if *min <= k {
                    self.push(s);
                    return Ok(());
                }
            }
        }
    }

    fn step(&mut self, s: &mut State) -> R<Next> {
        self.stats.steps += 1;
        if self.stats.steps & 0xfff == 0 {
            if self.stats.steps > self.lim.steps {
                return Err(format!("step limit at {}", self.whereis(s)));
            }
            if self.t0.elapsed().as_secs_f64() > self.lim.secs {
                return Err(format!("time limit at {}", self.whereis(s)));
            }
        }
        let fr = s.frames.last().unwrap();
        let f = fr.f.clone();
        let blk = &f.blocks[fr.block as usize];
        let ins = &blk.insts[fr.ip as usize];
        if ins.dbg != 0 {
            self.used_dbg.insert(ins.dbg);
        }
        if self.trace {
            eprintln!(
                "[{}] {} b{} i{} {:?}",
                s.frames.len(),
                f.name,
                fr.block,
                fr.ip,
                ins
            );
        }
        let r = self.inst(s, &f, ins);
        match r {
            Err(e) => Err(format!("{e} [in {}]", self.whereis(s))),
            Ok(x) => Ok(x),
        }
    }

    fn adv(s: &mut State) {
        s.frames.last_mut().unwrap().ip += 1;
    }

    fn branch(&mut self, s: &State, alts: Vec<(E, u32)>) -> R<Next> {
        // alts: mutually exclusive, exhaustive
        let mut out = vec![];
        let n = alts.len();
        for (c, t) in alts {
            let c = self.simp(s, c);
            if c == 0 {
                continue;
            }
            let mut x = s.clone();
            if !self.assume(&mut x, c) {
                continue;
            }
            if c != 1 && self.multi(c) && n > 1 && !self.feasible(&x, c)? {
                continue;
            }
            self.goto(&mut x, t)?;
            out.push(x);
        }
        self.stats.forks += out.len().saturating_sub(1) as u64;
        Ok(Next::Fork(out))
    }

    fn inst(&mut self, s: &mut State, f: &Rc<Func>, ins: &Inst) -> R<Next> {
        match &ins.i {
            I::Br(t) => {
                self.goto(s, *t)?;
                return Ok(Next::Go);
            }
            I::CondBr(c, a, b) => {
                let c = match self.op(s, c) {
                    V::E(e) => e,
                    _ => {
                        let w = format!("branch on undef: {}", self.whereis(s));
                        self.obligation(s, w, 0);
                        return Ok(Next::Done);
                    }
                };
                if let Some(v) = self.cx.konst(c) {
                    self.goto(s, if v != 0 { *a } else { *b })?;
                    return Ok(Next::Go);
                }
                let nc = self.cx.not(c);
                return self.branch(s, vec![(c, *a), (nc, *b)]);
            }
            I::Switch(_, c, d, cases) => {
                let c = self.ope(s, c, "switch")?;
                if let Some(v) = self.cx.konst(c) {
                    let t = cases.iter().find(|x| x.0 == v).map_or(*d, |x| x.1);
                    self.goto(s, t)?;
                    return Ok(Next::Go);
                }
                let mut by: BTreeMap<u32, E> = BTreeMap::new();
                let mut all: E = 0;
                for (k, t) in cases {
                    let kc = self.cx.c(*k);
                    let e = self.cx.eq(c, kc);
                    let o = by.get(t).copied().unwrap_or(0);
                    let n = self.cx.bor(o, e);
                    by.insert(*t, n);
                    all = self.cx.bor(all, e);
                }
                let rest = self.cx.not(all);
                let o = by.get(d).copied().unwrap_or(0);
                let n = self.cx.bor(o, rest);
                by.insert(*d, n);
                let alts = by.into_iter().map(|(t, e)| (e, t)).collect();
                return self.branch(s, alts);
            }
            I::Unreachable => {
                let w = format!("unreachable code reached: {}", self.whereis(s));
                self.obligation(s, w, 0);
                return Ok(Next::Done);
            }
            I::Resume | I::LandingPad => return Err("unwinding".into()),
            I::Ret(v) => {
                let rv = match v {
                    Some((_, o)) => Some(self.op(s, o)),
                    None => None,
                };
                let fr = s.frames.pop().unwrap();
                if !fr.allocas.is_empty() {
                    let objs = Rc::make_mut(&mut s.objs);
                    for a in &fr.allocas {
                        objs.remove(a);
                    }
                }
                s.sp = fr.sp;
                if s.frames.is_empty() {
                    self.fins.push(Fin {
                        inputs: s.inputs.clone(),
                        dom: s.dom.clone(),
                        conds: s.conds.clone(),
                        outs: s.outs.clone(),
                        outs_ok: s.outs_ok,
                    });
                    return Ok(Next::Done);
                }
                let cf = s.frames.last().unwrap();
                let ff = cf.f.clone();
                let call = &ff.blocks[cf.block as usize].insts[cf.ip as usize];
                if let (Some(d), Some(v)) = (call.dst, rv) {
                    Self::setr(s, d, v);
                }
                if let I::Call(_, _, _, Some(n)) = &call.i {
                    self.goto(s, *n)?;
                } else {
                    Self::adv(s);
                }
                return Ok(Next::Go);
            }
            I::Call(rt, callee, args, norm) => {
                return self.call(s, f, ins.dst, rt, callee, args, *norm);
            }
            _ => {}
        }
        let v: Option<V> = match &ins.i {
            I::Bin(k, t, a, b) => {
                let x = self.op(s, a);
                let y = self.op(s, b);
                Some(self.bin(*k, t, &x, &y)?)
            }
            I::FNeg(t, a) => {
                let x = self.ope(s, a, "fneg")?;
                let w = t.bits();
                let r = self
                    .cx
                    .un("fneg", &[x], |v| v[0] ^ (1u128 << (w - 1)))
                    .ok_or("fneg of compound value")?;
                Some(V::E(r))
            }
            I::ICmp(p, t, a, b) => {
                let x = self.op(s, a);
                let y = self.op(s, b);
                Some(self.icmp(p, t, &x, &y)?)
            }
            I::FCmp(p, t, a, b) => {
                let x = self.ope(s, a, "fcmp")?;
                let y = self.ope(s, b, "fcmp")?;
                let f32_ = **t == Ty::Float;
                let p = p.clone();
                let r = self
                    .cx
                    .un("fcmp", &[x, y], |v| {
                        let (a, b) = (fval(v[0], f32_), fval(v[1], f32_));
                        let un = a.is_nan() || b.is_nan();
                        (match &p[..] {
                            "oeq" => !un && a == b,
                            "ogt" => !un && a > b,
                            "oge" => !un && a >= b,
                            "olt" => !un && a < b,
                            "ole" => !un && a <= b,
                            "one" => !un && a != b,
                            "ord" => !un,
                            "ueq" => un || a == b,
                            "ugt" => un || a > b,
                            "uge" => un || a >= b,
                            "ult" => un || a < b,
                            "ule" => un || a <= b,
                            "une" => un || a != b,
                            "uno" => un,
                            "true" => true,
                            _ => false,
                        }) as u128
                    })
                    .ok_or("fcmp of compound values")?;
                Some(V::E(r))
            }
            I::Cast(k, ft, a, tt) => {
                let x = self.op(s, a);
                Some(self.cast(*k, ft, &x, tt)?)
            }
            I::Gep(b, off, ix) => {
                let mut p = match self.op(s, b) {
                    V::E(e) => e,
                    V::U => {
                        // address of nothing: stays undefined
                        let d = ins.dst.unwrap();
                        Self::setr(s, d, V::U);
                        Self::adv(s);
                        return Ok(Next::Go);
                    }
                    _ => return Err("vector gep".into()),
                };
                let mut und = false;
                if *off != 0 {
                    let o = self.cx.c(*off as u64 as u128);
                    p = self.cx.add(64, p, o).ok_or("gep add")?;
                }
                for (o, w, sc) in ix {
                    match self.op(s, o) {
                        V::E(e) => {
                            let e = self.cx.sext(e, *w, 64).ok_or("gep sext")?;
                            let k = self.cx.c(*sc as u64 as u128);
                            let e = self.cx.mul(64, e, k).ok_or("gep mul")?;
                            p = self.cx.add(64, p, e).ok_or("gep add")?;
                        }
                        _ => und = true,
                    }
                }
                Some(if und { V::U } else { V::E(p) })
            }
            I::Load(t, a) => {
                let a = self.ope(s, a, "load")?;
                match self.load(s, t, a)? {
                    Some(v) => Some(v),
                    None => return Ok(Next::Done),
                }
            }
            I::Store(t, v, a) => {
                let v = self.op(s, v);
                let a = self.ope(s, a, "store")?;
                if !self.store(s, t, &v, a)? {
                    return Ok(Next::Done);
                }
                None
            }
            I::Alloca(n, al) => {
                let al = (*al).max(16);
                let a = (s.sp + al - 1) / al * al;
                s.sp = a + n + 32;
                Rc::make_mut(&mut s.objs).insert(
                    a,
                    Rc::new(Obj {
                        base: a,
                        cells: vec![UC; *n as usize],
                        ro: false,
                    }),
                );
                s.frames.last_mut().unwrap().allocas.push(a);
                Some(V::E(self.cx.c(a as u128)))
            }
            I::Select(_, c, a, b, vec) => {
                let x = self.op(s, a);
                let y = self.op(s, b);
                if *vec {
                    let V::A(cs) = self.op(s, c) else {
                        return Err("vector select".into());
                    };
                    let (V::A(xs), V::A(ys)) = (x, y) else {
                        return Err("vector select".into());
                    };
                    let mut o = vec![];
                    for i in 0..cs.len() {
                        let V::E(c) = cs[i] else {
                            return Err("select on undef".into());
                        };
                        o.push(self.vite(c, &xs[i], &ys[i])?);
                    }
                    Some(V::A(Rc::new(o)))
                } else {
                    match self.op(s, c) {
                        V::E(c) => Some(match self.cx.konst(c) {
                            Some(0) => y,
                            Some(_) => x,
                            None => self.vite(c, &x, &y)?,
                        }),
                        _ => Some(V::U),
                    }
                }
            }
            I::ExtractValue(a, ix) => {
                let mut v = self.op(s, a);
                for &i in ix {
                    v = match v {
                        V::A(x) => x[i as usize].clone(),
                        V::U => V::U,
                        _ => return Err("extractvalue".into()),
                    };
                }
                if let V::E(e) = v {
                    v = V::E(self.simp_val(s, e));
                }
                Some(v)
            }
            I::InsertValue(t, a, b, ix) => {
                let mut v = self.op(s, a);
                if v == V::U {
                    v = self.cv(&undef_of(t));
                }
                let x = self.op(s, b);
                fn ins(v: &V, ix: &[u32], x: V) -> R<V> {
                    if ix.is_empty() {
                        return Ok(x);
                    }
                    match v {
                        V::A(vs) => {
                            let mut n = (**vs).clone();
                            n[ix[0] as usize] = ins(&n[ix[0] as usize], &ix[1..], x)?;
                            Ok(V::A(Rc::new(n)))
                        }
                        _ => Err("insertvalue".into()),
                    }
                }
                Some(ins(&v, ix, x)?)
            }
            I::ExtractElement(_, a, i) => {
                let i = self.ope(s, i, "extractelement")?;
                let k = self.cx.konst(i).ok_or("symbolic lane")?;
                match self.op(s, a) {
                    V::A(v) => Some(v[k as usize].clone()),
                    _ => Some(V::U),
                }
            }
            I::InsertElement(t, a, b, i) => {
                let i = self.ope(s, i, "insertelement")?;
                let k = self.cx.konst(i).ok_or("symbolic lane")?;
                let mut v = self.op(s, a);
                if v == V::U {
                    v = self.cv(&undef_of(t));
                }
                let x = self.op(s, b);
                match v {
                    V::A(v) => {
                        let mut n = (*v).clone();
                        n[k as usize] = x;
                        Some(V::A(Rc::new(n)))
                    }
                    _ => return Err("insertelement".into()),
                }
            }
            I::Shuffle(t, a, b, m) => {
                let mut x = self.op(s, a);
                let mut y = self.op(s, b);
                if x == V::U {
                    x = self.cv(&undef_of(t));
                }
                if y == V::U {
                    y = self.cv(&undef_of(t));
                }
                let (V::A(x), V::A(y)) = (x, y) else {
                    return Err("shuffle".into());
                };
                let n = x.len();
                Some(V::A(Rc::new(
                    m.iter()
                        .map(|k| match k {
                            None => V::U,
                            Some(k) if (*k as usize) < n => x[*k as usize].clone(),
                            Some(k) => y[*k as usize - n].clone(),
                        })
                        .collect(),
                )))
            }
            I::Freeze(a) => Some(match self.op(s, a) {
                V::U => V::E(0),
                v => v,
            }),
            I::CmpXchg(t, p, c, n) => {
                let p = self.ope(s, p, "cmpxchg")?;
                let c = self.ope(s, c, "cmpxchg")?;
                let n = self.op(s, n);
                let Some(V::E(old)) = self.load(s, t, p)? else {
                    return Err("cmpxchg load".into());
                };
                let e = self.cx.eq(old, c);
                let nv = self.vite(e, &n, &V::E(old))?;
                self.store(s, t, &nv, p)?;
                Some(V::A(Rc::new(vec![V::E(old), V::E(e)])))
            }
            I::AtomicRmw(k, t, p, x) => {
                let p = self.ope(s, p, "rmw")?;
                let x = self.op(s, x);
                let Some(old) = self.load(s, t, p)? else {
                    return Err("rmw load".into());
                };
                let nv = match &k[..] {
                    "xchg" => x,
                    "add" => self.bin(BinK::Add, t, &old, &x)?,
                    "sub" => self.bin(BinK::Sub, t, &old, &x)?,
                    "and" => self.bin(BinK::And, t, &old, &x)?,
                    "or" => self.bin(BinK::Or, t, &old, &x)?,
                    "xor" => self.bin(BinK::Xor, t, &old, &x)?,
                    _ => return Err(format!("atomicrmw {k}")),
                };
                self.store(s, t, &nv, p)?;
                Some(old)
            }
            I::Fence => None,
            I::Unsupported(t) => return Err(format!("unsupported instruction: {t}")),
            _ => unreachable!(),
        };
        if let (Some(d), Some(v)) = (ins.dst, v) {
            Self::setr(s, d, v);
        }
        Self::adv(s);
        Ok(Next::Go)
    }

    fn bin(&mut self, k: BinK, t: &TyR, x: &V, y: &V) -> R<V> {
        match (x, y) {
            (V::A(a), V::A(b)) => {
                let Ty::Vec(_, et) = &**t else {
                    return Err("bin on aggregates".into());
                };
                let mut o = vec![];
                for i in 0..a.len() {
                    o.push(self.bin(k, et, &a[i], &b[i])?);
                }
                Ok(V::A(Rc::new(o)))
            }
            (V::E(a), V::E(b)) => {
                let (a, b) = (*a, *b);
                let w = t.bits();
                let cx = &mut self.cx;
                let bad = || format!("{k:?} of compound values (i{w})");
                let r = match k {
                    BinK::Add => cx.add(w, a, b).ok_or_else(bad)?,
                    BinK::Sub => cx.sub(w, a, b).ok_or_else(bad)?,
                    BinK::Mul => cx.mul(w, a, b).ok_or_else(bad)?,
                    BinK::UDiv => cx.udiv(a, b),
                    BinK::URem => cx.urem(a, b),
                    BinK::And => cx.and(w, a, b),
                    BinK::Or => cx.or(w, a, b).ok_or_else(bad)?,
                    BinK::Xor => cx.xor(w, a, b).ok_or_else(bad)?,
                    BinK::Shl => cx.shl(w, a, b).ok_or_else(bad)?,
                    BinK::LShr => cx.lshr(w, a, b).ok_or_else(bad)?,
                    BinK::AShr => {
                        let h = 1u128 << (w - 1);
                        if cx.hi(a) < h {
                            cx.lshr(w, a, b).ok_or_else(bad)?
                        } else {
                            cx.un("ashr", &[a, b], |v| {
                                let sh = v[1].min(w as u128 - 1) as u32;
                                ((sext(v[0], w) >> sh) as u128) & mask(w)
                            })
                            .ok_or_else(bad)?
                        }
                    }
                    BinK::SDiv | BinK::SRem => {
                        let h = 1u128 << (w - 1);
                        if cx.hi(a) < h && cx.hi(b) < h {
                            if k == BinK::SDiv {
                                cx.udiv(a, b)
                            } else {
                                cx.urem(a, b)
                            }
                        } else {
                            cx.un("sdiv", &[a, b], |v| {
                                let (p, q) = (sext(v[0], w), sext(v[1], w));
                                if q == 0 {
                                    return 0;
                                }
                                (if k == BinK::SDiv {
                                    p.wrapping_div(q)
                                } else {
                                    p.wrapping_rem(q)
                                }) as u128
                                    & mask(w)
                            })
                            .ok_or_else(bad)?
                        }
                    }
                    BinK::FAdd | BinK::FSub | BinK::FMul | BinK::FDiv | BinK::FRem => {
                        let f32_ = **t == Ty::Float;
                        cx.un("fop", &[a, b], |v| {
                            if f32_ {
                                let (p, q) =
                                    (f32::from_bits(v[0] as u32), f32::from_bits(v[1] as u32));
                                (match k {
                                    BinK::FAdd => p + q,
                                    BinK::FSub => p - q,
                                    BinK::FMul => p * q,
                                    BinK::FDiv => p / q,
                                    _ => p % q,
                                })
                                .to_bits() as u128
                            } else {
                                let (p, q) =
                                    (f64::from_bits(v[0] as u64), f64::from_bits(v[1] as u64));
                                (match k {
                                    BinK::FAdd => p + q,
                                    BinK::FSub => p - q,
                                    BinK::FMul => p * q,
                                    BinK::FDiv => p / q,
                                    _ => p % q,
                                })
                                .to_bits() as u128
                            }
                        })
                        .ok_or_else(bad)?
                    }
                };
                Ok(V::E(r))
            }
            _ => Ok(V::U),
        }
    }
    fn icmp(&mut self, p: &str, t: &TyR, x: &V, y: &V) -> R<V> {
        match (x, y) {
            (V::A(a), V::A(b)) => {
                let Ty::Vec(_, et) = &**t else {
                    return Err("icmp on aggregates".into());
                };
                let mut o = vec![];
                for i in 0..a.len() {
                    o.push(self.icmp(p, et, &a[i], &b[i])?);
                }
                Ok(V::A(Rc::new(o)))
            }
            (V::E(a), V::E(b)) => {
                let (a, b) = (*a, *b);
                let w = t.bits();
                let cx = &mut self.cx;
                let r = match p {
                    "eq" => cx.eq(a, b),
                    "ne" => {
                        let e = cx.eq(a, b);
                        cx.not(e)
                    }
                    "ult" => cx.ult(a, b),
                    "ugt" => cx.ult(b, a),
                    "ule" => {
                        let e = cx.ult(b, a);
                        cx.not(e)
                    }
                    "uge" => {
                        let e = cx.ult(a, b);
                        cx.not(e)
                    }
                    "slt" => cx.slt(w, a, b).ok_or("slt")?,
                    "sgt" => cx.slt(w, b, a).ok_or("slt")?,
                    "sle" => {
                        let e = cx.slt(w, b, a).ok_or("slt")?;
                        cx.not(e)
                    }
                    "sge" => {
                        let e = cx.slt(w, a, b).ok_or("slt")?;
                        cx.not(e)
                    }
                    _ => return Err(format!("icmp {p}")),
                };
                Ok(V::E(r))
            }
            _ => Ok(V::U),
        }
    }
    fn cast(&mut self, k: CastK, ft: &TyR, x: &V, tt: &TyR) -> R<V> {
        if let CastK::BitCast = k {
            match (&**ft, &**tt, x) {
                (Ty::Vec(_, et), Ty::Int(w), V::A(vs)) => {
                    let ew = et.bits();
                    let mut acc: E = 0;
                    for (i, v) in vs.iter().enumerate() {
                        let V::E(e) = v else { return Ok(V::U) };
                        let sh = self.cx.c(i as u128 * ew as u128);
                        let y = self.cx.shl(*w, *e, sh).ok_or("bitcast")?;
                        acc = self.cx.or(*w, acc, y).ok_or("bitcast")?;
                    }
                    return Ok(V::E(acc));
                }
                (Ty::Int(_), Ty::Vec(n, et), V::E(e)) => {
                    let ew = et.bits();
                    let mut o = vec![];
                    for i in 0..*n {
                        let y = self.cx.udivk(*e, 1u128 << (i as u32 * ew));
                        o.push(V::E(self.cx.trunc(y, ew)));
                    }
                    return Ok(V::A(Rc::new(o)));
                }
                (a, b, _) if a.is_scalar() && b.is_scalar() => return Ok(x.clone()),
                (Ty::Vec(n, a), Ty::Vec(m, b), _) if n == m && a.bits() == b.bits() => {
                    return Ok(x.clone())
                }
                _ => return Err("bitcast".into()),
            }
        }
        match x {
            V::A(vs) => {
                let (Ty::Vec(_, a), Ty::Vec(_, b)) = (&**ft, &**tt) else {
                    return Err("cast of aggregate".into());
                };
                let mut o = vec![];
                for v in vs.iter() {
                    o.push(self.cast(k, a, v, b)?);
                }
                Ok(V::A(Rc::new(o)))
            }
            V::U => Ok(V::U),
            V::E(e) => {
                let e = *e;
                let fw = ft.bits();
                let tw = tt.bits();
                let f32s = **ft == Ty::Float;
                let f32d = **tt == Ty::Float;
                let cx = &mut self.cx;
                let bad = || format!("{k:?} of compound value");
                Ok(V::E(match k {
                    CastK::Trunc => cx.trunc(e, tw),
                    CastK::ZExt => e,
                    CastK::SExt => cx.sext(e, fw, tw).ok_or_else(bad)?,
                    CastK::PtrToInt | CastK::IntToPtr => {
                        if tw < fw {
                            cx.trunc(e, tw)
                        } else {
                            e
                        }
                    }
                    CastK::BitCast => e,
                    CastK::UIToFP => cx
                        .un("uitofp", &[e], |v| {
                            if f32d {
                                (v[0] as f32).to_bits() as u128
                            } else {
                                (v[0] as f64).to_bits() as u128
                            }
                        })
                        .ok_or_else(bad)?,
                    CastK::SIToFP => cx
                        .un("sitofp", &[e], |v| {
                            let s = sext(v[0], fw);
                            if f32d {
                                (s as f32).to_bits() as u128
                            } else {
                                (s as f64).to_bits() as u128
                            }
                        })
                        .ok_or_else(bad)?,
                    CastK::FPToUI => cx
                        .un("fptoui", &[e], |v| {
                            (fval(v[0], f32s) as u128) & mask(tw)
                        })
                        .ok_or_else(bad)?,
                    CastK::FPToSI => cx
                        .un("fptosi", &[e], |v| {
                            (fval(v[0], f32s) as i128 as u128) & mask(tw)
                        })
                        .ok_or_else(bad)?,
                    CastK::FPTrunc => cx
                        .un("fptrunc", &[e], |v| {
                            (f64::from_bits(v[0] as u64) as f32).to_bits() as u128
                        })
                        .ok_or_else(bad)?,
                    CastK::FPExt => cx
                        .un("fpext", &[e], |v| {
                            (f32::from_bits(v[0] as u32) as f64).to_bits() as u128
                        })
                        .ok_or_else(bad)?,
                }))
            }
        }
    }

    // ------------------------------------------------------------ calls
    fn call(
        &mut self,
        s: &mut State,
        _f: &Rc<Func>,
        dst: Option<u32>,
        rt: &TyR,
        callee: &Callee,
        args: &[(TyR, Op)],
        norm: Option<u32>,
    ) -> R<Next> {
        let name: Rc<str> = match callee {
            Callee::Direct(n) => n.clone(),
            Callee::Ind(o) => {
                let e = self.ope(s, o, "indirect call")?;
                match self.concrete(s, e, "call target")? {
                    Ok(v) => match self.m.fnames.get(&(v as u64)) {
                        Some(n) => n.clone(),
                        None => {
                            let w = format!("call through bad pointer {v:#x}: {}", self.whereis(s));
                            self.obligation(s, w, 0);
                            return Ok(Next::Done);
                        }
                    },
                    Err(st) => return Ok(Next::Fork(st)),
                }
            }
        };
        let mut av = Vec::with_capacity(args.len());
        for (_, o) in args {
            av.push(self.op(s, o));
        }
        macro_rules! fin {
            ($v:expr) => {{
                let v: Option<V> = $v;
                if let (Some(d), Some(v)) = (dst, v) {
                    Self::setr(s, d, v);
                }
                match norm {
                    Some(n) => self.goto(s, n)?,
                    None => Self::adv(s),
                }
                return Ok(Next::Go);
            }};
        }
        macro_rules! conc {
            ($e:expr, $w:expr) => {
                match self.concrete(s, $e, $w)? {
                    Ok(v) => v,
                    Err(st) => return Ok(Next::Fork(st)),
                }
            };
        }
        let arg = |i: usize| -> R<E> {
            match av.get(i) {
                Some(V::E(e)) => Ok(*e),
                _ => Err(format!("argument {i} of {name}")),
            }
        };
        let n: &str = &name;
        if let Some(r) = n.strip_prefix("llvm.") {
            let w = match args.first() {
                Some((t, _)) if t.is_scalar() => t.bits(),
                _ => 0,
            };
            if r.starts_with("lifetime.end") {
                // forget the contents, so that dead slots do not keep paths apart
                let k = args.len() - 1;
                if let Some(a) = self.cx.konst(arg(k)?) {
                    if a as u64 >= STACK0 && s.objs.contains_key(&(a as u64)) {
                        let o = Rc::make_mut(Rc::make_mut(&mut s.objs).get_mut(&(a as u64)).unwrap());
                        o.cells.fill(UC);
                    }
                }
                fin!(None);
            }
            if r.starts_with("memcpy") || r.starts_with("memmove") {
                let len = conc!(arg(2)?, "copy length") as u64;
                if len == 0 {
                    fin!(None);
                }
                let (ed, es) = (arg(0)?, arg(1)?);
                let sym = self.cx.konst(ed).is_none() || self.cx.konst(es).is_none();
                if sym
                    && len <= 256
                    && self.cands0(s, ed, 128).is_some()
                    && self.cands0(s, es, 128).is_some()
                {
                    // byte by byte through symbolic addresses
                    let t = self.m.tyconst.int(8);
                    let mut vals = vec![];
                    for k in 0..len {
                        let kc = self.cx.c(k as u128);
                        let a = self.cx.add(64, es, kc).ok_or("copy address")?;
                        match self.load(s, &t, a)? {
                            Some(v) => vals.push(v),
                            None => return Ok(Next::Done),
                        }
                    }
                    for (k, v) in vals.iter().enumerate() {
                        let kc = self.cx.c(k as u128);
                        let a = self.cx.add(64, ed, kc).ok_or("copy address")?;
                        if !self.store(s, &t, v, a)? {
                            return Ok(Next::Done);
                        }
                    }
                    fin!(None);
                }
                let d = conc!(ed, "copy target") as u64;
                let sr = conc!(es, "copy source") as u64;
                if !self.copy(s, d, sr, len)? {
                    return Ok(Next::Done);
                }
                fin!(None);
            }
            if r.starts_with("memset") {
                let len = conc!(arg(2)?, "fill length") as u64;
                if len == 0 {
                    fin!(None);
                }
                let d = conc!(arg(0)?, "fill target") as u64;
                let c = match &av[1] {
                    V::E(e) => Cell { e: *e, i: 0, n: 1 },
                    _ => UC,
                };
                match self.find_mut(s, d, len)? {
                    Some(o) => {
                        let off = (d - o.base) as usize;
                        for x in o.cells[off..off + len as usize].iter_mut() {
                            *x = c;
                        }
                    }
                    None => {
                        let w = format!("invalid fill {d:#x}+{len}: {}", self.whereis(s));
                        self.obligation(s, w, 0);
                        return Ok(Next::Done);
                    }
                }
                fin!(None);
            }
            if r.starts_with("trap") || r.starts_with("ubsantrap") {
                let w = format!("trap: {}", self.whereis(s));
                self.obligation(s, w, 0);
                return Ok(Next::Done);
            }
            if r.starts_with("threadlocal.address") {
                fin!(Some(av[0].clone()));
            }
            if r.starts_with("is.constant") {
                fin!(Some(V::E(0)));
            }
            if r.starts_with("expect") {
                fin!(Some(av[0].clone()));
            }
            if r.starts_with("load.relative") {
                let b = arg(0)?;
                let o = arg(1)?;
                let p = self.cx.add(64, b, o).ok_or("load.relative")?;
                let t = self.m.tyconst.int(32);
                let Some(v) = self.load(s, &t, p)? else {
                    return Ok(Next::Done);
                };
                let V::E(v) = v else {
                    return Err("load.relative".into());
                };
                let v = self.cx.sext(v, 32, 64).ok_or("load.relative")?;
                let r = self.cx.add(64, b, v).ok_or("load.relative")?;
                fin!(Some(V::E(r)));
            }
            if av.iter().any(|v| *v == V::U) {
                fin!(Some(self.cv(&undef_of(rt))));
            }
            if let Some(V::A(_)) = av.first() {
                return Err(format!("vector intrinsic {n}"));
            }
            let a = arg(0)?;
            let bad = || format!("{n} of compound values");
            if r.starts_with("umax") || r.starts_with("umin") || r.starts_with("smax") || r.starts_with("smin") {
                let b = arg(1)?;
                let lt = if r.starts_with('s') {
                    self.cx.slt(w, a, b).ok_or_else(bad)?
                } else {
                    self.cx.ult(a, b)
                };
                let lt = self.simp(s, lt);
                let x = if r[1..].starts_with("max") {
                    self.cx.ite(lt, b, a)
                } else {
                    self.cx.ite(lt, a, b)
                };
                fin!(Some(V::E(x)));
            }
            if r.starts_with("usub.sat") {
                let b = arg(1)?;
                let lt = self.cx.ult(a, b);
                let lt = self.simp(s, lt);
                let d = if lt == 1 { 0 } else { self.cx.sub(w, a, b).ok_or_else(bad)? };
                let x = self.cx.ite(lt, 0, d);
                fin!(Some(V::E(x)));
            }
            if r.starts_with("uadd.sat") {
                let b = arg(1)?;
                let (sum, ov) = self.addov(w, a, b)?;
                let m = self.cx.c(mask(w));
                let x = self.cx.ite(ov, m, sum);
                fin!(Some(V::E(x)));
            }
            if r.starts_with("uadd.with.overflow") {
                let b = arg(1)?;
                let (sum, ov) = self.addov(w, a, b)?;
                let ov = self.simp(s, ov);
                fin!(Some(V::A(Rc::new(vec![V::E(sum), V::E(ov)]))));
            }
            if r.starts_with("usub.with.overflow") {
                let b = arg(1)?;
                let d = self.cx.sub(w, a, b).ok_or_else(bad)?;
                let ov = self.cx.ult(a, b);
                let ov = self.simp(s, ov);
                fin!(Some(V::A(Rc::new(vec![V::E(d), V::E(ov)]))));
            }
            if r.starts_with("umul.with.overflow") {
                let b = arg(1)?;
                let p = self.cx.mul(w, a, b).ok_or_else(bad)?;
                let hi = self.cx.hi(a).checked_mul(self.cx.hi(b));
                let ov = if hi.map_or(false, |h| h <= mask(w)) {
                    0
                } else if let Some(r) = self.cx.un("umulo", &[a, b], |v| {
                    v[0].checked_mul(v[1]).map_or(1, |x| (x > mask(w)) as u128)
                }) {
                    r
                } else if w <= 64 {
                    let full = self.cx.mul(128, a, b).ok_or_else(bad)?;
                    let m = self.cx.c(mask(w));
                    self.cx.ult(m, full)
                } else {
                    return Err(bad());
                };
                let ov = self.simp(s, ov);
                fin!(Some(V::A(Rc::new(vec![V::E(p), V::E(ov)]))));
            }
            if r.starts_with("sadd.with.overflow")
                || r.starts_with("ssub.with.overflow")
                || r.starts_with("smul.with.overflow")
            {
                let b = arg(1)?;
                let op = r.as_bytes()[1];
                let h = 1u128 << (w - 1);
                let (ha, hb) = (self.cx.hi(a), self.cx.hi(b));
                let val = match op {
                    b'a' => self.cx.add(w, a, b),
                    b's' => self.cx.sub(w, a, b),
                    _ => self.cx.mul(w, a, b),
                }
                .ok_or_else(bad)?;
                let ov = if ha < h
                    && hb < h
                    && match op {
                        b'a' => ha + hb < h,
                        b's' => true,
                        _ => ha.checked_mul(hb).map_or(false, |x| x < h),
                    } {
                    0
                } else if let Some(r) = self.cx.un("sov", &[a, b], |v| {
                    let (x, y) = (sext(v[0], w), sext(v[1], w));
                    let z = match op {
                        b'a' => x.checked_add(y),
                        b's' => x.checked_sub(y),
                        _ => x.checked_mul(y),
                    };
                    z.map_or(1, |z| (z < -(h as i128) || z >= h as i128) as u128)
                }) {
                    r
                } else if ha < h && hb < h {
                    // both non-negative
                    match op {
                        b'a' => {
                            let full = self.cx.add(w + 1, a, b).ok_or_else(bad)?;
                            let m = self.cx.c(h - 1);
                            self.cx.ult(m, full)
                        }
                        _ => {
                            let full = self.cx.mul(2 * w, a, b).ok_or_else(bad)?;
                            let m = self.cx.c(h - 1);
                            self.cx.ult(m, full)
                        }
                    }
                } else {
                    return Err(bad());
                };
                let ov = self.simp(s, ov);
                fin!(Some(V::A(Rc::new(vec![V::E(val), V::E(ov)]))));
            }
            if r.starts_with("ucmp") || r.starts_with("scmp") {
                let b = arg(1)?;
                let (lt, gt) = if r.starts_with('u') {
                    (self.cx.ult(a, b), self.cx.ult(b, a))
                } else {
                    (
                        self.cx.slt(w, a, b).ok_or_else(bad)?,
                        self.cx.slt(w, b, a).ok_or_else(bad)?,
                    )
                };
                let m1 = self.cx.c(mask(rt.bits()));
                let x = self.cx.ite(gt, 1, 0);
                let x = self.cx.ite(lt, m1, x);
                fin!(Some(V::E(x)));
            }
            if r.starts_with("ctlz") {
                let x = self
                    .cx
                    .un("ctlz", &[a], |v| (v[0].leading_zeros() - (128 - w)) as u128);
                if let Some(x) = x {
                    fin!(Some(V::E(x)));
                }
                // threshold chain
                let mut acc = self.cx.c(w as u128);
                for k in 0..w {
                    let c = self.cx.c(1u128 << k);
                    let lt = self.cx.ult(a, c);
                    let val = self.cx.c((w - 1 - k) as u128);
                    acc = self.cx.ite(lt, acc, val);
                }
                fin!(Some(V::E(acc)));
            }
            if r.starts_with("cttz") {
                let x = self.cx.un("cttz", &[a], |v| {
                    if v[0] == 0 {
                        w as u128
                    } else {
                        v[0].trailing_zeros() as u128
                    }
                });
                if let Some(x) = x {
                    fin!(Some(V::E(x)));
                }
                let mut acc = self.cx.c(w as u128);
                for k in (0..w).rev() {
                    let y = self.cx.udivk(a, 1u128 << k);
                    let bit = self.cx.uremk(y, 2);
                    let val = self.cx.c(k as u128);
                    acc = self.cx.ite(bit, val, acc);
                }
                fin!(Some(V::E(acc)));
            }
            if r.starts_with("ctpop") {
                if let Some(x) = self.cx.un("ctpop", &[a], |v| v[0].count_ones() as u128) {
                    fin!(Some(V::E(x)));
                }
                let mut acc: E = 0;
                for k in 0..w {
                    let y = self.cx.udivk(a, 1u128 << k);
                    let bit = self.cx.uremk(y, 2);
                    acc = self.cx.add(w, acc, bit).ok_or_else(bad)?;
                }
                fin!(Some(V::E(acc)));
            }
            if r.starts_with("bswap") {
                let nb = w / 8;
                let mut acc: E = 0;
                for k in 0..nb {
                    let y = self.cx.byte(a, k as u8);
                    let sh = self.cx.c(8 * (nb - 1 - k) as u128);
                    let y = self.cx.shl(w, y, sh).ok_or_else(bad)?;
                    acc = self.cx.add(w, acc, y).ok_or_else(bad)?;
                }
                fin!(Some(V::E(acc)));
            }
            if r.starts_with("bitreverse") {
                let x = self
                    .cx
                    .un("bitrev", &[a], |v| v[0].reverse_bits() >> (128 - w))
                    .ok_or_else(bad)?;
                fin!(Some(V::E(x)));
            }
            if r.starts_with("abs") {
                let x = self
                    .cx
                    .un("abs", &[a], |v| sext(v[0], w).unsigned_abs() & mask(w))
                    .ok_or_else(bad)?;
                fin!(Some(V::E(x)));
            }
            if r.starts_with("fshl") || r.starts_with("fshr") {
                let b = arg(1)?;
                let c = arg(2)?;
                let left = r.starts_with("fshl");
                let wc = self.cx.c(w as u128);
                let c = self.cx.urem(c, wc);
                if let Some(k) = self.cx.konst(c) {
                    let k = if left { k } else { w as u128 - k };
                    if k == 0 {
                        fin!(Some(V::E(a)));
                    }
                    if k == w as u128 {
                        fin!(Some(V::E(b)));
                    }
                    let kc = self.cx.c(k);
                    let x = self.cx.shl(w, a, kc).ok_or_else(bad)?;
                    let y = self.cx.udivk(b, 1u128 << (w as u128 - k));
                    let z = self.cx.add(w, x, y).ok_or_else(bad)?;
                    fin!(Some(V::E(z)));
                }
                let x = self
                    .cx
                    .un("fsh", &[a, b, c], |v| {
                        let k = if left { v[2] } else { w as u128 - v[2] };
                        if k == 0 {
                            v[0]
                        } else if k == w as u128 {
                            v[1]
                        } else {
                            ((v[0] << k) | (v[1] >> (w as u128 - k))) & mask(w)
                        }
                    })
                    .ok_or_else(bad)?;
                fin!(Some(V::E(x)));
            }
            // floating point
            let f32_ = matches!(args.first().map(|x| &*x.0), Some(Ty::Float));
            let tw = if rt.is_scalar() { rt.bits() } else { 0 };
            let enc = move |x: f64, orig32: bool| -> u128 {
                if orig32 {
                    (x as f32).to_bits() as u128
                } else {
                    x.to_bits() as u128
                }
            };
            let r1 = if r.starts_with("round.") {
                self.cx.un("fround", &[a], |v| enc(fval(v[0], f32_).round(), f32_))
            } else if r.starts_with("floor.") {
                self.cx.un("ffloor", &[a], |v| enc(fval(v[0], f32_).floor(), f32_))
            } else if r.starts_with("ceil.") {
                self.cx.un("fceil", &[a], |v| enc(fval(v[0], f32_).ceil(), f32_))
            } else if r.starts_with("trunc.") {
                self.cx.un("ftrunc", &[a], |v| enc(fval(v[0], f32_).trunc(), f32_))
            } else if r.starts_with("rint.") || r.starts_with("nearbyint.") || r.starts_with("roundeven.") {
                self.cx.un("frint", &[a], |v| enc(fval(v[0], f32_).round_ties_even(), f32_))
            } else if r.starts_with("fabs.") {
                self.cx.un("fabs", &[a], |v| enc(fval(v[0], f32_).abs(), f32_))
            } else if r.starts_with("maximumnum.") || r.starts_with("maxnum.") {
                let b = arg(1)?;
                self.cx.un("fmax", &[a, b], |v| {
                    enc(fval(v[0], f32_).max(fval(v[1], f32_)), f32_)
                })
            } else if r.starts_with("minimumnum.") || r.starts_with("minnum.") {
                let b = arg(1)?;
                self.cx.un("fmin", &[a, b], |v| {
                    enc(fval(v[0], f32_).min(fval(v[1], f32_)), f32_)
                })
            } else if r.starts_with("fptoui.sat.") {
                self.cx.un("fptouisat", &[a], |v| {
                    (fval(v[0], f32_) as u128).min(mask(tw))
                })
            } else {
                return Err(format!("intrinsic {n}"));
            };
            let x = r1.ok_or_else(bad)?;
            fin!(Some(V::E(x)));
        }
        match n {
            "vp_any" => {
                let lo = conc!(arg(0)?, "vp_any") as u128;
                let hi = conc!(arg(1)?, "vp_any") as u128;
                let (id, e) = self.cx.input(s.inputs.len() as u32, lo, hi);
                Rc::make_mut(&mut s.inputs).push(id);
                fin!(Some(V::E(e)));
            }
            "vp_twin" => {
                let e = arg(0)?;
                if !self.twin {
                    fin!(Some(V::E(e)));
                }
                let t = self.cx.twin(e, true);
                let known: Vec<(E, T)> = s.dom.iter().map(|(a, b)| (*a, *b)).collect();
                for (b, m) in known {
                    let tb = self.cx.twin(b, false);
                    if tb != b && !s.dom.contains_key(&tb) {
                        Rc::make_mut(&mut s.dom).insert(tb, m);
                    }
                }
                let t = self.simp_val(s, t);
                fin!(Some(V::E(t)));
            }
            "vp_stop" => return Ok(Next::Done),
            "vp_assume" => {
                let c = arg(0)?;
                if !self.assume(s, c) {
                    return Ok(Next::Done);
                }
                if self.multi(c) && !self.feasible(s, c)? {
                    return Ok(Next::Done);
                }
                fin!(None);
            }
            "vp_check" | "vp_check_eq" => {
                let eq = n == "vp_check_eq";
                let id = self
                    .cx
                    .konst(arg(if eq { 2 } else { 1 })?)
                    .ok_or("symbolic check id")?;
                let c = if eq {
                    match (&av[0], &av[1]) {
                        (V::E(a), V::E(b)) => {
                            let (a, b) = (*a, *b);
                            if self.cx.konst(a).is_some() && self.cx.konst(b).is_some() {
                                self.stats.checks_const += 1;
                            }
                            self.cx.eq(a, b)
                        }
                        _ => return Err("check of undefined value".into()),
                    }
                } else {
                    arg(0)?
                };
                let c = self.simp(s, c);
                self.stats.checks += 1;
                if c == 1 {
                    self.stats.checks_trivial += 1;
                } else {
                    self.obligation(s, format!("check {id}"), c);
                    // continue on the side where it holds
                    if eq && self.support(c).iter().any(|i| self.cx.twins.contains_key(i)) {
                        // a comparison with the oracle: taken to follow
                    } else if !self.assume(s, c) {
                        return Ok(Next::Done);
                    }
                }
                fin!(None);
            }
            "vp_reach" => {
                let id = self.cx.konst(arg(0)?).ok_or("symbolic reach id")?;
                self.reach
                    .entry(format!("{id}"))
                    .or_default()
                    .push((s.dom.clone(), s.conds.clone(), s.inputs.clone()));
                fin!(None);
            }
            "vp_out" => {
                let e = arg(0)?;
                Rc::make_mut(&mut s.outs).push((0, e));
                fin!(None);
            }
            "vp_pin" => {
                // fork on the value: returns it as a constant on every path
                let v = conc!(arg(0)?, "vp_pin");
                let c = self.cx.c(v);
                fin!(Some(V::E(c)));
            }
            "vp_split" => {
                // as vp_pin, and the paths stay apart from here on
                let v = conc!(arg(0)?, "vp_split");
                let c = self.cx.c(v);
                Rc::make_mut(&mut s.tags).push(v as u32);
                fin!(Some(V::E(c)));
            }
            "malloc" | "calloc" | "aligned_alloc" => {
                let (len, zero) = match n {
                    "malloc" => (conc!(arg(0)?, "allocation size"), false),
                    "aligned_alloc" => (conc!(arg(1)?, "allocation size"), false),
                    _ => {
                        let a = conc!(arg(0)?, "allocation size");
                        let b = conc!(arg(1)?, "allocation size");
                        (a * b, true)
                    }
                };
                if len > 1 << 25 {
                    return Err(format!("allocation of {len} bytes"));
                }
                let a = self.alloc(s, len as u64, zero);
                fin!(Some(V::E(self.cx.c(a as u128))));
            }
            "posix_memalign" => {
                let len = conc!(arg(2)?, "allocation size");
                if len > 1 << 25 {
                    return Err(format!("allocation of {len} bytes"));
                }
                let p = arg(0)?;
                let a = self.alloc(s, len as u64, false);
                let v = V::E(self.cx.c(a as u128));
                let t = self.m.tyconst_ptr();
                if !self.store(s, &t, &v, p)? {
                    return Ok(Next::Done);
                }
                fin!(Some(V::E(0)));
            }
            "realloc" => {
                let p = conc!(arg(0)?, "realloc pointer") as u64;
                let len = conc!(arg(1)?, "allocation size");
                if len > 1 << 25 {
                    return Err(format!("allocation of {len} bytes"));
                }
                let a = if p == 0 {
                    self.alloc(s, len as u64, false)
                } else {
                    if !s.objs.contains_key(&p) {
                        let w = format!("realloc of bad pointer: {}", self.whereis(s));
                        self.obligation(s, w, 0);
                        return Ok(Next::Done);
                    }
                    // in place
                    let o = Rc::make_mut(Rc::make_mut(&mut s.objs).get_mut(&p).unwrap());
                    o.cells.resize(len as usize, UC);
                    p
                };
                fin!(Some(V::E(self.cx.c(a as u128))));
            }
            "free" => {
                // a pointer that differs between merged paths: drop every alternative
                let e = arg(0)?;
                let vs = match self.cx.konst(e) {
                    Some(v) => vec![v],
                    None => {
                        let _ = conc!(e, "freed pointer");
                        vec![]
                    }
                };
                for v in vs {
                    if v != 0 {
                        if !s.objs.contains_key(&(v as u64)) {
                            let w = format!("free of bad pointer {v:#x}: {}", self.whereis(s));
                            self.obligation(s, w, 0);
                            return Ok(Next::Done);
                        }
                        Rc::make_mut(&mut s.objs).remove(&(v as u64));
                    }
                }
                fin!(None);
            }
            "bcmp" | "memcmp" => {
                let len = conc!(arg(2)?, "compare length") as u64;
                if len == 0 {
                    fin!(Some(V::E(0)));
                }
                let a = conc!(arg(0)?, "compare pointer") as u64;
                let b = conc!(arg(1)?, "compare pointer") as u64;
                let (Some(oa), Some(ob)) = (self.find(s, a, len)?, self.find(s, b, len)?) else {
                    let w = format!("invalid compare: {}", self.whereis(s));
                    self.obligation(s, w, 0);
                    return Ok(Next::Done);
                };
                let mut eqs = vec![];
                let mut xs = vec![];
                for i in 0..len as usize {
                    let ca = oa.cells[(a - oa.base) as usize + i];
                    let cb = ob.cells[(b - ob.base) as usize + i];
                    if ca.e == UNDEF || cb.e == UNDEF {
                        return Err("compare of undefined bytes".into());
                    }
                    let x = self.cell_byte(ca);
                    let y = self.cell_byte(cb);
                    let (x, y) = (self.simp(s, x), self.simp(s, y));
                    let e = self.cx.eq(x, y);
                    eqs.push(e);
                    xs.push((x, y));
                }
                let r = if n == "bcmp" {
                    let e = self.cx.band(&eqs);
                    self.cx.not(e)
                } else {
                    let m1 = self.cx.c(mask(32));
                    let mut acc: E = 0;
                    for i in (0..eqs.len()).rev() {
                        let lt = self.cx.ult(xs[i].0, xs[i].1);
                        let d = self.cx.ite(lt, m1, 1);
                        acc = self.cx.ite(eqs[i], acc, d);
                    }
                    acc
                };
                fin!(Some(V::E(r)));
            }
            "strlen" => {
                let p = conc!(arg(0)?, "strlen") as u64;
                let mut k = 0;
                let t = self.m.tyconst.int(8);
                loop {
                    let a = self.cx.c((p + k) as u128);
                    match self.load(s, &t, a)? {
                        Some(V::E(e)) if self.cx.konst(e) == Some(0) => break,
                        Some(V::E(e)) if self.cx.konst(e).is_some() => k += 1,
                        _ => return Err("strlen".into()),
                    }
                }
                fin!(Some(V::E(self.cx.c(k as u128))));
            }
            _ => {}
        }
        if self.is_noreturn(&name) {
            let w = format!("panic: {} < {}", demangle(&name), self.whereis(s));
            self.obligation(s, w, 0);
            return Ok(Next::Done);
        }
        let Some(cf) = self.m.func(&name)? else {
            return Err(format!("call of undefined function {name}"));
        };
        if s.frames.len() > 200 {
            return Err("call depth".into());
        }
        self.used_funcs.insert(cf.name.clone());
        let mut regs = vec![V::U; cf.nregs as usize];
        if cf.params.len() != av.len() {
            return Err(format!("argument count of {name}"));
        }
        for (p, v) in cf.params.iter().zip(av.into_iter()) {
            if let Some(r) = p.1 {
                regs[r as usize] = v;
            }
        }
        let mut fr = Frame {
            f: cf,
            block: 0,
            ip: 0,
            regs: Rc::new(regs),
            loops: vec![],
            allocas: vec![],
            sp: s.sp,
        };
        Self::set_loops(&mut fr, 0);
        s.frames.push(fr);
        Ok(Next::Go)
    }
    fn addov(&mut self, w: u32, a: E, b: E) -> R<(E, E)> {
        let sum = self.cx.add(w, a, b).ok_or("uadd.with.overflow")?;
        let hi = self.cx.hi(a).checked_add(self.cx.hi(b));
        let ov = if hi.map_or(false, |h| h <= mask(w)) {
            0
        } else if let Some(r) = self.cx.un("uaddo", &[a, b], |v| {
            v[0].checked_add(v[1]).map_or(1, |x| (x > mask(w)) as u128)
        }) {
            r
        } else if w < 99 {
            let full = self.cx.add(w + 1, a, b).ok_or("uadd.with.overflow")?;
            let m = self.cx.c(mask(w));
            self.cx.ult(m, full)
        } else {
            return Err("uadd.with.overflow".into());
        };
        Ok((sum, ov))
    }
}

fn fval(bits: u128, f32_: bool) -> f64 {
    if f32_ {
        f32::from_bits(bits as u32) as f64
    } else {
        f64::from_bits(bits as u64)
    }
}

/// crude readable form of a v0-mangled name
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let mut j = i;
            let mut len = 0usize;
            while j < b.len() && b[j].is_ascii_digit() && len < 1000 {
                len = len * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if len > 0 && j + len <= b.len() && n[j..j + len].bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && len > 1 {
                out.push(n[j..j + len].to_string());
                i = j + len;
                continue;
            }
            i = j.max(i + 1);
        } else {
            i += 1;
        }
    }
    if out.is_empty() {
        n.to_string()
    } else {
        out.join("::")
    }
}
