//! Hash-consed expressions over non-negative integers with exact ranges.
//!
//! Every node denotes an integer in [lo, hi] as a function of the symbolic
//! inputs.  Machine arithmetic wraps only where a range says it can, so widths
//! disappear from most terms.  Terms that depend on one small-range node (a
//! "base": an input, or a bounded sub-term such as a remainder) are kept as
//! tables over that base; sums are kept as a constant plus one table per base.

use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;
pub type T = u32;

pub const CUT: u128 = 2048;
const BIG: i128 = 1 << 100;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum BO {
    And,
    Or,
    Xor,
    Shl,
    LShr,
    Mul,
    UDiv,
    URem,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum K {
    C(u128),
    Var(u32),
    Tab(E, T),
    /// c + sum coef*e + sum table[base]; the integer value lies in [lo,hi]
    Sep(i128, Rc<[(E, i128)]>, Rc<[(E, T)]>),
    /// (c + sum ...) mod 2^w
    Mod2(u32, i128, Rc<[(E, i128)]>, Rc<[(E, T)]>),
    URem(E, u128),
    UDiv(E, u128),
    /// bit operation on w-bit words
    Bit(BO, E, E, u32),
    Ite(E, E, E),
    Eq(E, E),
    Ult(E, E),
    Not(E),
    And(Rc<[E]>),
}

#[derive(Clone, Copy)]
pub struct Info {
    pub lo: u128,
    pub hi: u128,
    pub boolean: bool,
}

pub struct VarInfo {
    pub lo: u128,
    pub hi: u128,
}

#[derive(Clone, Debug, Default)]
pub struct Sep {
    pub c: i128,
    pub lin: Vec<(E, i128)>,
    pub tabs: Vec<(E, T)>,
}

pub struct Cx {
    pub k: Vec<K>,
    pub inf: Vec<Info>,
    map: HashMap<K, E>,
    pub tabs: Vec<Rc<[u128]>>,
    tinfo: Vec<(i128, i128)>,
    tmap: HashMap<Rc<[u128]>, T>,
    pub vars: Vec<VarInfo>,
    pub vmap: HashMap<(u32, u128, u128), u32>,
    rmemo: HashMap<(T, T), T>,
    bytememo: HashMap<(E, u8), E>,
    itememo: HashMap<(E, E, E), E>,
    pub n_tab_ops: u64,
    /// inputs and their copies, both ways
    pub twins: HashMap<u32, u32>,
    twmemo: HashMap<E, E>,
    pub tab_log: Option<HashMap<(String, Vec<T>, T), ()>>,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

fn center(v: i128, w: u32) -> i128 {
    // representative in (-2^(w-1), 2^(w-1)]
    let m = 1i128 << w;
    let r = v.rem_euclid(m);
    if r > m / 2 {
        r - m
    } else {
        r
    }
}

impl Cx {
    pub fn new() -> Cx {
        let mut c = Cx {
            k: vec![],
            inf: vec![],
            map: HashMap::new(),
            tabs: vec![],
            tinfo: vec![],
            tmap: HashMap::new(),
            vars: vec![],
            vmap: HashMap::new(),
            rmemo: HashMap::new(),
            bytememo: HashMap::new(),
            itememo: HashMap::new(),
            n_tab_ops: 0,
            twins: HashMap::new(),
            twmemo: HashMap::new(),
            tab_log: None,
        };
        assert_eq!(c.c(0), 0);
        assert_eq!(c.c(1), 1);
        c
    }
    fn raw(&mut self, k: K, lo: u128, hi: u128, boolean: bool) -> E {
        if let Some(&e) = self.map.get(&k) {
            return e;
        }
        if lo == hi && !matches!(k, K::C(_)) && !matches!(k, K::Var(_)) {
            return self.c(lo);
        }
        debug_assert!(lo <= hi, "{k:?} {lo} {hi}");
        let e = self.k.len() as E;
        self.k.push(k.clone());
        self.inf.push(Info { lo, hi, boolean });
        self.map.insert(k, e);
        e
    }
    pub fn c(&mut self, v: u128) -> E {
        self.raw(K::C(v), v, v, v <= 1)
    }
    pub fn b(&mut self, v: bool) -> E {
        self.c(v as u128)
    }
    pub fn konst(&self, e: E) -> Option<u128> {
        if let K::C(v) = self.k[e as usize] {
            Some(v)
        } else {
            None
        }
    }
    pub fn lo(&self, e: E) -> u128 {
        self.inf[e as usize].lo
    }
    pub fn hi(&self, e: E) -> u128 {
        self.inf[e as usize].hi
    }
    pub fn is_bool(&self, e: E) -> bool {
        self.inf[e as usize].hi <= 1
    }
    /// the `pos`-th input of a path
    pub fn input(&mut self, pos: u32, lo: u128, hi: u128) -> (u32, E) {
        let id = match self.vmap.get(&(pos, lo, hi)) {
            Some(&i) => i,
            None => {
                let i = self.vars.len() as u32;
                self.vars.push(VarInfo { lo, hi });
                self.vmap.insert((pos, lo, hi), i);
                i
            }
        };
        if lo == hi {
            return (id, self.c(lo));
        }
        (id, self.raw(K::Var(id), lo, hi, hi <= 1))
    }

    /// gives the copies the values of the inputs
    pub fn equate(&self, asg: &mut [u128]) {
        for (&i, &j) in &self.twins {
            if i < j {
                asg[j as usize] = asg[i as usize];
            }
        }
    }
    pub fn var_e(&self, i: u32) -> Option<E> {
        self.map.get(&K::Var(i)).copied()
    }
    /// A copy of input `i`.  That the two are equal is a fact the solver is told
    /// (smt.rs); terms over one never simplify against terms over the other.
    fn make_twin(&mut self, i: u32) {
        if self.twins.contains_key(&i) {
            return;
        }
        let (lo, hi) = (self.vars[i as usize].lo, self.vars[i as usize].hi);
        let j = self.vars.len() as u32;
        self.vars.push(VarInfo { lo, hi });
        self.raw(K::Var(j), lo, hi, hi <= 1);
        self.twins.insert(i, j);
        self.twins.insert(j, i);
        self.twmemo.clear();
    }
    /// made of copies rather than of inputs (decided by one leaf)
    pub fn is_copy(&self, mut e: E) -> bool {
        loop {
            if let K::Var(i) = self.k[e as usize] {
                return self.twins.get(&i).is_some_and(|&j| j < i);
            }
            match self.children(e).last() {
                Some(&c) => e = c,
                None => return false,
            }
        }
    }
    /// the same function of the copies of the inputs
    pub fn twin(&mut self, e: E, create: bool) -> E {
        if create {
            // all inputs at once: terms with only some of theirs copied would multiply
            for i in 0..self.vars.len() as u32 {
                self.make_twin(i);
            }
        }
        if self.twins.is_empty() {
            return e;
        }
        if let Some(&r) = self.twmemo.get(&e) {
            return r;
        }
        for x in self.reach(e, true) {
            if !self.twmemo.contains_key(&x) {
                let r = self.twin1(x);
                self.twmemo.insert(x, r);
                self.twmemo.insert(r, x);
            }
        }
        self.twmemo[&e]
    }
    /// e and what it is made of, parts first
    fn reach(&self, e: E, new: bool) -> Vec<E> {
        let mut seen = std::collections::HashSet::new();
        let mut v = vec![];
        let mut st = vec![e];
        while let Some(x) = st.pop() {
            if !(new && self.twmemo.contains_key(&x)) && seen.insert(x) {
                v.push(x);
                st.extend(self.children(x));
            }
        }
        // parts have smaller numbers
        v.sort_unstable();
        v
    }
    fn twin1(&mut self, e: E) -> E {
        let g = |s: &Self, x: E| s.twmemo[&x];
        let ord = |a: E, b: E| (a.min(b), a.max(b));
        let seq = |s: &Self, l: &[(E, i128)], t: &[(E, T)]| {
            let mut l2: Vec<(E, i128)> = l.iter().map(|x| (s.twmemo[&x.0], x.1)).collect();
            let mut t2: Vec<(E, T)> = t.iter().map(|x| (s.twmemo[&x.0], x.1)).collect();
            l2.sort_unstable();
            t2.sort_unstable();
            (l2, t2)
        };
        let k = match self.k[e as usize].clone() {
            K::C(_) => return e,
            K::Var(i) => match self.twins.get(&i) {
                Some(&j) => K::Var(j),
                None => return e,
            },
            K::Tab(b, t) => K::Tab(g(self, b), t),
            K::Sep(c, l, t) => {
                let (l, t) = seq(self, &l, &t);
                K::Sep(c, l.into(), t.into())
            }
            K::Mod2(w, c, l, t) => {
                let (l, t) = seq(self, &l, &t);
                K::Mod2(w, c, l.into(), t.into())
            }
            K::URem(a, m) => K::URem(g(self, a), m),
            K::UDiv(a, m) => K::UDiv(g(self, a), m),
            K::Bit(op, a, b, w) => {
                let (mut x, mut y) = (g(self, a), g(self, b));
                if matches!(op, BO::And | BO::Or | BO::Xor | BO::Mul) {
                    (x, y) = ord(x, y);
                }
                K::Bit(op, x, y, w)
            }
            K::Ite(c, a, b) => K::Ite(g(self, c), g(self, a), g(self, b)),
            K::Eq(a, b) => {
                let (x, y) = ord(g(self, a), g(self, b));
                if x == y {
                    return 1;
                }
                K::Eq(x, y)
            }
            K::Ult(a, b) => K::Ult(g(self, a), g(self, b)),
            K::Not(a) => K::Not(g(self, a)),
            K::And(v) => {
                let mut v: Vec<E> = v.iter().map(|x| self.twmemo[x]).collect();
                v.sort_unstable();
                K::And(v.into())
            }
        };
        let i = self.inf[e as usize];
        self.raw(k, i.lo, i.hi, i.boolean)
    }

    // ---------- tables
    pub fn tab(&mut self, v: Vec<u128>) -> T {
        let r: Rc<[u128]> = v.into();
        if let Some(&t) = self.tmap.get(&r) {
            return t;
        }
        let t = self.tabs.len() as T;
        let mut lo = i128::MAX;
        let mut hi = i128::MIN;
        for &x in r.iter() {
            let s = x as i128;
            lo = lo.min(s);
            hi = hi.max(s);
        }
        self.tinfo.push((lo, hi));
        self.tabs.push(r.clone());
        self.tmap.insert(r, t);
        t
    }
    pub fn width_of_base(&self, b: E) -> u128 {
        self.hi(b) - self.lo(b) + 1
    }
    /// value table of `e` over its base `b`
    pub fn table_over(&mut self, e: E, b: E) -> Rc<[u128]> {
        if let K::Tab(bb, t) = self.k[e as usize] {
            if bb == b {
                return self.tabs[t as usize].clone();
            }
        }
        if let K::C(v) = self.k[e as usize] {
            let n = self.width_of_base(b) as usize;
            return vec![v; n].into();
        }
        assert_eq!(e, b);
        let lo = self.lo(b);
        let hi = self.hi(b);
        let v: Vec<u128> = (lo..=hi).collect();
        let t = self.tab(v);
        self.tabs[t as usize].clone()
    }
    pub fn base(&self, e: E) -> Option<E> {
        match &self.k[e as usize] {
            K::C(_) => None,
            K::Tab(b, _) => Some(*b),
            _ => {
                if self.hi(e) - self.lo(e) < CUT {
                    Some(e)
                } else {
                    None
                }
            }
        }
    }
    pub fn mk_tab(&mut self, b: E, v: Vec<u128>) -> E {
        let f = v[0];
        if v.iter().all(|&x| x == f) {
            return self.c(f);
        }
        let lo = self.lo(b);
        if v.iter().enumerate().all(|(i, &x)| x == lo + i as u128) {
            return b;
        }
        if v.len() == 2 && v[0] == 1 && v[1] == 0 && self.is_bool(b) && !matches!(self.k[b as usize], K::Var(_)) {
            return self.not(b);
        }
        let mn = *v.iter().min().unwrap();
        let mx = *v.iter().max().unwrap();
        let t = self.tab(v);
        self.raw(K::Tab(b, t), mn, mx, mx <= 1)
    }
    /// common base of the arguments, if they all depend on one base only
    fn common(&self, args: &[E]) -> Option<Option<E>> {
        let mut b = None;
        for &a in args {
            if let K::C(_) = self.k[a as usize] {
                continue;
            }
            match self.base(a) {
                None => return None,
                Some(x) => match b {
                    None => b = Some(x),
                    Some(y) if y == x => {}
                    _ => return None,
                },
            }
        }
        Some(b)
    }
    /// apply `f` if the arguments depend on at most one base
    pub fn un<F: Fn(&[u128]) -> u128>(&mut self, name: &str, args: &[E], f: F) -> Option<E> {
        match self.common(args)? {
            None => {
                let v: Vec<u128> = args.iter().map(|&a| self.konst(a).unwrap()).collect();
                let r = f(&v);
                Some(self.c(r))
            }
            Some(b) => {
                let ts: Vec<Rc<[u128]>> = args.iter().map(|&a| self.table_over(a, b)).collect();
                let n = ts[0].len();
                let mut out = Vec::with_capacity(n);
                let mut av = vec![0u128; args.len()];
                for i in 0..n {
                    for (k, t) in ts.iter().enumerate() {
                        av[k] = t[i];
                    }
                    out.push(f(&av));
                }
                self.n_tab_ops += 1;
                if self.tab_log.is_some() {
                    let tids: Vec<T> = ts.iter().map(|t| self.tmap[t]).collect::<Vec<_>>();
                    let o = self.tab(out.clone());
                    let l = self.tab_log.as_mut().unwrap();
                    if l.len() < 200000 {
                        l.insert((name.to_string(), tids, o), ());
                    }
                }
                Some(self.mk_tab(b, out))
            }
        }
    }

    // ---------- separable sums
    fn parts(&mut self, e: E, w: Option<u32>) -> Sep {
        match self.k[e as usize].clone() {
            K::C(v) if (v as i128) >= 0 && (v as i128) < BIG => Sep {
                c: v as i128,
                ..Default::default()
            },
            K::Tab(b, t) if self.hi(e) < BIG as u128 => {
                let tv = self.tabs[t as usize].clone();
                let f = tv[0] as i128;
                let mut nv: Vec<u128> = tv.iter().map(|&x| (x as i128 - f) as u128).collect();
                if let Some(w) = w {
                    if w < 100 {
                        for x in nv.iter_mut() {
                            *x = center(*x as i128, w) as u128;
                        }
                    }
                }
                let t = self.tab(nv);
                Sep {
                    c: f,
                    lin: vec![],
                    tabs: vec![(b, t)],
                }
            }
            K::Sep(c, l, t) => Sep {
                c,
                lin: l.to_vec(),
                tabs: t.to_vec(),
            },
            K::Mod2(ww, c, l, t) if w.map_or(false, |w| w <= ww) => Sep {
                c,
                lin: l.to_vec(),
                tabs: t.to_vec(),
            },
            _ => {
                let (lo, hi) = (self.lo(e), self.hi(e));
                if hi - lo < CUT && hi < BIG as u128 {
                    let v: Vec<u128> = (0..=(hi - lo)).collect();
                    let t = self.tab(v);
                    Sep {
                        c: lo as i128,
                        lin: vec![],
                        tabs: vec![(e, t)],
                    }
                } else {
                    Sep {
                        c: 0,
                        lin: vec![(e, 1)],
                        tabs: vec![],
                    }
                }
            }
        }
    }
    fn sep_add(&mut self, a: &Sep, b: &Sep, kb: i128) -> Option<Sep> {
        let mut out = Sep {
            c: a.c.checked_add(b.c.checked_mul(kb)?)?,
            lin: vec![],
            tabs: vec![],
        };
        let (mut i, mut j) = (0, 0);
        while i < a.lin.len() || j < b.lin.len() {
            if j >= b.lin.len() || (i < a.lin.len() && a.lin[i].0 < b.lin[j].0) {
                out.lin.push(a.lin[i]);
                i += 1;
            } else if i >= a.lin.len() || b.lin[j].0 < a.lin[i].0 {
                out.lin.push((b.lin[j].0, b.lin[j].1.checked_mul(kb)?));
                j += 1;
            } else {
                let k = a.lin[i].1.checked_add(b.lin[j].1.checked_mul(kb)?)?;
                if k != 0 {
                    out.lin.push((a.lin[i].0, k));
                }
                i += 1;
                j += 1;
            }
        }
        let (mut i, mut j) = (0, 0);
        while i < a.tabs.len() || j < b.tabs.len() {
            if j >= b.tabs.len() || (i < a.tabs.len() && a.tabs[i].0 < b.tabs[j].0) {
                out.tabs.push(a.tabs[i]);
                i += 1;
            } else if i >= a.tabs.len() || b.tabs[j].0 < a.tabs[i].0 {
                let t = self.tscale(b.tabs[j].1, kb)?;
                out.tabs.push((b.tabs[j].0, t));
                j += 1;
            } else {
                let ta = self.tabs[a.tabs[i].1 as usize].clone();
                let tb = self.tabs[b.tabs[j].1 as usize].clone();
                let mut v = Vec::with_capacity(ta.len());
                for k in 0..ta.len() {
                    v.push((ta[k] as i128).checked_add((tb[k] as i128).checked_mul(kb)?)? as u128);
                }
                if v.iter().any(|&x| x != 0) {
                    let t = self.tab(v);
                    out.tabs.push((a.tabs[i].0, t));
                }
                i += 1;
                j += 1;
            }
        }
        Some(out)
    }
    fn tscale(&mut self, t: T, k: i128) -> Option<T> {
        if k == 1 {
            return Some(t);
        }
        let tv = self.tabs[t as usize].clone();
        let mut v = Vec::with_capacity(tv.len());
        for &x in tv.iter() {
            v.push((x as i128).checked_mul(k)? as u128);
        }
        Some(self.tab(v))
    }
    fn sep_range(&self, s: &Sep) -> Option<(i128, i128)> {
        let mut lo = s.c;
        let mut hi = s.c;
        for &(e, k) in &s.lin {
            let a = i128::try_from(self.lo(e)).ok()?.checked_mul(k)?;
            let b = i128::try_from(self.hi(e)).ok()?.checked_mul(k)?;
            lo = lo.checked_add(a.min(b))?;
            hi = hi.checked_add(a.max(b))?;
        }
        for &(_, t) in &s.tabs {
            let (a, b) = self.tinfo[t as usize];
            lo = lo.checked_add(a)?;
            hi = hi.checked_add(b)?;
        }
        Some((lo, hi))
    }
    /// s is known to lie in [0, BIG)
    fn mk_sep(&mut self, s: Sep) -> E {
        let (lo, hi) = self.sep_range(&s).expect("sep range");
        if s.lin.is_empty() && s.tabs.is_empty() {
            return self.c(s.c as u128);
        }
        if s.lin.is_empty() && s.tabs.len() == 1 {
            let (b, t) = s.tabs[0];
            let tv = self.tabs[t as usize].clone();
            let v: Vec<u128> = tv.iter().map(|&x| (x as i128 + s.c) as u128).collect();
            return self.mk_tab(b, v);
        }
        if s.tabs.is_empty() && s.lin.len() == 1 && s.c == 0 && s.lin[0].1 == 1 {
            return s.lin[0].0;
        }
        // the value is known to be >= 0 even if interval arithmetic is looser
        let lo = lo.max(0) as u128;
        self.raw(
            K::Sep(s.c, s.lin.into(), s.tabs.into()),
            lo,
            hi as u128,
            hi <= 1,
        )
    }
    fn finish_mod(&mut self, w: u32, s: Sep) -> Option<E> {
        if w >= 100 {
            let (lo, hi) = self.sep_range(&s)?;
            if lo >= 0 && hi < BIG {
                return Some(self.mk_sep(s));
            }
            return None;
        }
        let m = 1i128 << w;
        let mut o = Sep {
            c: s.c.rem_euclid(m),
            lin: vec![],
            tabs: vec![],
        };
        for (e, k) in s.lin {
            let k = center(k, w);
            if k != 0 {
                o.lin.push((e, k));
            }
        }
        for (b, t) in s.tabs {
            let (tl, th) = self.tinfo[t as usize];
            if tl > -m / 2 && th <= m / 2 {
                o.tabs.push((b, t));
                continue;
            }
            let tv = self.tabs[t as usize].clone();
            let v: Vec<u128> = tv.iter().map(|&x| center(x as i128, w) as u128).collect();
            if v.iter().any(|&x| x != 0) {
                let t = self.tab(v);
                o.tabs.push((b, t));
            }
        }
        if o.lin.is_empty() && o.tabs.len() <= 1 {
            if o.tabs.is_empty() {
                return Some(self.c(o.c as u128));
            }
            let (b, t) = o.tabs[0];
            let tv = self.tabs[t as usize].clone();
            let v: Vec<u128> = tv
                .iter()
                .map(|&x| (x as i128 + o.c).rem_euclid(m) as u128)
                .collect();
            return Some(self.mk_tab(b, v));
        }
        let (lo, hi) = self.sep_range(&o)?;
        let k = lo.div_euclid(m);
        if hi - k * m < m {
            o.c -= k * m;
            return Some(self.mk_sep(o));
        }
        Some(self.raw(
            K::Mod2(w, o.c, o.lin.into(), o.tabs.into()),
            0,
            (m - 1) as u128,
            false,
        ))
    }
    pub fn add(&mut self, w: u32, a: E, b: E) -> Option<E> {
        self.addk(w, a, b, 1)
    }
    pub fn sub(&mut self, w: u32, a: E, b: E) -> Option<E> {
        self.addk(w, a, b, -1)
    }
    fn addk(&mut self, w: u32, a: E, b: E, k: i128) -> Option<E> {
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) {
            let r = if k == 1 { x.wrapping_add(y) } else { x.wrapping_sub(y) } & mask(w);
            return Some(self.c(r));
        }
        if k == 1 {
            if self.konst(a) == Some(0) {
                return Some(b);
            }
        }
        if self.konst(b) == Some(0) {
            return Some(a);
        }
        // keep a base and a table over that same base together
        let multi = |s: &Self, e: E| matches!(s.k[e as usize], K::Sep(..) | K::Mod2(..));
        if !multi(self, a) && !multi(self, b) {
            let m = mask(w);
            if let Some(r) = self.un(if k == 1 { "add" } else { "sub" }, &[a, b], |v| {
                if k == 1 {
                    v[0].wrapping_add(v[1]) & m
                } else {
                    v[0].wrapping_sub(v[1]) & m
                }
            }) {
                return Some(r);
            }
        }
        let pa = self.parts(a, Some(w));
        let pb = self.parts(b, Some(w));
        let s = self.sep_add(&pa, &pb, k)?;
        self.finish_mod(w, s)
    }
    pub fn mul(&mut self, w: u32, a: E, b: E) -> Option<E> {
        let m = mask(w);
        let (a, b) = if self.konst(a).is_some() { (b, a) } else { (a, b) };
        let multi = matches!(self.k[a as usize], K::Sep(..) | K::Mod2(..));
        if !multi || self.konst(b).is_none() {
            if let Some(r) = self.un("mul", &[a, b], |v| v[0].wrapping_mul(v[1]) & m) {
                return Some(r);
            }
        }
        if let Some(k) = self.konst(b) {
            if k == 0 {
                return Some(0);
            }
            if k == 1 {
                return Some(a);
            }
            if w < 100 {
                let kc = center(k as i128, w);
                let pa = self.parts(a, Some(w));
                if let Some(s) = self.sep_add(&Sep::default(), &pa, kc) {
                    if let Some(r) = self.finish_mod(w, s) {
                        return Some(r);
                    }
                }
            } else {
                let pa = self.parts(a, None);
                if k < BIG as u128 {
                    if let Some(s) = self.sep_add(&Sep::default(), &pa, k as i128) {
                        if let Some(r) = self.finish_mod(w, s) {
                            return Some(r);
                        }
                    }
                }
            }
        }
        if let Some(r) = self.dist(BO::Mul, a, b, w) {
            return Some(r);
        }
        let hi = self.hi(a).checked_mul(self.hi(b)).filter(|&h| h <= m);
        let (x, y) = (a.min(b), a.max(b));
        let lo = if hi.is_some() { self.lo(a) * self.lo(b) } else { 0 };
        Some(self.raw(K::Bit(BO::Mul, x, y, w), lo, hi.unwrap_or(m), false))
    }
    /// push an operation into a small if-then-else
    fn dist(&mut self, op: BO, a: E, b: E, w: u32) -> Option<E> {
        for (x, y, sw) in [(a, b, false), (b, a, true)] {
            if let K::Ite(c, p, q) = self.k[x as usize] {
                let simple = |s: &Self, e: E| s.konst(e).is_some();
                if simple(self, p) && simple(self, q) {
                    let (r1, r2) = if sw {
                        (self.bit(op, y, p, w)?, self.bit(op, y, q, w)?)
                    } else {
                        (self.bit(op, p, y, w)?, self.bit(op, q, y, w)?)
                    };
                    return Some(self.ite(c, r1, r2));
                }
            }
        }
        None
    }
    pub fn bit(&mut self, op: BO, a: E, b: E, w: u32) -> Option<E> {
        match op {
            BO::And => Some(self.and(w, a, b)),
            BO::Or => self.or(w, a, b),
            BO::Xor => self.xor(w, a, b),
            BO::Shl => self.shl(w, a, b),
            BO::LShr => self.lshr(w, a, b),
            BO::Mul => self.mul(w, a, b),
            BO::UDiv => Some(self.udiv(a, b)),
            BO::URem => Some(self.urem(a, b)),
        }
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        if let Some(k) = self.konst(b) {
            return self.udivk(a, k);
        }
        if let Some(r) = self.un("udiv", &[a, b], |v| if v[1] == 0 { 0 } else { v[0] / v[1] }) {
            return r;
        }
        let lob = self.lo(b).max(1);
        let hi = self.hi(a) / lob;
        self.raw(K::Bit(BO::UDiv, a, b, 64), 0, hi.max(0), false)
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        if let Some(k) = self.konst(b) {
            return self.uremk(a, k);
        }
        if let Some(r) = self.un("urem", &[a, b], |v| if v[1] == 0 { 0 } else { v[0] % v[1] }) {
            return r;
        }
        if self.hi(a) < self.lo(b) {
            return a;
        }
        let hi = self.hi(a).min(self.hi(b).saturating_sub(1));
        self.raw(K::Bit(BO::URem, a, b, 64), 0, hi, false)
    }
    pub fn udivk(&mut self, a: E, m: u128) -> E {
        if m == 1 {
            return a;
        }
        if m == 0 {
            return 0;
        }
        if self.hi(a) < m {
            return 0;
        }
        if let K::Ite(c, x, y) = self.k[a as usize] {
            if self.konst(x).is_some() || self.konst(y).is_some() {
                let p = self.udivk(x, m);
                let q = self.udivk(y, m);
                return self.ite(c, p, q);
            }
        }
        if let Some(r) = self.un("udiv", &[a], |v| v[0] / m) {
            return r;
        }
        if let K::Sep(c, l, t) = self.k[a as usize].clone() {
            if m < BIG as u128 {
                let mi = m as i128;
                let mut q = Sep {
                    c: c.div_euclid(mi),
                    ..Default::default()
                };
                let mut r = Sep {
                    c: c.rem_euclid(mi),
                    ..Default::default()
                };
                for &(e, k) in l.iter() {
                    if k % mi == 0 {
                        q.lin.push((e, k / mi));
                    } else {
                        r.lin.push((e, k));
                    }
                }
                for &(b, t) in t.iter() {
                    let tv = self.tabs[t as usize].clone();
                    // split the table into multiples of m and the rest
                    let qv: Vec<u128> =
                        tv.iter().map(|&x| (x as i128).div_euclid(mi) as u128).collect();
                    let rv: Vec<u128> =
                        tv.iter().map(|&x| (x as i128).rem_euclid(mi) as u128).collect();
                    if qv.iter().any(|&x| x != 0) {
                        let t = self.tab(qv);
                        q.tabs.push((b, t));
                    }
                    if rv.iter().any(|&x| x != 0) {
                        let t = self.tab(rv);
                        r.tabs.push((b, t));
                    }
                }
                if let Some((lo, hi)) = self.sep_range(&r) {
                    if lo >= 0 && hi < mi {
                        if let Some((ql, qh)) = self.sep_range(&q) {
                            if ql >= 0 && qh < BIG {
                                return self.mk_sep(q);
                            }
                        }
                    }
                }
            }
        }
        if let K::UDiv(x, n) = self.k[a as usize] {
            if let Some(p) = n.checked_mul(m) {
                return self.udivk(x, p);
            }
        }
        let (lo, hi) = (self.lo(a) / m, self.hi(a) / m);
        self.raw(K::UDiv(a, m), lo, hi, hi <= 1)
    }
    pub fn uremk(&mut self, a: E, m: u128) -> E {
        if m <= 1 {
            return 0;
        }
        if self.hi(a) < m {
            return a;
        }
        if let K::Ite(c, x, y) = self.k[a as usize] {
            if self.konst(x).is_some() || self.konst(y).is_some() {
                let p = self.uremk(x, m);
                let q = self.uremk(y, m);
                return self.ite(c, p, q);
            }
        }
        let po2 = m.is_power_of_two();
        let seplike = match &self.k[a as usize] {
            K::Sep(..) => true,
            K::Mod2(w, ..) => po2 && m <= 1u128 << *w,
            _ => false,
        };
        if !seplike || m >= BIG as u128 {
            if let Some(r) = self.un("urem", &[a], |v| v[0] % m) {
                return r;
            }
        }
        if m < BIG as u128 {
            let mi = m as i128;
            let w = if po2 { Some(m.trailing_zeros()) } else { None };
            let s = if seplike || !matches!(self.k[a as usize], K::URem(..)) {
                self.parts(a, w)
            } else {
                self.parts(a, None)
            };
            if seplike {
                // flatten nested remainders, reduce all coefficients
                let mut acc = Sep {
                    c: s.c.rem_euclid(mi),
                    ..Default::default()
                };
                let mut ok = true;
                for &(e, k) in &s.lin {
                    let k = k.rem_euclid(mi);
                    if k == 0 {
                        continue;
                    }
                    let one = Sep {
                        c: 0,
                        lin: vec![(e, 1)],
                        tabs: vec![],
                    };
                    match self.sep_add(&acc, &one, k) {
                        Some(x) => acc = x,
                        None => ok = false,
                    }
                }
                for &(b, t) in &s.tabs {
                    let tv = self.tabs[t as usize].clone();
                    let v: Vec<i128> = tv.iter().map(|&x| (x as i128).rem_euclid(mi)).collect();
                    if v.iter().all(|&x| x == 0) {
                        continue;
                    }
                    // table affine mod m on a remainder or a sum: expand it
                    let a1 = if v.len() > 1 { v[1] } else { 0 };
                    let affine = v
                        .iter()
                        .enumerate()
                        .all(|(i, &x)| x == (a1 * i as i128).rem_euclid(mi));
                    if affine {
                        let inner = match self.k[b as usize] {
                            K::URem(y, mm) if mm % m == 0 => Some(y),
                            K::Sep(..) => Some(b),
                            _ => None,
                        };
                        if let Some(y) = inner {
                            // index i = value(b) - lo(b)
                            let lo = self.lo(b) as i128;
                            let py = self.parts(y, w);
                            acc.c = (acc.c - a1 * lo).rem_euclid(mi);
                            match self.sep_add(&acc, &py, a1) {
                                Some(x) => acc = x,
                                None => ok = false,
                            }
                            continue;
                        }
                    }
                    let vt: Vec<u128> = v.iter().map(|&x| x as u128).collect();
                    let t = self.tab(vt);
                    let one = Sep {
                        c: 0,
                        lin: vec![],
                        tabs: vec![(b, t)],
                    };
                    match self.sep_add(&acc, &one, 1) {
                        Some(x) => acc = x,
                        None => ok = false,
                    }
                }
                if ok {
                    // reduce once more
                    let mut o = Sep {
                        c: acc.c.rem_euclid(mi),
                        ..Default::default()
                    };
                    for (e, k) in acc.lin {
                        let k = k.rem_euclid(mi);
                        if k != 0 {
                            o.lin.push((e, k));
                        }
                    }
                    for (b, t) in acc.tabs {
                        let tv = self.tabs[t as usize].clone();
                        let v: Vec<u128> = tv
                            .iter()
                            .map(|&x| (x as i128).rem_euclid(mi) as u128)
                            .collect();
                        if v.iter().any(|&x| x != 0) {
                            let t = self.tab(v);
                            o.tabs.push((b, t));
                        }
                    }
                    if let Some((lo, hi)) = self.sep_range(&o) {
                        if lo >= 0 && hi < BIG {
                            let s = self.mk_sep(o);
                            if self.hi(s) < m {
                                return s;
                            }
                            if !matches!(self.k[s as usize], K::Sep(..)) {
                                if let Some(r) = self.un("urem", &[s], |v| v[0] % m) {
                                    return r;
                                }
                            }
                            return self.raw(K::URem(s, m), 0, m - 1, m == 2);
                        }
                    }
                }
            }
        }
        if let K::URem(y, mm) = self.k[a as usize] {
            if mm % m == 0 {
                return self.uremk(y, m);
            }
        }
        self.raw(K::URem(a, m), 0, m - 1, m == 2)
    }
    pub fn shl(&mut self, w: u32, a: E, b: E) -> Option<E> {
        if let Some(k) = self.konst(b) {
            if k >= w as u128 {
                return Some(0);
            }
            let p = self.c(1u128 << k);
            return self.mul(w, a, p);
        }
        let m = mask(w);
        if let Some(r) = self.un("shl", &[a, b], |v| {
            if v[1] >= w as u128 {
                0
            } else {
                (v[0] << v[1]) & m
            }
        }) {
            return Some(r);
        }
        if let Some(r) = self.dist(BO::Shl, a, b, w) {
            return Some(r);
        }
        Some(self.raw(K::Bit(BO::Shl, a, b, w), 0, m, false))
    }
    pub fn lshr(&mut self, w: u32, a: E, b: E) -> Option<E> {
        if let Some(k) = self.konst(b) {
            if k >= w as u128 {
                return Some(0);
            }
            return Some(self.udivk(a, 1u128 << k));
        }
        if let Some(r) = self.un("lshr", &[a, b], |v| {
            if v[1] >= w as u128 {
                0
            } else {
                v[0] >> v[1]
            }
        }) {
            return Some(r);
        }
        if let Some(r) = self.dist(BO::LShr, a, b, w) {
            return Some(r);
        }
        let hi = self.hi(a);
        Some(self.raw(K::Bit(BO::LShr, a, b, w), 0, hi, false))
    }
    fn tz(&self, e: E) -> u32 {
        match &self.k[e as usize] {
            K::C(v) => v.trailing_zeros(),
            K::Tab(_, t) => self.tabs[*t as usize].iter().map(|x| x.trailing_zeros()).min().unwrap(),
            K::Sep(c, l, t) | K::Mod2(_, c, l, t) => {
                let mut m = c.trailing_zeros();
                for (_, k) in l.iter() {
                    m = m.min(k.trailing_zeros());
                }
                for (_, t) in t.iter() {
                    m = m.min(
                        self.tabs[*t as usize]
                            .iter()
                            .map(|x| x.trailing_zeros())
                            .min()
                            .unwrap(),
                    );
                }
                m
            }
            K::Ite(_, a, b) => self.tz(*a).min(self.tz(*b)),
            _ => 0,
        }
    }
    fn bitlen(&self, e: E) -> u32 {
        128 - self.hi(e).leading_zeros()
    }
    pub fn and(&mut self, w: u32, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        let (a, b) = if self.konst(a).is_some() { (b, a) } else { (a, b) };
        if w == 1 {
            return self.band(&[a, b]);
        }
        if self.tz(a) >= self.bitlen(b) || self.tz(b) >= self.bitlen(a) {
            return 0;
        }
        if self.is_bool(a) && self.is_bool(b) {
            return self.band(&[a, b]);
        }
        if self.is_bool(a) && self.konst(b).map_or(false, |k| k & 1 == 1) {
            return a;
        }
        if let Some(k) = self.konst(b) {
            let k = k & mask(128 - self.hi(a).leading_zeros());
            if k == 0 {
                return 0;
            }
            let s = k.trailing_zeros();
            let n = (k >> s).count_ones();
            if (k >> s) == mask(n) {
                let x = self.udivk(a, 1u128 << s);
                let y = if n >= 128 { x } else { self.uremk(x, 1u128 << n) };
                let p = self.c(1u128 << s);
                if let Some(r) = self.mul(128, y, p) {
                    return r;
                }
            }
        }
        if let Some(r) = self.un("and", &[a, b], |v| v[0] & v[1]) {
            return r;
        }
        if let Some(r) = self.dist(BO::And, a, b, w) {
            return r;
        }
        let hi = self.hi(a).min(self.hi(b));
        let (x, y) = (a.min(b), a.max(b));
        self.raw(K::Bit(BO::And, x, y, w), 0, hi, false)
    }
    pub fn or(&mut self, w: u32, a: E, b: E) -> Option<E> {
        if a == b || self.konst(b) == Some(0) {
            return Some(a);
        }
        if self.konst(a) == Some(0) {
            return Some(b);
        }
        if w == 1 || (self.is_bool(a) && self.is_bool(b)) {
            return Some(self.bor(a, b));
        }
        if self.tz(a) >= self.bitlen(b) || self.tz(b) >= self.bitlen(a) {
            return self.add(w, a, b);
        }
        if let Some(r) = self.un("or", &[a, b], |v| v[0] | v[1]) {
            return Some(r);
        }
        if let Some(r) = self.dist(BO::Or, a, b, w) {
            return Some(r);
        }
        let hi = mask(self.bitlen(a).max(self.bitlen(b)));
        let lo = self.lo(a).max(self.lo(b));
        let (x, y) = (a.min(b), a.max(b));
        Some(self.raw(K::Bit(BO::Or, x, y, w), lo, hi, false))
    }
    pub fn xor(&mut self, w: u32, a: E, b: E) -> Option<E> {
        if a == b {
            return Some(0);
        }
        let (a, b) = if self.konst(a).is_some() { (b, a) } else { (a, b) };
        if let Some(k) = self.konst(b) {
            if k == 0 {
                return Some(a);
            }
            if k == 1 && self.is_bool(a) {
                return Some(self.not(a));
            }
            if k == mask(w) {
                return self.sub(w, b, a);
            }
        }
        if w == 1 || (self.is_bool(a) && self.is_bool(b)) {
            let nb = self.not(b);
            return Some(self.ite(a, nb, b));
        }
        if self.tz(a) >= self.bitlen(b) || self.tz(b) >= self.bitlen(a) {
            return self.add(w, a, b);
        }
        if let Some(r) = self.un("xor", &[a, b], |v| v[0] ^ v[1]) {
            return Some(r);
        }
        if let Some(r) = self.dist(BO::Xor, a, b, w) {
            return Some(r);
        }
        let hi = mask(self.bitlen(a).max(self.bitlen(b)));
        let (x, y) = (a.min(b), a.max(b));
        Some(self.raw(K::Bit(BO::Xor, x, y, w), 0, hi, false))
    }

    // ---------- booleans
    pub fn not(&mut self, a: E) -> E {
        match self.k[a as usize].clone() {
            K::C(v) => self.b(v == 0),
            K::Not(x) => x,
            K::Tab(b, t) => {
                let v = self.tabs[t as usize].iter().map(|&x| 1 - x).collect();
                self.mk_tab(b, v)
            }
            K::Var(_) => self.mk_tab(a, vec![1, 0]),
            _ => self.raw(K::Not(a), 0, 1, true),
        }
    }
    pub fn band(&mut self, xs: &[E]) -> E {
        let mut lits: Vec<E> = vec![];
        let mut st: Vec<E> = xs.to_vec();
        let mut tb: HashMap<E, E> = HashMap::new();
        while let Some(x) = st.pop() {
            match self.k[x as usize].clone() {
                K::C(0) => return 0,
                K::C(_) => {}
                K::And(v) => st.extend(v.iter()),
                K::Tab(..) | K::Var(_) => {
                    let b = if let K::Tab(bb, _) = self.k[x as usize] { bb } else { x };
                    match tb.get(&b).copied() {
                        None => {
                            tb.insert(b, x);
                        }
                        Some(y) => {
                            if x != y {
                                let r = self
                                    .un("band", &[x, y], |v| v[0] & v[1])
                                    .expect("same base");
                                if r == 0 {
                                    return 0;
                                }
                                if self.konst(r).is_some() {
                                    tb.remove(&b);
                                } else {
                                    tb.insert(b, r);
                                }
                            }
                        }
                    }
                }
                _ => lits.push(x),
            }
        }
        lits.extend(tb.values());
        lits.sort();
        lits.dedup();
        // complements and light absorption
        if lits.len() > 1 {
            let set: std::collections::HashSet<E> = lits.iter().copied().collect();
            let mut out = vec![];
            let mut changed = false;
            for &l in &lits {
                if let K::Not(y) = self.k[l as usize].clone() {
                    if set.contains(&y) {
                        return 0;
                    }
                    if let K::And(v) = self.k[y as usize].clone() {
                        if v.len() <= 64 {
                            // not(and v): drop members that are known true, vanish if one is known false
                            let mut rest = vec![];
                            let mut gone = false;
                            for &m in v.iter() {
                                if set.contains(&m) {
                                    changed = true;
                                    continue;
                                }
                                let nm = match self.k[m as usize] {
                                    K::Not(z) => Some(z),
                                    _ => {
                                        let z = self.not(m);
                                        Some(z)
                                    }
                                };
                                if nm.map_or(false, |z| set.contains(&z)) {
                                    gone = true;
                                    break;
                                }
                                rest.push(m);
                            }
                            if gone {
                                changed = true;
                                continue;
                            }
                            if rest.len() != v.len() {
                                let r = self.band(&rest);
                                let nr = self.not(r);
                                out.push(nr);
                                continue;
                            }
                        }
                    }
                }
                out.push(l);
            }
            if changed {
                return self.band(&out);
            }
        }
        match lits.len() {
            0 => 1,
            1 => lits[0],
            _ => self.raw(K::And(lits.into()), 0, 1, true),
        }
    }
    pub fn bor(&mut self, a: E, b: E) -> E {
        let na = self.not(a);
        let nb = self.not(b);
        let r = self.band(&[na, nb]);
        self.not(r)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        match self.k[c as usize].clone() {
            K::C(0) => return b,
            K::C(_) => return a,
            K::Not(x) => return self.ite(x, b, a),
            _ => {}
        }
        if let Some(&r) = self.itememo.get(&(c, a, b)) {
            return r;
        }
        let r = self.ite_(c, a, b);
        self.itememo.insert((c, a, b), r);
        r
    }
    fn ite_(&mut self, c: E, a: E, b: E) -> E {
        if self.is_bool(a) && self.is_bool(b) {
            if let Some(r) = self.un("ite", &[c, a, b], |v| if v[0] != 0 { v[1] } else { v[2] }) {
                return r;
            }
            let nc = self.not(c);
            return match (self.konst(a), self.konst(b)) {
                (Some(1), Some(0)) => c,
                (Some(0), Some(1)) => nc,
                (Some(1), _) => self.bor(c, b),
                (Some(0), _) => self.band(&[nc, b]),
                (_, Some(0)) => self.band(&[c, a]),
                (_, Some(1)) => self.bor(nc, a),
                _ => {
                    let x = self.band(&[c, a]);
                    let y = self.band(&[nc, b]);
                    self.bor(x, y)
                }
            };
        }
        if self.base(c).map_or(false, |b| b != c || matches!(self.k[c as usize], K::Var(_))) {
            if let Some(r) = self.un("ite", &[c, a, b], |v| if v[0] != 0 { v[1] } else { v[2] }) {
                return r;
            }
        }
        if let K::Ite(c2, x, y) = self.k[a as usize] {
            if c2 == c {
                return self.ite(c, x, b);
            }
            // ite(c, ite(c2, x, b), b) = ite(c & c2, x, b)
            if y == b {
                let cc = self.band(&[c, c2]);
                return self.ite(cc, x, b);
            }
            if x == b {
                let n2 = self.not(c2);
                let cc = self.band(&[c, n2]);
                return self.ite(cc, y, b);
            }
        }
        if let K::Ite(c2, x, y) = self.k[b as usize] {
            if c2 == c {
                return self.ite(c, a, y);
            }
            if x == a {
                let cc = self.bor(c, c2);
                return self.ite(cc, a, y);
            }
            if y == a {
                let n2 = self.not(c2);
                let cc = self.bor(c, n2);
                return self.ite(cc, a, x);
            }
        }
        let lo = self.lo(a).min(self.lo(b));
        let hi = self.hi(a).max(self.hi(b));
        self.raw(K::Ite(c, a, b), lo, hi, hi <= 1)
    }
    fn ite_leaves(&self, e: E, n: &mut usize) -> bool {
        match self.k[e as usize] {
            K::C(_) => true,
            K::Ite(_, a, b) => {
                *n += 1;
                *n < 24 && self.ite_leaves(a, n) && self.ite_leaves(b, n)
            }
            _ => false,
        }
    }
    fn map_ite(&mut self, e: E, f: &mut dyn FnMut(u128) -> bool) -> E {
        match self.k[e as usize] {
            K::C(v) => {
                let r = f(v);
                self.b(r)
            }
            K::Ite(c, a, b) => {
                let x = self.map_ite(a, f);
                let y = self.map_ite(b, f);
                self.ite(c, x, y)
            }
            _ => unreachable!(),
        }
    }
    fn try_map_ite(&mut self, e: E, mut f: impl FnMut(u128) -> bool) -> Option<E> {
        if let K::Ite(..) = self.k[e as usize] {
            let mut n = 0;
            if self.ite_leaves(e, &mut n) {
                return Some(self.map_ite(e, &mut f));
            }
        }
        None
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return 1;
        }
        if self.hi(a) < self.lo(b) || self.hi(b) < self.lo(a) {
            return 0;
        }
        let (a, b) = if self.konst(a).is_some() { (b, a) } else { (a, b) };
        if let Some(k) = self.konst(b) {
            if self.is_bool(a) {
                return if k == 1 { a } else { self.not(a) };
            }
            if let Some(r) = self.try_map_ite(a, |v| v == k) {
                return r;
            }
            if let K::Ite(c, x, y) = self.k[a as usize] {
                // one side decided by ranges
                let ex = k < self.lo(x) || k > self.hi(x);
                let ey = k < self.lo(y) || k > self.hi(y);
                if ex || ey || self.konst(x).is_some() || self.konst(y).is_some() {
                    let p = self.eq(x, b);
                    let q = self.eq(y, b);
                    return self.ite(c, p, q);
                }
            }
        }
        if self.is_bool(a) && self.is_bool(b) {
            let nb = self.not(b);
            return self.ite(a, b, nb);
        }
        if let Some(r) = self.un("eq", &[a, b], |v| (v[0] == v[1]) as u128) {
            return r;
        }
        if self.hi(a) < BIG as u128 && self.hi(b) < BIG as u128 {
            let pa = self.parts(a, None);
            let pb = self.parts(b, None);
            if let Some(d) = self.sep_add(&pa, &pb, -1) {
                if let Some((lo, hi)) = self.sep_range(&d) {
                    if lo > 0 || hi < 0 {
                        return 0;
                    }
                    if lo == 0 && hi == 0 {
                        return 1;
                    }
                }
                if d.lin.is_empty() && d.tabs.len() == 1 {
                    let (bb, t) = d.tabs[0];
                    let v = self.tabs[t as usize]
                        .iter()
                        .map(|&x| (x as i128 + d.c == 0) as u128)
                        .collect();
                    return self.mk_tab(bb, v);
                }
            }
        }
        let (x, y) = (a.min(b), a.max(b));
        self.raw(K::Eq(x, y), 0, 1, true)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b || self.lo(a) >= self.hi(b) {
            return 0;
        }
        if self.hi(a) < self.lo(b) {
            return 1;
        }
        if let Some(k) = self.konst(b) {
            if let Some(r) = self.try_map_ite(a, |v| v < k) {
                return r;
            }
            if let K::Ite(c, x, y) = self.k[a as usize] {
                if self.konst(x).is_some() || self.konst(y).is_some() {
                    let p = self.ult(x, b);
                    let q = self.ult(y, b);
                    return self.ite(c, p, q);
                }
            }
        }
        if let Some(k) = self.konst(a) {
            if let Some(r) = self.try_map_ite(b, |v| k < v) {
                return r;
            }
            if let K::Ite(c, x, y) = self.k[b as usize] {
                if self.konst(x).is_some() || self.konst(y).is_some() {
                    let p = self.ult(a, x);
                    let q = self.ult(a, y);
                    return self.ite(c, p, q);
                }
            }
        }
        if self.is_bool(a) && self.is_bool(b) {
            let na = self.not(a);
            return self.band(&[na, b]);
        }
        if let Some(r) = self.un("ult", &[a, b], |v| (v[0] < v[1]) as u128) {
            return r;
        }
        if self.hi(a) < BIG as u128 && self.hi(b) < BIG as u128 {
            let pa = self.parts(a, None);
            let pb = self.parts(b, None);
            if let Some(d) = self.sep_add(&pb, &pa, -1) {
                if let Some((lo, hi)) = self.sep_range(&d) {
                    if lo > 0 {
                        return 1;
                    }
                    if hi <= 0 {
                        return 0;
                    }
                }
                if d.lin.is_empty() && d.tabs.len() == 1 {
                    let (bb, t) = d.tabs[0];
                    let v = self.tabs[t as usize]
                        .iter()
                        .map(|&x| (x as i128 + d.c > 0) as u128)
                        .collect();
                    return self.mk_tab(bb, v);
                }
            }
        }
        self.raw(K::Ult(a, b), 0, 1, true)
    }
    pub fn slt(&mut self, w: u32, a: E, b: E) -> Option<E> {
        let h = 1u128 << (w - 1);
        if self.hi(a) < h && self.hi(b) < h {
            return Some(self.ult(a, b));
        }
        if self.lo(a) >= h && self.hi(b) < h {
            return Some(1);
        }
        if self.hi(a) < h && self.lo(b) >= h {
            return Some(0);
        }
        let hc = self.c(h);
        let x = self.add(w, a, hc)?;
        let y = self.add(w, b, hc)?;
        Some(self.ult(x, y))
    }
    pub fn trunc(&mut self, a: E, w: u32) -> E {
        if w >= 128 {
            return a;
        }
        self.uremk(a, 1u128 << w)
    }
    pub fn sext(&mut self, a: E, from: u32, to: u32) -> Option<E> {
        let h = 1u128 << (from - 1);
        if self.hi(a) < h {
            return Some(a);
        }
        let mt = mask(to);
        let mf = mask(from);
        if let Some(r) = self.un("sext", &[a], |v| if v[0] >= h { v[0] | (mt & !mf) } else { v[0] }) {
            return Some(r);
        }
        if self.is_bool(a) && from == 1 {
            let m = self.c(mt);
            return Some(self.ite(a, m, 0));
        }
        let hc = self.c(h);
        let c = self.ult(a, hc);
        let k = self.c(mt & !mf);
        let n = self.add(to, a, k)?;
        Some(self.ite(c, a, n))
    }
    pub fn byte(&mut self, e: E, k: u8) -> E {
        if k == 0 && self.hi(e) < 256 {
            return e;
        }
        if let Some(&r) = self.bytememo.get(&(e, k)) {
            return r;
        }
        let x = self.udivk(e, 1u128 << (8 * k as u32));
        let r = self.uremk(x, 256);
        self.bytememo.insert((e, k), r);
        r
    }

    /// replace table entries outside `mask` by the first entry inside it
    /// the table is the base itself wherever the mask allows
    pub fn identity_on(&self, b: E, t: T, m: T) -> bool {
        let lo = self.lo(b);
        let (tv, mv) = (&self.tabs[t as usize], &self.tabs[m as usize]);
        tv.iter().zip(mv.iter()).enumerate().all(|(i, (&x, &k))| k == 0 || x == lo + i as u128)
    }
    pub fn restrict_tab(&mut self, t: T, m: T) -> T {
        if let Some(&r) = self.rmemo.get(&(t, m)) {
            return r;
        }
        let tv = self.tabs[t as usize].clone();
        let mv = self.tabs[m as usize].clone();
        let first = mv.iter().position(|&x| x != 0);
        let r = match first {
            None => t,
            Some(f) => {
                let fv = tv[f];
                let v: Vec<u128> = tv
                    .iter()
                    .zip(mv.iter())
                    .map(|(&x, &k)| if k != 0 { x } else { fv })
                    .collect();
                self.tab(v)
            }
        };
        self.rmemo.insert((t, m), r);
        r
    }

    /// set of values an expression may take (over-approximation), if small
    pub fn values(&mut self, e: E, dom: &dyn Fn(E) -> Option<T>, limit: usize) -> Option<Vec<u128>> {
        let k = self.k[e as usize].clone();
        let mut out: Vec<u128> = match k {
            K::C(v) => vec![v],
            K::Tab(b, t) => {
                let tv = self.tabs[t as usize].clone();
                match dom(b) {
                    None => tv.to_vec(),
                    Some(m) => {
                        let mv = self.tabs[m as usize].clone();
                        tv.iter()
                            .zip(mv.iter())
                            .filter(|x| *x.1 != 0)
                            .map(|x| *x.0)
                            .collect()
                    }
                }
            }
            K::Ite(_, a, b) => {
                let mut x = self.values(a, dom, limit)?;
                x.extend(self.values(b, dom, limit)?);
                x
            }
            K::Sep(c, l, t) => {
                let mut acc: Vec<i128> = vec![c];
                let mut atoms: Vec<Vec<i128>> = vec![];
                for &(_, _) in l.iter() {
                    return None;
                }
                for &(b, t) in t.iter() {
                    let tv = self.tabs[t as usize].clone();
                    let vs: Vec<i128> = match dom(b) {
                        None => tv.iter().map(|&x| x as i128).collect(),
                        Some(m) => {
                            let mv = self.tabs[m as usize].clone();
                            tv.iter()
                                .zip(mv.iter())
                                .filter(|x| *x.1 != 0)
                                .map(|x| *x.0 as i128)
                                .collect()
                        }
                    };
                    atoms.push(vs);
                }
                for vs in atoms {
                    let mut n: Vec<i128> = vec![];
                    for &x in &acc {
                        for &y in &vs {
                            n.push(x + y);
                        }
                    }
                    n.sort();
                    n.dedup();
                    if n.len() > limit {
                        return None;
                    }
                    acc = n;
                }
                acc.into_iter().filter(|&x| x >= 0).map(|x| x as u128).collect()
            }
            _ => {
                let (lo, hi) = (self.lo(e), self.hi(e));
                if hi - lo >= limit as u128 {
                    return None;
                }
                match dom(e) {
                    None => (lo..=hi).collect(),
                    Some(m) => {
                        let mv = self.tabs[m as usize].clone();
                        (lo..=hi)
                            .filter(|v| mv[(v - lo) as usize] != 0)
                            .collect()
                    }
                }
            }
        };
        out.sort();
        out.dedup();
        if out.len() > limit {
            return None;
        }
        Some(out)
    }

    /// for debugging
    pub fn show(&self, e: E, depth: usize) -> String {
        let k = &self.k[e as usize];
        if let K::C(v) = k {
            return v.to_string();
        }
        if depth == 0 {
            return format!("e{e}");
        }
        let mut s = format!("e{e}[{}..{}]=", self.lo(e), self.hi(e));
        match k {
            K::Tab(b, t) => s += &format!("Tab({}, {:?})", self.show(*b, depth - 1), self.tabs[*t as usize].iter().take(300).collect::<Vec<_>>()),
            K::Sep(c, l, t) => {
                s += &format!("Sep({c}");
                for (y, k) in l.iter() {
                    s += &format!(" + {k}*{}", self.show(*y, depth - 1));
                }
                for (b, t) in t.iter() {
                    s += &format!(" + tab{t}({})", self.show(*b, depth - 1));
                }
                s += ")";
            }
            k => s += &format!("{k:?} {:?}", self.children(e).iter().map(|&c| self.show(c, depth - 1)).collect::<Vec<_>>()),
        }
        s
    }

    /// concrete evaluation under an assignment of the variables
    pub fn eval(&self, e: E, asg: &[u128], memo: &mut HashMap<E, u128>) -> u128 {
        let mut stack = vec![(e, false)];
        while let Some((x, ready)) = stack.pop() {
            if memo.contains_key(&x) {
                continue;
            }
            if !ready {
                stack.push((x, true));
                for ch in self.children(x) {
                    if !memo.contains_key(&ch) {
                        stack.push((ch, false));
                    }
                }
                continue;
            }
            let g = |y: &E| memo[y];
            let v = match &self.k[x as usize] {
                K::C(v) => *v,
                K::Var(i) => asg[*i as usize],
                K::Tab(b, t) => self.tabs[*t as usize][(g(b) - self.lo(*b)) as usize],
                K::Sep(c, l, t) | K::Mod2(_, c, l, t) => {
                    let mut s = *c;
                    for (y, k) in l.iter() {
                        s = s.wrapping_add((g(y) as i128).wrapping_mul(*k));
                    }
                    for (b, t) in t.iter() {
                        s = s.wrapping_add(
                            self.tabs[*t as usize][(g(b) - self.lo(*b)) as usize] as i128,
                        );
                    }
                    match &self.k[x as usize] {
                        K::Mod2(w, ..) => (s as u128) & mask(*w),
                        _ => s as u128,
                    }
                }
                K::URem(a, m) => g(a) % m,
                K::UDiv(a, m) => g(a) / m,
                K::Bit(op, a, b, w) => {
                    let (a, b) = (g(a), g(b));
                    let m = mask(*w);
                    match op {
                        BO::And => a & b,
                        BO::Or => a | b,
                        BO::Xor => a ^ b,
                        BO::Shl => {
                            if b >= *w as u128 {
                                0
                            } else {
                                (a << b) & m
                            }
                        }
                        BO::LShr => {
                            if b >= *w as u128 {
                                0
                            } else {
                                a >> b
                            }
                        }
                        BO::Mul => a.wrapping_mul(b) & m,
                        BO::UDiv => {
                            if b == 0 {
                                0
                            } else {
                                a / b
                            }
                        }
                        BO::URem => {
                            if b == 0 {
                                0
                            } else {
                                a % b
                            }
                        }
                    }
                }
                K::Ite(c, a, b) => {
                    if g(c) != 0 {
                        g(a)
                    } else {
                        g(b)
                    }
                }
                K::Eq(a, b) => (g(a) == g(b)) as u128,
                K::Ult(a, b) => (g(a) < g(b)) as u128,
                K::Not(a) => 1 - g(a),
                K::And(v) => v.iter().all(|y| g(y) != 0) as u128,
            };
            memo.insert(x, v);
        }
        memo[&e]
    }
    pub fn children(&self, e: E) -> Vec<E> {
        match &self.k[e as usize] {
            K::C(_) | K::Var(_) => vec![],
            K::Tab(b, _) => vec![*b],
            K::Sep(_, l, t) | K::Mod2(_, _, l, t) => {
                l.iter().map(|x| x.0).chain(t.iter().map(|x| x.0)).collect()
            }
            K::URem(a, _) | K::UDiv(a, _) | K::Not(a) => vec![*a],
            K::Bit(_, a, b, _) | K::Eq(a, b) | K::Ult(a, b) => vec![*a, *b],
            K::Ite(a, b, c) => vec![*a, *b, *c],
            K::And(v) => v.to_vec(),
        }
    }
}
