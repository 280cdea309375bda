//! Multivariate polynomials with rational coefficients, and fractions whose denominators are products of
//! polynomials ("atoms") that were divided by and are therefore not zero on the current path.
use num::{BigRational, One, Signed, Zero};
use std::cell::RefCell;
use std::collections::BTreeMap;

pub type Q = BigRational;
pub type Mono = Vec<u8>; // exponents, trailing zeros trimmed; Ord is the lexicographic monomial order

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Poly(pub BTreeMap<Mono, Q>);

thread_local! {
    /// v^2 -> polynomial, for variables standing for square roots, sines, ...
    pub static RULES: RefCell<BTreeMap<usize, Poly>> = RefCell::new(BTreeMap::new());
    pub static ATOMS: RefCell<Vec<Poly>> = RefCell::new(vec![]);
}

fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    let (l, s) = if a.len() >= b.len() { (a, b) } else { (b, a) };
    let mut r = l.clone();
    for (i, e) in s.iter().enumerate() { r[i] += e }
    r
}
fn mono_div(a: &Mono, b: &Mono) -> Option<Mono> {
    if b.len() > a.len() { return None }
    let mut r = a.clone();
    for (i, e) in b.iter().enumerate() { if r[i] < *e { return None } r[i] -= e }
    while r.last() == Some(&0) { r.pop(); }
    Some(r)
}

impl Poly {
    pub fn zero() -> Self { Poly(BTreeMap::new()) }
    pub fn constant(q: Q) -> Self { let mut m = BTreeMap::new(); if !q.is_zero() { m.insert(vec![], q); } Poly(m) }
    pub fn var(i: usize) -> Self { let mut v = vec![0; i + 1]; v[i] = 1; let mut m = BTreeMap::new(); m.insert(v, Q::one()); Poly(m) }
    pub fn is_zero(&self) -> bool { self.0.is_empty() }
    pub fn as_const(&self) -> Option<Q> {
        match self.0.len() { 0 => Some(Q::zero()), 1 => self.0.get(&vec![]).cloned(), _ => None }
    }
    fn add_term(&mut self, m: Mono, q: Q) {
        use std::collections::btree_map::Entry::*;
        match self.0.entry(m) {
            Vacant(v) => { if !q.is_zero() { v.insert(q); } }
            Occupied(mut o) => { let s = o.get() + q; if s.is_zero() { o.remove(); } else { *o.get_mut() = s } }
        }
    }
    pub fn add(&self, o: &Poly) -> Poly { let mut r = self.clone(); for (m, q) in &o.0 { r.add_term(m.clone(), q.clone()) } r }
    pub fn sub(&self, o: &Poly) -> Poly { let mut r = self.clone(); for (m, q) in &o.0 { r.add_term(m.clone(), -q.clone()) } r }
    pub fn scale(&self, q: &Q) -> Poly { if q.is_zero() { return Poly::zero() } Poly(self.0.iter().map(|(m, c)| (m.clone(), c * q)).collect()) }
    pub fn mul(&self, o: &Poly) -> Poly {
        let mut r = Poly::zero();
        for (m, q) in &self.0 { for (n, p) in &o.0 { r.add_term(mono_mul(m, n), q * p) } }
        r.reduced()
    }
    fn mul_raw(&self, o: &Poly) -> Poly {
        let mut r = Poly::zero();
        for (m, q) in &self.0 { for (n, p) in &o.0 { r.add_term(mono_mul(m, n), q * p) } }
        r
    }
    /// Apply the rules v^2 -> p until none applies.
    pub fn reduced(self) -> Poly {
        RULES.with(|rules| {
            let rules = rules.borrow();
            if rules.is_empty() { return self }
            let mut p = self;
            loop {
                let hit = p.0.iter().find_map(|(m, q)| m.iter().enumerate().find(|(i, e)| **e >= 2 && rules.contains_key(i)).map(|(i, _)| (m.clone(), q.clone(), i)));
                let Some((m, q, i)) = hit else { return p };
                p.0.remove(&m);
                let mut n = m.clone();
                n[i] -= 2;
                while n.last() == Some(&0) { n.pop(); }
                let mut t = BTreeMap::new();
                t.insert(n, q);
                let t = Poly(t).mul_raw(&rules[&i]);
                p = p.add(&t);
            }
        })
    }
    /// Exact division (None if it does not divide).
    pub fn div_exact(&self, d: &Poly) -> Option<Poly> {
        if d.is_zero() { return None }
        if let Some(c) = d.as_const() { return Some(self.scale(&(Q::one() / c))) }
        let (lm, lc) = d.0.iter().next_back().unwrap();
        let (lm, lc) = (lm.clone(), lc.clone());
        let mut rem = self.clone();
        let mut quo = Poly::zero();
        while let Some((m, c)) = rem.0.iter().next_back().map(|(m, c)| (m.clone(), c.clone())) {
            let t = mono_div(&m, &lm)?;
            let q = c / &lc;
            for (n, p) in &d.0 { rem.add_term(mono_mul(&t, n), -(&q * p)) }
            quo.add_term(t, q);
        }
        Some(quo)
    }
    /// (leading coefficient, monic polynomial)
    pub fn monic(&self) -> (Q, Poly) {
        let c = self.0.iter().next_back().unwrap().1.clone();
        let p = self.scale(&(Q::one() / c.clone()));
        (c, p)
    }
    /// A multiple (by a positive constant) of a polynomial in integer variables, as an integer term "(+ 0 ...)".
    pub fn smt_int(&self, names: &[String], ints: &[bool]) -> Option<String> {
        let mut l = num::BigInt::one();
        for (m, q) in &self.0 {
            if m.iter().enumerate().any(|(i, e)| *e > 0 && !ints[i]) { return None }
            l = num::integer::lcm(l, q.denom().clone());
        }
        if self.0.is_empty() { return None }
        let ts: Vec<String> = self.0.iter().map(|(m, q)| {
            let c = (q * Q::from_integer(l.clone())).to_integer();
            let c = if c.is_negative() { format!("(- {})", -c) } else { c.to_string() };
            let mut f = vec![c];
            for (i, e) in m.iter().enumerate() { for _ in 0..*e { f.push(names[i].clone()) } }
            if f.len() == 1 { f[0].clone() } else { format!("(* {})", f.join(" ")) }
        }).collect();
        Some(format!("(+ 0 {})", ts.join(" ")))
    }
    pub fn smt(&self, names: &[String]) -> String {
        if self.is_zero() { return "0.0".into() }
        let mut ts = vec![];
        for (m, q) in &self.0 {
            let mut f = vec![rat(q)];
            for (i, e) in m.iter().enumerate() { for _ in 0..*e { f.push(names[i].clone()) } }
            ts.push(if f.len() == 1 { f[0].clone() } else { format!("(* {})", f.join(" ")) });
        }
        if ts.len() == 1 { ts[0].clone() } else { format!("(+ {})", ts.join(" ")) }
    }
}
pub fn rat(q: &Q) -> String {
    let a = q.abs();
    let s = if a.is_integer() { format!("{}.0", a.numer()) } else { format!("(/ {}.0 {}.0)", a.numer(), a.denom()) };
    if q.is_negative() { format!("(- {s})") } else { s }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Frac { pub num: Poly, pub den: BTreeMap<usize, u32> }

impl Frac {
    pub fn poly(p: Poly) -> Self { Frac { num: p, den: BTreeMap::new() } }
    pub fn is_zero(&self) -> bool { self.num.is_zero() }
    pub fn as_const(&self) -> Option<Q> { if self.den.is_empty() { self.num.as_const() } else { None } }
    fn cancel(mut self) -> Self {
        if self.num.is_zero() { self.den.clear(); return self }
        let keys: Vec<usize> = self.den.keys().copied().collect();
        ATOMS.with(|at| {
            let at = at.borrow();
            for k in keys {
                while self.den[&k] > 0 {
                    match self.num.div_exact(&at[k]) { Some(q) => { self.num = q; *self.den.get_mut(&k).unwrap() -= 1 } None => break }
                }
                if self.den[&k] == 0 { self.den.remove(&k); }
            }
        });
        self
    }
    pub fn mul(&self, o: &Frac) -> Frac {
        let mut den = self.den.clone();
        for (k, e) in &o.den { *den.entry(*k).or_insert(0) += e }
        Frac { num: self.num.mul(&o.num), den }.cancel()
    }
    fn lift(&self, den: &BTreeMap<usize, u32>) -> Poly {
        let mut p = self.num.clone();
        ATOMS.with(|at| for (k, e) in den { for _ in self.den.get(k).copied().unwrap_or(0)..*e { p = p.mul(&at.borrow()[*k]) } });
        p
    }
    pub fn add(&self, o: &Frac, minus: bool) -> Frac {
        let mut den = self.den.clone();
        for (k, e) in &o.den { let x = den.entry(*k).or_insert(0); *x = (*x).max(*e) }
        let (a, b) = (self.lift(&den), o.lift(&den));
        Frac { num: if minus { a.sub(&b) } else { a.add(&b) }, den }.cancel()
    }
    pub fn neg(&self) -> Frac { Frac { num: self.num.scale(&-Q::one()), den: self.den.clone() } }
    /// 1/self; the caller has established that self is not zero on this path.
    pub fn recip(&self) -> Frac {
        let mut num = Poly::constant(Q::one());
        ATOMS.with(|at| for (k, e) in &self.den { for _ in 0..*e { num = num.mul(&at.borrow()[*k]) } });
        let mut rest = self.num.clone();
        let mut den: BTreeMap<usize, u32> = BTreeMap::new();
        let n = ATOMS.with(|a| a.borrow().len());
        for k in 0..n {
            if rest.as_const().is_some() { break }
            while let Some(q) = ATOMS.with(|a| rest.div_exact(&a.borrow()[k])) { rest = q; *den.entry(k).or_insert(0) += 1; if rest.as_const().is_some() { break } }
        }
        match rest.as_const() {
            Some(c) => num = num.scale(&(Q::one() / c)),
            None => {
                let (c, m) = rest.monic();
                num = num.scale(&(Q::one() / c));
                let k = ATOMS.with(|a| { let mut a = a.borrow_mut(); a.push(m); a.len() - 1 });
                *den.entry(k).or_insert(0) += 1;
            }
        }
        Frac { num, den }.cancel()
    }
    /// A list of factors whose product has the sign of this fraction.
    pub fn sign_factors(&self) -> Vec<Poly> {
        let mut v = vec![self.num.clone()];
        ATOMS.with(|a| for (k, e) in &self.den { if e % 2 == 1 { v.push(a.borrow()[*k].clone()) } });
        v
    }
}
