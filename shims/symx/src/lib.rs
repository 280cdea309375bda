//! Verification by symbolic execution over the real numbers.
//!
//! The code under contract is compiled with `R` in the place of its float type and run on variables.
//! Arithmetic builds exact rational functions; a comparison that the path so far does not decide splits
//! the path (both sides are explored unless z3 refutes one); `ensure` states the postcondition.  Every
//! path is explored, so a discharged clause holds for all real inputs satisfying the assumptions.
//! What is dropped: rounding (floats are taken as real numbers).
pub mod poly;
use num::{BigInt, BigRational, One, Signed as _, Zero};
use poly::*;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::io::Write;
use std::ops::*;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

/// A real number: an entry of the value table, or a literal (so that constants can be `const`).
#[derive(Clone, Copy)]
pub enum R { I(u32), L(&'static str), N(i64) }
#[derive(Clone, Debug)]
enum Val { F(Frac), NaN, /* infinite: 1, -1, or 0 where the sign is not known */ Inf(i8) }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Signs { neg: bool, zero: bool, pos: bool }
const ANY: Signs = Signs { neg: true, zero: true, pos: true };

#[derive(Clone)]
enum Made { Var, Exp(R), Pow(R, Q), Sqrt(Poly), Ln(R), Fun(Vec<R>) }

struct Stop(&'static str);

#[derive(Default)]
struct Outcome { paths: u64, discharged: u64, by_algebra: u64, by_z3: u64, failed: Vec<String>, undecided: Vec<String> }

#[derive(Default)]
struct State {
    vals: Vec<Val>,
    names: Vec<String>,
    ints: Vec<bool>,
    known: BTreeMap<Poly, Signs>,      // monic polynomial -> possible signs on this path
    extra: Vec<String>,                // SMT assertions (axioms of introduced variables)
    sqrt: HashMap<Poly, u32>,
    funs: HashMap<(String, String), u32>,
    trig: HashMap<String, (R, R)>,
    made: HashMap<usize, Made>,        // how a variable was introduced, for derivatives
    prefix: Vec<usize>,                // choices to replay
    taken: Vec<(usize, usize)>,        // (choice, number of alternatives) on this run
    unknown: bool,                     // a feasibility question was not answered on this path
    cond: Vec<String>,
}

thread_local! {
    static S: RefCell<State> = RefCell::new(State::default());
    static OUT: RefCell<BTreeMap<String, Outcome>> = RefCell::new(BTreeMap::new());
    static STAT: RefCell<(u64, u64, f64, u64)> = RefCell::new((0, 0, 0.0, 0)); // paths, queries, z3 seconds, vacuous
    static Z3: RefCell<Option<(std::process::Child, std::process::ChildStdin, std::io::BufReader<std::process::ChildStdout>)>> = RefCell::new(None);
    static TIMEOUT: RefCell<u32> = RefCell::new(4000);
}

thread_local! { static ABS_VAR: RefCell<bool> = RefCell::new(false); }
/// Represent |x| by a variable instead of splitting the path.
pub fn abs_as_variable(on: bool) { ABS_VAR.with(|a| *a.borrow_mut() = on) }
pub fn z3_timeout_ms(t: u32) { TIMEOUT.with(|x| *x.borrow_mut() = t) }

// ------------------------------------------------------------------------------------------------ z3
enum Sat { Yes(String), No, Unknown }

fn z3(asserts: &[String], want_model: bool) -> Sat {
    use std::io::BufRead;
    let t0 = std::time::Instant::now();
    let (decl, names) = S.with(|s| {
        let s = s.borrow();
        let mut d = String::new();
        for (i, n) in s.names.iter().enumerate() { d += &format!("(declare-const {} {})\n", n, if s.ints[i] { "Int" } else { "Real" }) }
        (d, s.names.clone())
    });
    let text = format!(
        "(reset)\n(set-option :timeout {})\n{}{}\n(check-sat)\n(echo \"done1\")\n",
        TIMEOUT.with(|t| *t.borrow()), decl, asserts.iter().map(|a| format!("(assert {a})")).collect::<Vec<_>>().join("\n")
    );
    let r = Z3.with(|z| {
        let mut z = z.borrow_mut();
        if z.is_none() {
            let exe = if std::path::Path::new("/usr/local/bin/z3-new").exists() { "z3-new" } else { "z3" };
            let mut c = std::process::Command::new(exe).arg("-in").stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).spawn().expect("z3");
            let i = c.stdin.take().unwrap();
            let o = std::io::BufReader::new(c.stdout.take().unwrap());
            *z = Some((c, i, o));
        }
        let (_, i, o) = z.as_mut().unwrap();
        i.write_all(text.as_bytes()).unwrap();
        i.flush().unwrap();
        let mut ans = String::new();
        loop { let mut l = String::new(); if o.read_line(&mut l).unwrap() == 0 { ans = "dead".into(); break } if l.trim() == "done1" { break } ans += l.trim(); ans.push(' ') }
        let a = ans.trim().to_string();
        if a == "unsat" { return Sat::No }
        if a == "sat" {
            let mut m = String::new();
            if want_model && !names.is_empty() {
                i.write_all(format!("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 20)\n(get-value ({}))\n(echo \"done2\")\n", names.join(" ")).as_bytes()).unwrap();
                i.flush().unwrap();
                loop { let mut l = String::new(); if o.read_line(&mut l).unwrap() == 0 || l.trim() == "done2" { break } m += l.trim(); m.push(' ') }
            }
            return Sat::Yes(m)
        }
        if a == "dead" { *z = None }
        Sat::Unknown
    });
    if let Sat::Unknown = r { if std::env::var("SYMX_DEBUG").is_ok() { eprintln!("{text}") } }
    STAT.with(|s| { let mut s = s.borrow_mut(); s.1 += 1; s.2 += t0.elapsed().as_secs_f64() });
    r
}

fn path_asserts() -> Vec<String> {
    S.with(|s| {
        let s = s.borrow();
        // names of integer variables are used as reals
        let nm: Vec<String> = s.names.iter().enumerate().map(|(i, n)| if s.ints[i] { format!("(to_real {n})") } else { n.clone() }).collect();
        let mut v = s.extra.clone();
        for (p, g) in &s.known {
            if *g == ANY { continue }
            let t = match p.smt_int(&s.names, &s.ints) { Some(t) => t, None => p.smt(&nm) };
            v.push(sign_assert(&t, *g));
        }
        v
    })
}
/// a term with the sign of p, over the integers where p is an integer
fn sign_term(p: &Poly) -> String { S.with(|s| { let s = s.borrow(); p.smt_int(&s.names, &s.ints) }).unwrap_or_else(|| p.smt(&smt_names())) }
fn zero_of(t: &str) -> &'static str { if t.starts_with("(+ 0 ") { "0" } else { "0.0" } }
fn sign_assert(t: &str, g: Signs) -> String {
    let z = zero_of(t);
    match (g.neg, g.zero, g.pos) {
        (true, false, false) => format!("(< {t} {z})"),
        (true, true, false) => format!("(<= {t} {z})"),
        (false, true, false) => format!("(= {t} {z})"),
        (false, true, true) => format!("(>= {t} {z})"),
        (false, false, true) => format!("(> {t} {z})"),
        (true, false, true) => format!("(not (= {t} {z}))"),
        (false, false, false) => "false".into(),
        _ => "true".into(),
    }
}
fn smt_names() -> Vec<String> { S.with(|s| { let s = s.borrow(); s.names.iter().enumerate().map(|(i, n)| if s.ints[i] { format!("(to_real {n})") } else { n.clone() }).collect() }) }

// ------------------------------------------------------------------------------------------------ choices
/// Take one of several alternatives; `feasible` has been filtered by the caller.
fn choose(n: usize) -> usize {
    S.with(|s| {
        let mut s = s.borrow_mut();
        let k = s.taken.len();
        let c = if k < s.prefix.len() { s.prefix[k] } else { 0 };
        s.taken.push((c, n));
        c
    })
}
fn sign_of_poly(p: &Poly, ask: Signs) -> Ordering {
    if let Some(c) = p.as_const() { return c.cmp(&Q::zero()) }
    let (c, m) = p.monic();
    let flip = c.is_negative();
    let k = S.with(|s| s.borrow().known.get(&m).copied().unwrap_or(ANY));
    let mut opts: Vec<(Signs, Ordering)> = vec![];
    // the partition asked for (to keep the number of paths low, e.g. only "< 0 or not")
    let only = |n, z, p2| Signs { neg: n, zero: z, pos: p2 };
    let part: Vec<(Signs, Ordering)> = if ask == ANY {
        vec![(only(true, false, false), Ordering::Less), (only(false, true, false), Ordering::Equal), (only(false, false, true), Ordering::Greater)]
    } else if ask == only(true, false, false) {
        // p < 0 or not
        if !flip { vec![(only(true, false, false), Ordering::Less), (only(false, true, true), Ordering::Greater)] } else { vec![(only(false, false, true), Ordering::Greater), (only(true, true, false), Ordering::Less)] }
    } else if ask == only(false, false, true) {
        if !flip { vec![(only(false, false, true), Ordering::Greater), (only(true, true, false), Ordering::Less)] } else { vec![(only(true, false, false), Ordering::Less), (only(false, true, true), Ordering::Greater)] }
    } else {
        vec![(only(false, true, false), Ordering::Equal), (only(true, false, true), Ordering::Greater)]
    };
    for (g, o) in part {
        let i = Signs { neg: g.neg && k.neg, zero: g.zero && k.zero, pos: g.pos && k.pos };
        if i.neg || i.zero || i.pos { opts.push((i, o)) }
    }
    let mut chosen = None;
    if opts.len() > 1 {
        let surv: Vec<(Signs, Ordering)> = survivors(&m, &opts);
        if surv.is_empty() { panic_any(Stop("infeasible")) }
        let n = surv.len();
        if n > 1 { chosen = Some(surv[choose(n)]) } else { chosen = Some(surv[0]) }
    }
    let (g, o) = chosen.unwrap_or_else(|| if opts.is_empty() { panic_any(Stop("infeasible")) } else { opts[0] });
    S.with(|s| { let mut s = s.borrow_mut(); s.known.insert(m.clone(), g); });
    if flip { o.reverse() } else { o }
}

thread_local! { static MEMO: RefCell<HashMap<String, Vec<bool>>> = RefCell::new(HashMap::new()); }
fn survivors(m: &Poly, opts: &[(Signs, Ordering)]) -> Vec<(Signs, Ordering)> {
    let base = path_asserts();
    let t = sign_term(m);
    let key = format!("{}|{}|{:?}", base.join(";"), t, opts.iter().map(|o| o.0).collect::<Vec<_>>());
    if let Some(v) = MEMO.with(|x| x.borrow().get(&key).cloned()) {
        return opts.iter().zip(v).filter(|(_, b)| *b).map(|(o, _)| *o).collect();
    }
    let mut keep = vec![];
    for (g, _) in opts {
        let mut a = base.clone();
        a.push(sign_assert(&t, *g));
        keep.push(match z3(&a, false) { Sat::No => false, Sat::Yes(_) => true, Sat::Unknown => { S.with(|s| s.borrow_mut().unknown = true); true } });
    }
    MEMO.with(|x| x.borrow_mut().insert(key, keep.clone()));
    opts.iter().zip(keep).filter(|(_, b)| *b).map(|(o, _)| *o).collect()
}

fn frac_sign(f: &Frac, ask: Signs) -> Ordering {
    if f.is_zero() { return Ordering::Equal }
    let fs = f.sign_factors();
    if fs.len() == 1 { return sign_of_poly(&fs[0], ask) }
    // denominators are not zero; their signs are split separately
    let mut o = sign_of_poly(&fs[0], ANY);
    for d in &fs[1..] { if o == Ordering::Equal { return o } if sign_of_poly(d, ANY) == Ordering::Less { o = o.reverse() } }
    o
}

// ------------------------------------------------------------------------------------------------ R
fn push(v: Val) -> R { S.with(|s| { let mut s = s.borrow_mut(); s.vals.push(v); R::I(s.vals.len() as u32 - 1) }) }
fn val(r: R) -> Val {
    match r {
        R::I(i) => S.with(|s| s.borrow().vals[i as usize].clone()),
        R::L(t) => Val::F(Frac::poly(Poly::constant(parse_literal(t)))),
        R::N(n) => Val::F(Frac::poly(Poly::constant(Q::from_integer(BigInt::from(n))))),
    }
}
fn parse_literal(s: &str) -> Q {
    let s: String = s.chars().filter(|c| *c != '_').collect();
    if let Some(k) = s.find('/') { return Q::new(s[..k].parse().unwrap(), s[k + 1..].parse().unwrap()) }
    let s = s.trim_end_matches("f64").trim_end_matches("f32").to_string();
    let (m, e) = match s.find(['e', 'E']) { Some(k) => (s[..k].to_string(), s[k + 1..].parse::<i32>().unwrap()), None => (s.clone(), 0) };
    let (i, f) = match m.find('.') { Some(k) => (m[..k].to_string(), m[k + 1..].to_string()), None => (m.clone(), String::new()) };
    let mut n: BigInt = format!("{i}{f}").parse().unwrap();
    let mut d = BigInt::one();
    let e = e - f.len() as i32;
    for _ in 0..e.abs() { if e > 0 { n *= 10 } else { d *= 10 } }
    Q::new(n, d)
}
fn of(f: Frac) -> R { push(Val::F(f)) }

fn new_var(name: &str, int: bool) -> usize {
    S.with(|s| {
        let mut s = s.borrow_mut();
        let mut n: String = name.chars().map(|c| if c.is_alphanumeric() || c == '_' { c } else { '_' }).collect();
        if s.names.contains(&n) { n = format!("{n}_{}", s.names.len()) }
        s.names.push(n);
        s.ints.push(int);
        s.names.len() - 1
    })
}

impl R {
    pub fn var(name: &str) -> R { let i = new_var(name, false); S.with(|s| s.borrow_mut().made.insert(i, Made::Var)); of(Frac::poly(Poly::var(i))) }
    pub fn int_var(name: &str) -> R { let i = new_var(name, true); of(Frac::poly(Poly::var(i))) }
    pub fn q(n: i64, d: i64) -> R { of(Frac::poly(Poly::constant(Q::new(n.into(), d.into())))) }
    pub const fn int(n: i64) -> R { R::N(n) }
    pub fn rational(q: Q) -> R { of(Frac::poly(Poly::constant(q))) }
    /// a float literal, taken as the decimal number it spells
    pub const fn lit(s: &'static str) -> R { R::L(s) }
    pub fn from_f64_exact(x: f64) -> R { R::rational(BigRational::from_float(x).expect("finite")) }
    pub fn nan() -> R { push(Val::NaN) }
    pub fn is_nan(self) -> bool { matches!(val(self), Val::NaN) }
    pub fn is_finite(self) -> bool { matches!(val(self), Val::F(_)) }
    pub fn is_infinite(self) -> bool { matches!(val(self), Val::Inf(_)) }
    fn frac(self) -> Frac { match val(self) { Val::F(f) => f, _ => panic_any(Stop("infinite or undefined value in a place that needs a number")) } }
    fn sgn(self, ask: Signs) -> Option<Ordering> {
        match val(self) { Val::F(f) => Some(frac_sign(&f, ask)), Val::NaN => None, Val::Inf(1) => Some(Ordering::Greater), Val::Inf(-1) => Some(Ordering::Less), Val::Inf(_) => panic_any(Stop("comparison with an infinite value")) }
    }
    pub fn as_const(self) -> Option<Q> { match val(self) { Val::F(f) => f.as_const(), _ => None } }
    pub fn identical(self, o: R) -> bool { match (val(self), val(o)) { (Val::F(a), Val::F(b)) => a.add(&b, true).is_zero(), _ => false } }
    pub fn abs(self) -> R {
        if let Val::Inf(_) = val(self) { return push(Val::Inf(1)) }
        if let Val::NaN = val(self) { return self }
        if ABS_VAR.with(|a| *a.borrow()) {
            if let Val::F(f) = val(self) {
                if f.as_const().is_none() && f.den.is_empty() {
                    // a variable y >= 0 with y^2 = x^2, so that the path is not split
                    let (c, m) = f.num.monic();
                    let y = of(Frac::poly(Poly::var(sqrt_var(&m.mul(&m)) as usize)));
                    return y * R::rational(c.abs());
                }
                if f.as_const().is_none() {
                    // |n/d| = |n|/|d|; the denominators are not zero on this path
                    let mut r = of(Frac::poly(f.num.clone())).abs();
                    for (k, e) in &f.den {
                        let d = ATOMS.with(|a| a.borrow()[*k].clone());
                        let known = S.with(|s| s.borrow().known.get(&d).copied().unwrap_or(ANY));
                        let y = if !known.neg { of(Frac::poly(d)) } else {
                            let k = sqrt_var(&d.mul(&d)) as usize;
                            S.with(|s| s.borrow_mut().known.insert(Poly::var(k), Signs { neg: false, zero: false, pos: true }));
                            of(Frac::poly(Poly::var(k)))
                        };
                        for _ in 0..*e { r = r / y }
                    }
                    return r
                }
            }
        }
        if self < R::int(0) { -self } else { self }
    }
    pub fn signum(self) -> R { if self < R::int(0) { R::int(-1) } else { R::int(1) } }
    pub fn min(self, o: R) -> R { if o.is_nan() { return self } if self.is_nan() { return o } if self <= o { self } else { o } }
    pub fn max(self, o: R) -> R { if o.is_nan() { return self } if self.is_nan() { return o } if self >= o { self } else { o } }
    pub fn clamp(self, a: R, b: R) -> R { if self < a { a } else if self > b { b } else { self } }
    pub fn recip(self) -> R { R::int(1) / self }
    pub fn mul_add(self, a: R, b: R) -> R { self * a + b }
    pub fn powi(self, n: i32) -> R { let mut r = R::int(1); for _ in 0..n.abs() { r = r * self } if n < 0 { R::int(1) / r } else { r } }
    pub fn sqrt(self) -> R {
        let f = self.frac();
        if let Some(c) = f.as_const() {
            let (n, d) = (c.numer().sqrt(), c.denom().sqrt());
            if &(&n * &n) == c.numer() && &(&d * &d) == c.denom() { return R::rational(Q::new(n, d)) }
        }
        if self < R::int(0) { return R::nan() }
        if f.den.is_empty() && f.num.0.len() == 1 {
            // c x^(2k+1) ...: the squares come out
            let (m, c) = f.num.0.iter().next().unwrap();
            if m.iter().any(|e| *e > 1) {
                let mut out = R::int(1);
                let mut rest = m.clone();
                for (i, e) in m.iter().enumerate() { for _ in 0..e / 2 { out = out * of(Frac::poly(Poly::var(i))).abs() } rest[i] = e % 2 }
                while rest.last() == Some(&0) { rest.pop(); }
                let mut t = BTreeMap::new();
                t.insert(rest, c.clone());
                return out * of(Frac::poly(Poly(t))).sqrt()
            }
        }
        if f.den.is_empty() { return of(Frac::poly(Poly::var(sqrt_var(&f.num) as usize))) }
        // sqrt(n/d) = sqrt(n d) / |d|
        let mut d = Poly::constant(Q::one());
        ATOMS.with(|a| for (k, e) in &f.den { for _ in 0..*e { d = d.mul(&a.borrow()[*k]) } });
        let nd = f.num.mul(&d);
        let dd = of(Frac::poly(d));
        of(Frac::poly(Poly::var(sqrt_var(&nd) as usize))) / dd.abs()
    }
    pub fn length_of(v: &[R]) -> R { let mut s = R::int(0); for x in v { s = s + *x * *x } s.sqrt() }
    /// cosine and sine of the same angle: c^2 + s^2 = 1
    pub fn sin_cos(self) -> (R, R) { (self.sin(), self.cos()) }
    fn trig(self) -> (R, R) {
        let key = format!("{:?}", val(self));
        if let Some(x) = S.with(|s| s.borrow().trig.get(&key).copied()) { return x }
        let s = new_var("sin", false);
        let c = new_var("cos", false);
        let one = Poly::constant(Q::one());
        let pc = Poly::var(c);
        let rule = one.sub(&pc.mul(&pc));
        RULES.with(|r| r.borrow_mut().insert(s, rule));
        let nm = smt_names();
        S.with(|st| st.borrow_mut().extra.push(format!("(= (+ (* {0} {0}) (* {1} {1})) 1.0)", nm[s], nm[c])));
        let r = (of(Frac::poly(Poly::var(s))), of(Frac::poly(Poly::var(c))));
        S.with(|st| st.borrow_mut().trig.insert(key, r));
        r
    }
    pub fn sin(self) -> R { if self.identical(R::int(0)) { return R::int(0) } self.trig().0 }
    pub fn cos(self) -> R { if self.identical(R::int(0)) { return R::int(1) } self.trig().1 }
    /// the angle in [0, pi] with this cosine
    pub fn acos(self) -> R {
        let k = new_var("acos", false);
        let r = of(Frac::poly(Poly::var(k)));
        let s = (R::int(1) - self * self).sqrt();
        let key = format!("{:?}", val(r));
        S.with(|st| st.borrow_mut().trig.insert(key, (s, self)));
        r
    }
    pub fn asin(self) -> R {
        let k = new_var("asin", false);
        let r = of(Frac::poly(Poly::var(k)));
        let c = (R::int(1) - self * self).sqrt();
        let key = format!("{:?}", val(r));
        S.with(|st| st.borrow_mut().trig.insert(key, (self, c)));
        r
    }
    /// a polynomial in integer variables with integer coefficients, and a constant
    fn integer_part(self) -> Option<(R, Q)> {
        let Val::F(f) = val(self) else { return None };
        if !f.den.is_empty() { return None }
        let ints = S.with(|s| s.borrow().ints.clone());
        let mut whole = f.num.clone();
        let c = whole.0.remove(&vec![]).unwrap_or_else(Q::zero);
        if whole.0.iter().all(|(m, q)| q.is_integer() && m.iter().enumerate().all(|(i, e)| *e == 0 || ints[i])) { Some((of(Frac::poly(whole)), c)) } else { None }
    }
    /// floor as an integer variable k with k <= x < k+1
    pub fn floor(self) -> R {
        if let Some(c) = self.as_const() { return R::rational(c.floor()) }
        // an integer and a constant: the floor is the integer and the constant's floor
        if let Some((whole, c)) = self.integer_part() { return whole + R::rational(c.floor()) }
        let key = format!("{:?}", val(self));
        if let Some(k) = S.with(|s| s.borrow().funs.get(&("floor".into(), key.clone())).copied()) { return of(Frac::poly(Poly::var(k as usize))) }
        let k = new_var("floor", true);
        S.with(|s| s.borrow_mut().funs.insert(("floor".into(), key), k as u32));
        let r = of(Frac::poly(Poly::var(k)));
        assume(r <= self);
        assume(self < r + R::int(1));
        r
    }
    pub fn ceil(self) -> R { -((-self).floor()) }
    pub fn trunc(self) -> R { if self < R::int(0) { self.ceil() } else { self.floor() } }
    pub fn round(self) -> R { if self < R::int(0) { -((-self + R::q(1, 2)).floor()) } else { (self + R::q(1, 2)).floor() } }
    pub fn fract(self) -> R { self - self.trunc() }
    pub fn rem_euclid(self, m: R) -> R { let k = (self / m.abs()).floor(); self - k * m.abs() }
    pub fn div_euclid(self, m: R) -> R { (self - self.rem_euclid(m)) / m }
    /// e^x: a positive variable, below 1 exactly when x < 0
    pub fn exp(self) -> R {
        if self.identical(R::int(0)) { return R::int(1) }
        let key = format!("{:?}", val(self));
        if let Some(k) = S.with(|s| s.borrow().funs.get(&("exp".into(), key.clone())).copied()) { return of(Frac::poly(Poly::var(k as usize))) }
        let k = new_var("exp", false);
        S.with(|s| { let mut s = s.borrow_mut(); s.funs.insert(("exp".into(), key), k as u32); s.made.insert(k, Made::Exp(self)); });
        let r = of(Frac::poly(Poly::var(k)));
        assume(r > R::int(0));
        if self < R::int(0) { assume(r < R::int(1)) } else { assume(r >= R::int(1)) }
        r
    }
    /// x^e for x >= 0: whole powers are multiplied out, x^(1/2) is the root, and what is left of the exponent
    /// (between 0 and 1/2) is a positive variable, so that x^a x^b = x^(a+b) where a + b is whole
    pub fn powf(self, e: R) -> R {
        let c = match e.as_const() { Some(c) => c, None => return R::fun("pow", &[self, e]) };
        if c.is_integer() { if let Ok(n) = c.to_integer().to_string().parse::<i32>() { if n.abs() < 20 { return self.powi(n) } } }
        if self < R::int(0) { return R::nan() }
        if !(self > R::int(0)) { return if c.is_negative() { push(Val::Inf(1)) } else { R::int(0) } }
        let half = Q::new(1.into(), 2.into());
        let n = (&c + &half).ceil() - Q::one(); // c - n is in (-1/2, 1/2]
        let f = &c - &n;
        let whole = match n.to_integer().to_string().parse::<i32>() { Ok(n) if n.abs() < 20 => self.powi(n), _ => return R::fun("pow", &[self, e]) };
        if f == half { return whole * self.sqrt() }
        let key = format!("{:?}^{:?}", val(self), f.abs());
        let k = match S.with(|s| s.borrow().funs.get(&("pow".into(), key.clone())).copied()) {
            Some(k) => k as usize,
            None => {
                let k = new_var("pow", false);
                S.with(|s| { let mut s = s.borrow_mut(); s.funs.insert(("pow".into(), key), k as u32); s.made.insert(k, Made::Pow(self, f.abs())); });
                assume(of(Frac::poly(Poly::var(k))) > R::int(0));
                k
            }
        };
        let r = of(Frac::poly(Poly::var(k)));
        if f.is_negative() { whole / r } else { whole * r }
    }
    /// the derivative with respect to a variable, through roots, exponentials and powers
    pub fn derivative(self, x: R) -> R {
        let v = match val(x) { Val::F(f) => (0..S.with(|s| s.borrow().names.len())).find(|i| f.num == Poly::var(*i)).expect("a variable"), _ => panic!("a variable") };
        let f = match val(self) { Val::F(f) => f, _ => return R::nan() };
        let mut d = poly_derivative(&f.num, v);
        let mut n = of(Frac::poly(f.num.clone()));
        for (k, e) in &f.den {
            let p = ATOMS.with(|a| a.borrow()[*k].clone());
            let (q, dq) = (of(Frac::poly(p.clone())), poly_derivative(&p, v));
            for _ in 0..*e { (d, n) = ((d * q - n * dq) / (q * q), n / q) }
        }
        d
    }
    /// the value at x = 0 of an expression that is continuous there: rational in x (no function of x is in it), with a denominator that is not zero
    pub fn at_zero(self, x: R) -> R {
        let v = match val(x) { Val::F(f) => (0..S.with(|s| s.borrow().names.len())).find(|i| f.num == Poly::var(*i)).expect("a variable"), _ => panic!("a variable") };
        let f = self.frac();
        let at = |p: &Poly| {
            if p.vars().iter().any(|w| *w != v && var_mentions(*w, v)) { panic_any(Stop("the limit of a function that is not known")) }
            of(Frac::poly(Poly(p.0.iter().filter(|(m, _)| m.get(v).copied().unwrap_or(0) == 0).map(|(m, c)| (m.clone(), c.clone())).collect())))
        };
        let mut r = at(&f.num);
        for (k, e) in &f.den {
            let q = at(&ATOMS.with(|a| a.borrow()[*k].clone()));
            if q.as_const().map_or(false, |c| c == Q::from_integer(0.into())) { panic_any(Stop("a denominator that vanishes in the limit")) }
            for _ in 0..*e { r = r / q }
        }
        r
    }
    /// an uninterpreted function of the given arguments
    pub fn fun(name: &str, args: &[R]) -> R {
        let key = args.iter().map(|a| format!("{:?}", val(*a))).collect::<Vec<_>>().join(",");
        if let Some(k) = S.with(|s| s.borrow().funs.get(&(name.into(), key.clone())).copied()) { return of(Frac::poly(Poly::var(k as usize))) }
        let k = new_var(name, false);
        S.with(|s| { let mut s = s.borrow_mut(); s.funs.insert((name.into(), key), k as u32); s.made.insert(k, Made::Fun(args.to_vec())); });
        of(Frac::poly(Poly::var(k)))
    }
    pub fn ln(self) -> R {
        let r = R::fun("ln", &[self]);
        if let Val::F(f) = val(r) { for w in f.num.vars() { S.with(|s| s.borrow_mut().made.insert(w, Made::Ln(self))); } }
        r
    }
    pub fn log10(self) -> R { R::fun("log10", &[self]) }
    pub fn log2(self) -> R { R::fun("log2", &[self]) }
    pub fn cbrt(self) -> R { R::fun("cbrt", &[self]) }
    pub fn is_sign_negative(self) -> bool { self < R::int(0) }
    pub fn is_sign_positive(self) -> bool { self >= R::int(0) }
    pub fn show(self) -> String { match val(self) { Val::F(f) => { let nm = smt_names(); let mut t = f.num.smt(&nm); for (k, e) in &f.den { t = format!("{t} / {}^{e}", ATOMS.with(|a| a.borrow()[*k].smt(&nm))) } if t.len() > 300 { t.truncate(300); t += "..." } t } v => format!("{v:?}") } }
    pub fn to_i64(self) -> i64 { use num::ToPrimitive; self.as_const().and_then(|c| c.trunc().to_integer().to_i64()).unwrap_or_else(|| panic_any(Stop("a symbolic value is used as an integer"))) }
}
impl Poly { fn vars(&self) -> std::collections::BTreeSet<usize> { self.0.keys().flat_map(|m| m.iter().enumerate().filter(|(_, e)| **e > 0).map(|(i, _)| i).collect::<Vec<_>>()).collect() } }
/// whether an expression has the variable v in it, also inside functions (those of unknown origin count)
fn mentions(a: R, v: usize) -> bool {
    match val(a) { Val::F(f) => f.num.vars().iter().any(|w| var_mentions(*w, v)) || f.den.iter().any(|(k, _)| ATOMS.with(|a| a.borrow()[*k].clone()).vars().iter().any(|w| var_mentions(*w, v))), _ => false }
}
fn var_mentions(w: usize, v: usize) -> bool {
    w == v || match S.with(|s| s.borrow().made.get(&w).cloned()) {
        Some(Made::Var) => false,
        Some(Made::Exp(a)) | Some(Made::Ln(a)) | Some(Made::Pow(a, _)) => mentions(a, v),
        Some(Made::Sqrt(q)) => q.vars().iter().any(|w| var_mentions(*w, v)),
        Some(Made::Fun(a)) => a.iter().any(|a| mentions(*a, v)),
        None => true,
    }
}
/// the derivative of a polynomial with respect to the variable v, through the variables that stand for functions of it
fn poly_derivative(p: &Poly, v: usize) -> R {
    let mut r = R::int(0);
    let vars: std::collections::BTreeSet<usize> = p.0.keys().flat_map(|m| m.iter().enumerate().filter(|(_, e)| **e > 0).map(|(i, _)| i).collect::<Vec<_>>()).collect();
    for w in vars {
        let dw = if w == v { R::int(1) } else {
            match S.with(|s| s.borrow().made.get(&w).cloned()) {
                Some(Made::Var) => R::int(0),
                Some(Made::Exp(a)) => of(Frac::poly(Poly::var(w))) * a.derivative(of(Frac::poly(Poly::var(v)))),
                Some(Made::Pow(a, e)) => R::rational(e) * of(Frac::poly(Poly::var(w))) / a * a.derivative(of(Frac::poly(Poly::var(v)))),
                Some(Made::Ln(a)) => a.derivative(of(Frac::poly(Poly::var(v)))) / a,
                Some(Made::Sqrt(q)) => poly_derivative(&q, v) / (R::int(2) * of(Frac::poly(Poly::var(w)))),
                Some(Made::Fun(a)) if a.iter().all(|a| !mentions(*a, v)) => R::int(0),
                _ => panic_any(Stop("the derivative of a function that is not known")),
            }
        };
        let mut part = Poly::zero();
        for (m, c) in &p.0 {
            let e = m.get(w).copied().unwrap_or(0);
            if e == 0 { continue }
            let mut n = m.clone();
            n[w] -= 1;
            while n.last() == Some(&0) { n.pop(); }
            let mut t = BTreeMap::new();
            t.insert(n, c * Q::from_integer(BigInt::from(e)));
            part = part.add(&Poly(t));
        }
        r = r + of(Frac::poly(part)) * dw;
    }
    r
}
fn sqrt_var(p: &Poly) -> u32 {
    if let Some(k) = S.with(|s| s.borrow().sqrt.get(p).copied()) { return k }
    let k = new_var("sqrt", false);
    S.with(|s| { let mut s = s.borrow_mut(); s.sqrt.insert(p.clone(), k as u32); s.made.insert(k, Made::Sqrt(p.clone())); });
    RULES.with(|r| r.borrow_mut().insert(k, p.clone()));
    let nm = smt_names();
    let t = p.smt(&nm);
    S.with(|s| { let mut s = s.borrow_mut(); s.extra.push(format!("(= (* {0} {0}) {t})", nm[k])); s.known.insert(Poly::var(k), Signs { neg: false, zero: true, pos: true }); });
    k as u32
}

impl std::fmt::Debug for R { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.show()) } }
impl std::fmt::Display for R { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.show()) } }
impl std::fmt::LowerExp for R { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.show()) } }
#[allow(non_upper_case_globals)]
impl R {
    pub const MAX: R = R::L("1.7976931348623157e308");
    pub const INFINITY: fn() -> R = || push(Val::Inf(1));
    pub const MIN: R = R::N(i64::MIN);
    pub const EPSILON: R = R::L("2.220446049250313e-16");
    pub const MIN_POSITIVE: R = R::L("2.2250738585072014e-308");
    /// stands for itself in a message; not computed with
    pub fn to_f64(self) -> Option<f64> { use num::ToPrimitive; self.as_const().and_then(|c| c.to_f64()) }
}
pub mod consts {
    use super::R;
    pub const PI: R = R::L("3.14159265358979323846264338327950288");
    pub const E: R = R::L("2.71828182845904523536028747135266250");
    pub const SQRT_2: R = R::L("1.41421356237309504880168872420969808");
}
impl Default for R { fn default() -> R { R::int(0) } }

impl PartialEq for R {
    fn eq(&self, o: &R) -> bool {
        if self.is_nan() || o.is_nan() { return false }
        match val(*self - *o) {
            Val::F(f) => f.is_zero() || sign_of_poly(&f.num, Signs { neg: false, zero: true, pos: false }) == Ordering::Equal,
            Val::NaN => false,
            Val::Inf(_) => false,
        }
    }
}
impl Eq for R {}
impl PartialOrd for R {
    fn partial_cmp(&self, o: &R) -> Option<Ordering> { (*self - *o).sgn(ANY) }
    fn lt(&self, o: &R) -> bool { let d = *self - *o; if d.is_nan() { return false } strict(d, true) }
    fn gt(&self, o: &R) -> bool { let d = *self - *o; if d.is_nan() { return false } strict(d, false) }
    fn le(&self, o: &R) -> bool { let d = *self - *o; if d.is_nan() { return false } !strict(d, false) }
    fn ge(&self, o: &R) -> bool { let d = *self - *o; if d.is_nan() { return false } !strict(d, true) }
}
/// d < 0 (less) or d > 0, splitting only into "yes" and "no"
fn strict(d: R, less: bool) -> bool {
    let f = match val(d) { Val::F(f) => f, Val::NaN => return false, Val::Inf(1) => return !less, Val::Inf(-1) => return less, Val::Inf(_) => panic_any(Stop("comparison with an infinite value")) };
    if f.is_zero() { return false }
    let fs = f.sign_factors();
    let mut want = if less { Ordering::Less } else { Ordering::Greater };
    for k in &fs[1..] { if sign_of_poly(k, ANY) == Ordering::Less { want = want.reverse() } }
    if let Some(c) = fs[0].as_const() { return c.cmp(&Q::zero()) == want }
    let (c, m) = fs[0].monic();
    if c.is_negative() { want = want.reverse() }
    // now: is sign(m) == want ?
    let yes = if want == Ordering::Less { Signs { neg: true, zero: false, pos: false } } else { Signs { neg: false, zero: false, pos: true } };
    let no = Signs { neg: !yes.neg, zero: true, pos: !yes.pos };
    let k = S.with(|s| s.borrow().known.get(&m).copied().unwrap_or(ANY));
    let and = |a: Signs, b: Signs| Signs { neg: a.neg && b.neg, zero: a.zero && b.zero, pos: a.pos && b.pos };
    let none = |a: Signs| !a.neg && !a.zero && !a.pos;
    let (y, n) = (and(yes, k), and(no, k));
    if none(y) { return false }
    if none(n) { return true }
    let opts = [(y, Ordering::Less), (n, Ordering::Greater)];
    let surv = survivors(&m, &opts);
    if surv.is_empty() { panic_any(Stop("infeasible")) }
    let g = if surv.len() > 1 { surv[choose(surv.len())] } else { surv[0] };
    S.with(|s| { s.borrow_mut().known.insert(m, g.0); });
    g.1 == Ordering::Less
}

fn arith(a: R, b: R, op: u8) -> R {
    let (x, y) = match (val(a), val(b)) {
        (Val::F(x), Val::F(y)) => (x, y),
        (Val::NaN, _) | (_, Val::NaN) => return push(Val::NaN),
        (Val::Inf(s), Val::F(_)) if op < 2 => return push(Val::Inf(s)),
        (Val::F(_), Val::Inf(s)) if op < 2 => return push(Val::Inf(if op == 1 { -s } else { s })),
        (Val::F(_), Val::Inf(_)) if op == 3 => return R::int(0),
        (Val::Inf(_), Val::F(_)) if op == 3 => return push(Val::Inf(0)),
        _ => panic_any(Stop("arithmetic with an infinite value")),
    };
    of(match op { 0 => x.add(&y, false), 1 => x.add(&y, true), 2 => x.mul(&y), _ => {
        // division: the divisor is not zero, or the result is undefined (0/0) or infinite
        if b == R::int(0) { return if a == R::int(0) { push(Val::NaN) } else { push(Val::Inf(0)) } }
        x.mul(&y.recip())
    } })
}
macro_rules! ops { ($($t:ident $f:ident $ta:ident $fa:ident $n:expr;)*) => { $(
    impl $t<R> for R { type Output = R; fn $f(self, o: R) -> R { arith(self, o, $n) } }
    impl<'a> $t<&'a R> for R { type Output = R; fn $f(self, o: &'a R) -> R { arith(self, *o, $n) } }
    impl<'a> $t<R> for &'a R { type Output = R; fn $f(self, o: R) -> R { arith(*self, o, $n) } }
    impl<'a, 'b> $t<&'b R> for &'a R { type Output = R; fn $f(self, o: &'b R) -> R { arith(*self, *o, $n) } }
    impl $ta<R> for R { fn $fa(&mut self, o: R) { *self = arith(*self, o, $n) } }
    impl<'a> $ta<&'a R> for R { fn $fa(&mut self, o: &'a R) { *self = arith(*self, *o, $n) } }
)* } }
ops! { Add add AddAssign add_assign 0; Sub sub SubAssign sub_assign 1; Mul mul MulAssign mul_assign 2; Div div DivAssign div_assign 3; }
impl Rem<R> for R { type Output = R; fn rem(self, m: R) -> R { let k = (self / m).trunc(); self - k * m } }
impl Neg for R { type Output = R; fn neg(self) -> R { match val(self) { Val::F(f) => of(f.neg()), Val::Inf(s) => push(Val::Inf(-s)), v => push(v) } } }
impl<'a> Neg for &'a R { type Output = R; fn neg(self) -> R { -*self } }
impl std::iter::Sum for R { fn sum<I: Iterator<Item = R>>(i: I) -> R { i.fold(R::int(0), |a, b| a + b) } }
impl<'a> std::iter::Sum<&'a R> for R { fn sum<I: Iterator<Item = &'a R>>(i: I) -> R { i.fold(R::int(0), |a, b| a + *b) } }
impl std::iter::Product for R { fn product<I: Iterator<Item = R>>(i: I) -> R { i.fold(R::int(1), |a, b| a * b) } }
impl num::Zero for R { fn zero() -> R { R::int(0) } fn is_zero(&self) -> bool { *self == R::int(0) } }
impl num::One for R { fn one() -> R { R::int(1) } }
impl num::Num for R { type FromStrRadixErr = (); fn from_str_radix(s: &str, _: u32) -> Result<R, ()> { Ok(R::rational(parse_literal(s))) } }
impl num::Signed for R {
    fn abs(&self) -> R { R::abs(*self) }
    fn abs_sub(&self, o: &R) -> R { if *self <= *o { R::int(0) } else { *self - *o } }
    fn signum(&self) -> R { R::signum(*self) }
    fn is_positive(&self) -> bool { *self > R::int(0) }
    fn is_negative(&self) -> bool { *self < R::int(0) }
}
impl num::FromPrimitive for R { fn from_i64(n: i64) -> Option<R> { Some(R::int(n)) } fn from_u64(n: u64) -> Option<R> { Some(R::int(n as i64)) } fn from_f64(x: f64) -> Option<R> { Some(R::from_f64_exact(x)) } }
macro_rules! from_int { ($($t:ty)*) => { $( impl From<$t> for R { fn from(n: $t) -> R { R::rational(Q::from_integer(BigInt::from(n))) } } )* } }
from_int! { i32 u32 i64 u64 usize u8 i8 u16 i16 u128 i128 }
/// `x as f64` in the source becomes `x.vx_real()`
pub trait ToReal { fn vx_real(self) -> R; }
macro_rules! to_real { ($($t:ty)*) => { $( impl ToReal for $t { fn vx_real(self) -> R { R::from(self) } } impl<'a> ToReal for &'a $t { fn vx_real(self) -> R { R::from(*self) } } )* } }
to_real! { i32 u32 i64 u64 usize u8 }
impl ToReal for R { fn vx_real(self) -> R { self } }

/// Symbolic integers (for code whose machine integers are taken as mathematical ones).
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Default)]
pub struct I(pub R);
impl I { pub fn var(n: &str) -> I { I(R::int_var(n)) } pub fn abs(self) -> I { I(self.0.abs()) } pub fn rem_euclid(self, m: impl Into<I>) -> I { I(self.0.rem_euclid(m.into().0)) } pub fn div_euclid(self, m: impl Into<I>) -> I { I(self.0.div_euclid(m.into().0)) } pub fn min(self, o: I) -> I { I(self.0.min(o.0)) } pub fn max(self, o: I) -> I { I(self.0.max(o.0)) } pub fn signum(self) -> I { I(self.0.signum()) } }
impl From<i32> for I { fn from(x: i32) -> I { I(R::int(x as i64)) } }
impl std::fmt::Debug for I { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", self.0) } }
impl std::fmt::Display for I { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", self.0) } }
impl std::hash::Hash for I { fn hash<H: std::hash::Hasher>(&self, _: &mut H) {} }
impl Ord for I { fn cmp(&self, o: &I) -> Ordering { self.partial_cmp(o).unwrap() } }
impl PartialEq<i32> for I { fn eq(&self, o: &i32) -> bool { *self == I::from(*o) } }
impl PartialEq<I> for i32 { fn eq(&self, o: &I) -> bool { I::from(*self) == *o } }
impl PartialOrd<i32> for I {
    fn partial_cmp(&self, o: &i32) -> Option<Ordering> { self.partial_cmp(&I::from(*o)) }
    fn lt(&self, o: &i32) -> bool { self.0 < I::from(*o).0 } fn le(&self, o: &i32) -> bool { self.0 <= I::from(*o).0 }
    fn gt(&self, o: &i32) -> bool { self.0 > I::from(*o).0 } fn ge(&self, o: &i32) -> bool { self.0 >= I::from(*o).0 }
}
impl PartialOrd<I> for i32 {
    fn partial_cmp(&self, o: &I) -> Option<Ordering> { I::from(*self).partial_cmp(o) }
    fn lt(&self, o: &I) -> bool { I::from(*self).0 < o.0 } fn le(&self, o: &I) -> bool { I::from(*self).0 <= o.0 }
    fn gt(&self, o: &I) -> bool { I::from(*self).0 > o.0 } fn ge(&self, o: &I) -> bool { I::from(*self).0 >= o.0 }
}
macro_rules! iops { ($($t:ident $f:ident $ta:ident $fa:ident;)*) => { $(
    impl $t<I> for I { type Output = I; fn $f(self, o: I) -> I { I(self.0.$f(o.0)) } }
    impl $t<i32> for I { type Output = I; fn $f(self, o: i32) -> I { I(self.0.$f(I::from(o).0)) } }
    impl $t<I> for i32 { type Output = I; fn $f(self, o: I) -> I { I(I::from(self).0.$f(o.0)) } }
    impl $ta<I> for I { fn $fa(&mut self, o: I) { *self = I(self.0.$f(o.0)) } }
    impl $ta<i32> for I { fn $fa(&mut self, o: i32) { *self = I(self.0.$f(I::from(o).0)) } }
)* } }
iops! { Add add AddAssign add_assign; Sub sub SubAssign sub_assign; Mul mul MulAssign mul_assign; }
impl Rem<I> for I { type Output = I; fn rem(self, m: I) -> I { I(self.0 - (self.0 / m.0).trunc() * m.0) } }
impl Div<I> for I { type Output = I; fn div(self, m: I) -> I { I((self.0 / m.0).trunc()) } }
impl Neg for I { type Output = I; fn neg(self) -> I { I(-self.0) } }
impl ToReal for I { fn vx_real(self) -> R { self.0 } }
impl<'a> ToReal for &'a I { fn vx_real(self) -> R { self.0 } }
/// `as i32`
pub trait ToInt { fn vx_int(self) -> I; }
impl ToInt for R { fn vx_int(self) -> I { I(self.trunc()) } }
impl ToInt for I { fn vx_int(self) -> I { self } }
impl ToInt for i32 { fn vx_int(self) -> I { I::from(self) } }
impl ToInt for usize { fn vx_int(self) -> I { I(R::int(self as i64)) } }
impl ToInt for u32 { fn vx_int(self) -> I { I(R::int(self as i64)) } }

/// The exact numbers of the code (its arbitrary-precision type): the same reals under another type.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Debug, Default)]
pub struct X(pub R);
macro_rules! xops { ($($t:ident $f:ident $ta:ident $fa:ident;)*) => { $(
    impl $t<X> for X { type Output = X; fn $f(self, o: X) -> X { X(self.0.$f(o.0)) } }
    impl<'a> $t<&'a X> for X { type Output = X; fn $f(self, o: &'a X) -> X { X(self.0.$f(o.0)) } }
    impl $ta<X> for X { fn $fa(&mut self, o: X) { *self = X(self.0.$f(o.0)) } }
)* } }
xops! { Add add AddAssign add_assign; Sub sub SubAssign sub_assign; Mul mul MulAssign mul_assign; Div div DivAssign div_assign; Rem rem RemAssign rem_assign; }
impl RemAssign<R> for R { fn rem_assign(&mut self, o: R) { *self = *self % o } }
impl<'a> Rem<&'a R> for R { type Output = R; fn rem(self, o: &'a R) -> R { self % *o } }
impl Neg for X { type Output = X; fn neg(self) -> X { X(-self.0) } }
impl num::Zero for X { fn zero() -> X { X(R::int(0)) } fn is_zero(&self) -> bool { self.0 == R::int(0) } }
impl num::One for X { fn one() -> X { X(R::int(1)) } }
impl num::Num for X { type FromStrRadixErr = (); fn from_str_radix(s: &str, _: u32) -> Result<X, ()> { Ok(X(R::rational(parse_literal(s)))) } }
impl num::Signed for X {
    fn abs(&self) -> X { X(self.0.abs()) }
    fn abs_sub(&self, o: &X) -> X { X(num::Signed::abs_sub(&self.0, &o.0)) }
    fn signum(&self) -> X { X(self.0.signum()) }
    fn is_positive(&self) -> bool { self.0 > R::int(0) }
    fn is_negative(&self) -> bool { self.0 < R::int(0) }
}
impl X { pub fn from_f64(x: R) -> Option<X> { Some(X(x)) } pub fn from_float(x: R) -> Option<X> { Some(X(x)) } pub fn pow(&self, n: i32) -> X { X(self.0.powi(n)) } pub fn to_f64(&self) -> Option<R> { Some(self.0) } pub fn recip(&self) -> X { X(R::int(1) / self.0) } }
impl std::fmt::Display for X { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0.show()) } }
impl num::FromPrimitive for X { fn from_i64(n: i64) -> Option<X> { Some(X(R::int(n))) } fn from_u64(n: u64) -> Option<X> { Some(X(R::int(n as i64))) } }

// ------------------------------------------------------------------------------------------------ contracts
/// Precondition: paths on which it is false are dropped.
pub fn assume(c: bool) { if !c { panic_any(Stop("assume")) } }
pub fn assume_sq(v: R, square: R) {
    // v^2 = square, as a rewriting rule (v must be a variable)
    let (f, g) = (v.frac(), square.frac());
    let i = f.num.0.keys().next().unwrap().len() - 1;
    assert!(f.den.is_empty() && g.den.is_empty() && f.num == Poly::var(i));
    let nm = smt_names();
    S.with(|s| s.borrow_mut().extra.push(format!("(= (* {0} {0}) {1})", nm[i], g.num.smt(&nm))));
    RULES.with(|r| r.borrow_mut().insert(i, g.num));
}

fn record(name: &str, f: impl FnOnce(&mut Outcome)) { OUT.with(|o| f(o.borrow_mut().entry(name.to_string()).or_default())) }
fn path_model() -> Option<String> { match z3(&path_asserts(), true) { Sat::Yes(m) => Some(m), _ => None } }

/// Postcondition.  The condition was evaluated on R values, so a condition that can be false shows up as a
/// path of its own on which it is false.
pub fn ensure(name: &str, c: bool) {
    if c { record(name, |o| { o.paths += 1; o.discharged += 1; o.by_z3 += 1 }); return }
    fail(name)
}
fn fail(name: &str) {
    match path_model() {
        Some(m) => record(name, |o| { o.paths += 1; o.failed.push(m) }),
        None => {
            let vac = matches!(z3(&path_asserts(), false), Sat::No);
            record(name, |o| { o.paths += 1; if vac { o.discharged += 1; o.by_z3 += 1 } else { o.undecided.push("z3 gives neither a proof nor a model".into()) } })
        }
    }
}
/// A clause the contract cannot state for this form of the code.
pub fn undecided(name: &str, why: &str) { record(name, |o| { o.paths += 1; o.undecided.push(why.into()) }) }
/// Equality: by normal form where possible, by z3 under the path condition otherwise.
pub fn ensure_eq(name: &str, a: R, b: R) {
    if a.identical(b) { record(name, |o| { o.paths += 1; o.discharged += 1; o.by_algebra += 1 }); return }
    let d = match (val(a), val(b)) { (Val::F(x), Val::F(y)) => x.add(&y, true), _ => { fail(name); return } };
    let t = sign_term(&d.num);
    let mut q = path_asserts();
    q.push(format!("(not (= {t} {}))", zero_of(&t)));
    match z3(&q, true) {
        Sat::No => record(name, |o| { o.paths += 1; o.discharged += 1; o.by_z3 += 1 }),
        Sat::Yes(m) => record(name, |o| { o.paths += 1; o.failed.push(m) }),
        Sat::Unknown => record(name, |o| { o.paths += 1; o.undecided.push("z3 gives no answer".into()) }),
    }
}
/// x is a whole multiple of l: by normal form, with one of the integers of the path, or by z3 otherwise.
pub fn ensure_multiple(name: &str, x: R, l: R) {
    let ints: Vec<usize> = S.with(|s| s.borrow().ints.iter().enumerate().filter(|(_, i)| **i).map(|(k, _)| k).collect());
    for k in ints {
        let v = of(Frac::poly(Poly::var(k)));
        for c in -1..=1 { for m in [v + R::int(c), R::int(c) - v] { if x.identical(m * l) { record(name, |o| { o.paths += 1; o.discharged += 1; o.by_algebra += 1 }); return } } }
    }
    let q = x / l;
    ensure_eq(name, q.floor(), q)
}
pub fn ensure_le(name: &str, a: R, b: R) { ensure_sign(name, b - a, false) }
pub fn ensure_lt(name: &str, a: R, b: R) { ensure_sign(name, b - a, true) }
/// d >= 0 (or > 0), asked of z3 directly, without splitting the path
fn ensure_sign(name: &str, d: R, strictly: bool) {
    let f = match val(d) { Val::F(f) => f, _ => { fail(name); return } };
    if let Some(c) = f.as_const() { if c.is_positive() || (!strictly && c.is_zero()) { record(name, |o| { o.paths += 1; o.discharged += 1; o.by_algebra += 1 }); return } }
    if nonneg_certificate(&f, strictly) { record(name, |o| { o.paths += 1; o.discharged += 1; o.by_algebra += 1 }); return }
    let nm = smt_names();
    let fs = f.sign_factors();
    let t = fs.iter().map(|p| p.smt(&nm)).collect::<Vec<_>>();
    let t = if t.len() == 1 { sign_term(&fs[0]) } else { format!("(* {})", t.join(" ")) };
    let mut q = path_asserts();
    q.push(format!("(not ({} {t} {}))", if strictly { ">" } else { ">=" }, zero_of(&t)));
    match z3(&q, true) {
        Sat::No => record(name, |o| { o.paths += 1; o.discharged += 1; o.by_z3 += 1 }),
        Sat::Yes(m) => record(name, |o| { o.paths += 1; o.failed.push(m) }),
        Sat::Unknown => record(name, |o| { o.paths += 1; o.undecided.push("z3 gives no answer".into()) }),
    }
}

/// d >= 0 (or > 0) because d - l*p has only non-negative coefficients in variables known to be non-negative,
/// for one known fact p >= 0 and one l >= 0.
fn nonneg_certificate(f: &Frac, strictly: bool) -> bool {
    if !f.den.is_empty() { return false }
    S.with(|s| {
        let s = s.borrow();
        let nonneg_var = |i: usize| s.known.get(&Poly::var(i)).map(|g| !g.neg).unwrap_or(false);
        let pos_var = |i: usize| s.known.get(&Poly::var(i)).map(|g| !g.neg && !g.zero).unwrap_or(false);
        let ok = |p: &Poly| p.0.iter().all(|(m, c)| !c.is_negative() && m.iter().enumerate().all(|(i, e)| e % 2 == 0 || nonneg_var(i)));
        let pos = |p: &Poly| p.0.iter().any(|(m, c)| c.is_positive() && m.iter().enumerate().all(|(i, e)| *e == 0 || pos_var(i)));
        if ok(&f.num) && (!strictly || pos(&f.num)) { return true }
        for (p, g) in &s.known {
            let p = if !g.neg { p.clone() } else if !g.pos { p.scale(&-Q::one()) } else { continue };
            for (m, c) in &p.0 {
                if let Some(d) = f.num.0.get(m) {
                    let l = d / c;
                    if !l.is_positive() { continue }
                    let rest = f.num.sub(&p.scale(&l));
                    if ok(&rest) && (!strictly || (!g.zero) || pos(&rest)) { return true }
                    break;
                }
            }
        }
        false
    })
}

/// Explore every path of `f`.
pub fn explore(name: &str, max_paths: u64, f: impl Fn()) {
    let _t = Clock(name.to_string(), std::time::Instant::now());
    std::panic::set_hook(Box::new(|_| {}));
    let mut prefix: Vec<usize> = vec![];
    let mut n = 0u64;
    let (mut live, mut assumed_away) = (0u64, 0u64);
    loop {
        S.with(|s| *s.borrow_mut() = State { prefix: prefix.clone(), ..Default::default() });
        RULES.with(|r| r.borrow_mut().clear());
        ATOMS.with(|r| r.borrow_mut().clear());
        let r = catch_unwind(AssertUnwindSafe(&f));
        n += 1;
        match r {
            Ok(()) => live += 1,
            Err(e) => match e.downcast_ref::<Stop>() {
                Some(Stop("assume")) | Some(Stop("infeasible")) => assumed_away += 1,
                Some(Stop(w)) => { live += 1; let w = w.to_string(); record(&format!("{name}: every path is within reach"), |o| { o.paths += 1; o.undecided.push(w) }) }
                None => {
                    live += 1;
                    let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned()).unwrap_or("?".into());
                    match path_model() {
                        Some(v) => record(&format!("{name}: no panic"), |o| { o.paths += 1; o.failed.push(format!("panic: {m}; {v}")) }),
                        None => record(&format!("{name}: no panic"), |o| { o.paths += 1; o.undecided.push(format!("panic: {m}")) }),
                    }
                }
            },
        }
        STAT.with(|s| s.borrow_mut().0 += 1);
        // next path: advance the last choice that has alternatives left
        let taken = S.with(|s| s.borrow().taken.clone());
        let mut k = taken.len();
        loop {
            if k == 0 {
                if live == 0 { record(&format!("{name}: some input satisfies the assumptions"), |o| { o.paths += 1; o.undecided.push("vacuous".into()) }) }
                else { record(&format!("{name}: all {live} paths explored"), |o| { o.paths += 1; o.discharged += 1; o.by_algebra += 1 }) }
                MEMO.with(|m| m.borrow_mut().clear());
                let _ = assumed_away;
                return;
            }
            k -= 1;
            if taken[k].0 + 1 < taken[k].1 { break }
        }
        prefix = taken[..k].iter().map(|t| t.0).collect();
        prefix.push(taken[k].0 + 1);
        if n >= max_paths {
            record(&format!("{name}: every path is within reach"), |o| { o.paths += 1; o.undecided.push(format!("more than {max_paths} paths")) });
            MEMO.with(|m| m.borrow_mut().clear());
            return;
        }
    }
}

fn esc(s: &str) -> String { s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " ") }
/// Print what was established; the driver reads it.
pub fn report() {
    OUT.with(|o| for (n, x) in o.borrow().iter() {
        println!(
            "VXSYM {{\"name\": \"{}\", \"paths\": {}, \"discharged\": {}, \"by_algebra\": {}, \"by_z3\": {}, \"failed\": [{}], \"undecided\": [{}]}}",
            esc(n), x.paths, x.discharged, x.by_algebra, x.by_z3,
            x.failed.iter().take(2).map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", "),
            x.undecided.iter().take(2).map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", ")
        )
    });
    STAT.with(|s| { let s = s.borrow(); println!("VXSYMDONE {{\"paths\": {}, \"queries\": {}, \"z3_s\": {:.2}}}", s.0, s.1, s.2) });
    Z3.with(|z| if let Some((mut c, i, _)) = z.borrow_mut().take() { drop(i); let _ = c.kill(); let _ = c.wait(); });
}
/// Time spent per exploration, on stderr, when asked for.
struct Clock(String, std::time::Instant);
impl Drop for Clock { fn drop(&mut self) { if std::env::var("SYMX_CLOCK").is_ok() { eprintln!("{}: {:.1} s", self.0, self.1.elapsed().as_secs_f64()) } } }
