"""The unit system of /repo (src/units) without the macro crate `diman`, which is not available offline:
`unit_system!(...)` is expanded here, with checked dimensions in the types, from the definitions in the
current source.  Everything else of src/units is taken as it is."""
import os
import re
from fractions import Fraction

import mirror
import rustx
import symbolic as sym
from rustx import LostAnchor

VEC = {
    "glam::DVec2": ("dvec2", 2),
    "glam::DVec3": ("dvec3", 3),
}


def parse_block(src):
    m = re.search(r"unit_system!\s*\(\s*Quantity\s*,\s*Dimension\s*,\s*\[", src)
    if not m:
        raise LostAnchor("unit_system! not found")
    i = m.end()
    d = 1
    j = i
    while d:
        c = src[j]
        if c in "[({":
            d += 1
        elif c in "])}":
            d -= 1
        j += 1
    body = src[i : j - 1]
    body = re.sub(r"//[^\n]*", "", body)
    k = src.index(";", j)
    # split at top-level commas
    ents, depth, cur = [], 0, ""
    for c in body:
        if c in "({[":
            depth += 1
        elif c in ")}]":
            depth -= 1
        if c == "," and depth == 0:
            ents.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        ents.append(cur.strip())
    return m.start(), k + 1, [e for e in ents if e]


class V:
    def __init__(self, f, d, q=None):
        self.f, self.d = f, d  # factor as a Rust expression, dimension dict
        self.q = Fraction(f) if q is None else q  # the factor exactly

    def __mul__(self, o):
        return V("(%s * %s)" % (self.f, o.f), {k: self.d.get(k, 0) + o.d.get(k, 0) for k in {**self.d, **o.d}}, self.q * o.q)

    def __truediv__(self, o):
        return V("(%s / %s)" % (self.f, o.f), {k: self.d.get(k, 0) - o.d.get(k, 0) for k in {**self.d, **o.d}}, self.q / o.q)


def evaluate(expr, names):
    toks = [t.text for t in rustx.lex(expr)]
    pos = 0

    def atom():
        nonlocal pos
        t = toks[pos]
        if t == "(":
            pos += 1
            v = e()
            pos += 1
            return v
        if t == "{":
            pos += 1
            d = {}
            while toks[pos] != "}":
                k = toks[pos]
                pos += 2
                s = 1
                if toks[pos] == "-":
                    s = -1
                    pos += 1
                d[k] = s * int(toks[pos])
                pos += 1
                if toks[pos] == ",":
                    pos += 1
            pos += 1
            return V("1.0", d)
        pos += 1
        if re.match(r"\d", t):
            return V(t if "." in t or "e" in t else t + ".0", {})
        if t not in names:
            raise LostAnchor("unit system: unknown name " + t)
        return names[t]()

    def e():
        nonlocal pos
        v = atom()
        while pos < len(toks) and toks[pos] in "*/":
            op = toks[pos]
            pos += 1
            w = atom()
            v = v * w if op == "*" else v / w
        return v

    v = e()
    if pos != len(toks):
        raise LostAnchor("unit system: cannot read " + expr)
    return v


def expand(src, fields, symbolic=False):
    scalar, vec2, vec3 = "symx::R" if symbolic else "f64", "glam::DVec2", "glam::DVec3"
    a, b, ents = parse_block(src)
    defs, units, consts = {}, {}, {}
    names = {}
    for e in ents:  # definitions may refer to later ones
        m = re.match(r"(def|unit|constant)\s+(?:\(\s*(\w+)\s*,\s*\"([^\"]*)\"\s*\)|(\w+))\s*=\s*(.*)$", e, re.S)
        if not m:
            raise LostAnchor("unit system: cannot read entry " + e)
        kind, n1, sym, n2, ex = m.groups()
        n = n1 or n2
        {"def": defs, "unit": units, "constant": consts}[kind][n] = (ex.strip(), sym or "")
    cache = {}

    def get(n):
        def f():
            if n not in cache:
                ex = (defs.get(n) or units.get(n) or consts.get(n))[0]
                cache[n] = evaluate(ex, names)
            v = cache[n]
            return V("1.0", v.d) if n in defs else v

        return f

    for n in list(defs) + list(units) + list(consts):
        names[n] = get(n)

    def dim(d):
        return "Dimension { %s }" % ", ".join("%s: %d" % (f, d.get(f, 0)) for f in fields)

    o = [GENERIC.replace("SCALAR", scalar).replace("VEC2", vec2).replace("VEC3", vec3)]
    fs = lambda v: 'symx::R::lit("%d/%d")' % (v.q.numerator, v.q.denominator) if symbolic else v.f
    for mod, t in (("f64", scalar), ("dvec2", vec2), ("dvec3", vec3)):
        o.append("pub mod %s { use super::{Quantity, Dimension};" % mod)
        for n in defs:
            o.append("pub type %s = Quantity<%s, { %s }>;" % (n, t, dim(names[n]().d)))
        o.append("}")
    o.append("pub mod vx_unit_table { use super::*; pub fn units() -> Vec<(&'static str, &'static str, %s, Dimension)> { vec![" % scalar)
    for n in units:
        v = names[n]()
        o.append('("%s", "%s", %s, %s),' % (n, units[n][1], fs(v), dim(v.d)))
    o.append("] } }")
    seen = {}
    for n in units:
        v = names[n]()
        fac = fs(v)
        dd = dim(v.d)
        o.append("impl Quantity<%s, { %s }> { pub fn %s(v: %s) -> Self { Quantity(v * %s) } pub fn in_%s(self) -> %s { self.0 / %s } }" % (scalar, dd, n, scalar, fac, n, scalar, fac))
        for vt, k in ((vec2, 2), (vec3, 3)):
            args = ["x", "y", "z"][:k]
            o.append("impl Quantity<%s, { %s }> { pub fn %s(%s) -> Self { Quantity(<%s>::new(%s) * (%s)) } pub fn in_%s(self) -> %s { self.0 / (%s) } }" % (vt, dd, n, ", ".join("%s: %s" % (q, scalar) for q in args), vt, ", ".join(args), fac, n, vt, fac))
    for n in consts:
        v = names[n]()
        o.append("pub const %s: Quantity<%s, { %s }> = Quantity(%s);" % (n, scalar, dim(v.d), fs(v)))
    return src[:a] + "\n".join(o) + "\n" + src[b:]


GENERIC = """
#[derive(Clone, Copy, PartialEq, PartialOrd, Default)]
#[repr(transparent)]
pub struct Quantity<S, const D: Dimension>(pub(crate) S);
impl<S: std::fmt::Debug, const D: Dimension> std::fmt::Debug for Quantity<S, D> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", self.0) } }
impl<S: std::fmt::Display, const D: Dimension> std::fmt::Display for Quantity<S, D> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } }
/// what a quantity is made of, as sent: so many numbers
pub trait VxWire {}
impl VxWire for SCALAR {}
impl VxWire for glam::DVec2 {}
impl VxWire for glam::DVec3 {}
unsafe impl<S: VxWire, const D: Dimension> mpi::traits::Equivalence for Quantity<S, D> { type Out = mpi::datatype::UserDatatype; fn equivalent_datatype() -> Self::Out { mpi::datatype::UserDatatype::contiguous((std::mem::size_of::<S>() / std::mem::size_of::<SCALAR>()) as i32, &mpi::datatype::AsUser::as_user(&<f64 as mpi::traits::Equivalence>::equivalent_datatype())) } }
impl<S, const D: Dimension> Quantity<S, D> {
    pub const fn new_unchecked(s: S) -> Self { Quantity(s) }
}
impl<S: Clone, const D: Dimension> Quantity<S, D> { pub fn value_unchecked(&self) -> S { self.0.clone() } }
impl<S: std::ops::Add<Output = S>, const D: Dimension> std::ops::Add for Quantity<S, D> { type Output = Self; fn add(self, o: Self) -> Self { Quantity(self.0 + o.0) } }
impl<S: std::ops::Sub<Output = S>, const D: Dimension> std::ops::Sub for Quantity<S, D> { type Output = Self; fn sub(self, o: Self) -> Self { Quantity(self.0 - o.0) } }
impl<S: std::ops::AddAssign, const D: Dimension> std::ops::AddAssign for Quantity<S, D> { fn add_assign(&mut self, o: Self) { self.0 += o.0 } }
impl<S: std::ops::SubAssign, const D: Dimension> std::ops::SubAssign for Quantity<S, D> { fn sub_assign(&mut self, o: Self) { self.0 -= o.0 } }
impl<S: std::ops::Neg<Output = S>, const D: Dimension> std::ops::Neg for Quantity<S, D> { type Output = Self; fn neg(self) -> Self { Quantity(-self.0) } }
impl<S: std::ops::Mul<SCALAR, Output = S>, const D: Dimension> std::ops::Mul<SCALAR> for Quantity<S, D> { type Output = Self; fn mul(self, o: SCALAR) -> Self { Quantity(self.0 * o) } }
impl<S: std::ops::Div<SCALAR, Output = S>, const D: Dimension> std::ops::Div<SCALAR> for Quantity<S, D> { type Output = Self; fn div(self, o: SCALAR) -> Self { Quantity(self.0 / o) } }
impl<S: std::ops::MulAssign<SCALAR>, const D: Dimension> std::ops::MulAssign<SCALAR> for Quantity<S, D> { fn mul_assign(&mut self, o: SCALAR) { self.0 *= o } }
impl<S: std::ops::DivAssign<SCALAR>, const D: Dimension> std::ops::DivAssign<SCALAR> for Quantity<S, D> { fn div_assign(&mut self, o: SCALAR) { self.0 /= o } }
impl<S: std::ops::Mul<SCALAR, Output = S>, const L: Dimension, const R: Dimension> std::ops::Mul<Quantity<SCALAR, R>> for Quantity<S, L> where Quantity<S, { L.dimension_mul(R) }>: { type Output = Quantity<S, { L.dimension_mul(R) }>; fn mul(self, o: Quantity<SCALAR, R>) -> Self::Output { Quantity(self.0 * o.0) } }
impl<S: std::ops::Div<SCALAR, Output = S>, const L: Dimension, const R: Dimension> std::ops::Div<Quantity<SCALAR, R>> for Quantity<S, L> where Quantity<S, { L.dimension_div(R) }>: { type Output = Quantity<S, { L.dimension_div(R) }>; fn div(self, o: Quantity<SCALAR, R>) -> Self::Output { Quantity(self.0 / o.0) } }
impl<const R: Dimension> std::ops::Mul<Quantity<SCALAR, R>> for SCALAR { type Output = Quantity<SCALAR, R>; fn mul(self, o: Quantity<SCALAR, R>) -> Self::Output { Quantity(self * o.0) } }
impl<const R: Dimension> std::ops::Div<Quantity<SCALAR, R>> for SCALAR where Quantity<SCALAR, { R.dimension_inv() }>: { type Output = Quantity<SCALAR, { R.dimension_inv() }>; fn div(self, o: Quantity<SCALAR, R>) -> Self::Output { Quantity(self / o.0) } }
impl std::ops::Add<SCALAR> for Quantity<SCALAR, NONE> { type Output = Self; fn add(self, o: SCALAR) -> Self { Quantity(self.0 + o) } }
impl std::ops::Sub<SCALAR> for Quantity<SCALAR, NONE> { type Output = Self; fn sub(self, o: SCALAR) -> Self { Quantity(self.0 - o) } }
impl std::ops::Add<Quantity<SCALAR, NONE>> for SCALAR { type Output = Quantity<SCALAR, NONE>; fn add(self, o: Quantity<SCALAR, NONE>) -> Quantity<SCALAR, NONE> { Quantity(self + o.0) } }
impl std::ops::Sub<Quantity<SCALAR, NONE>> for SCALAR { type Output = Quantity<SCALAR, NONE>; fn sub(self, o: Quantity<SCALAR, NONE>) -> Quantity<SCALAR, NONE> { Quantity(self - o.0) } }
impl std::ops::AddAssign<SCALAR> for Quantity<SCALAR, NONE> { fn add_assign(&mut self, o: SCALAR) { self.0 += o } }
impl std::ops::SubAssign<SCALAR> for Quantity<SCALAR, NONE> { fn sub_assign(&mut self, o: SCALAR) { self.0 -= o } }
impl From<SCALAR> for Quantity<SCALAR, NONE> { fn from(x: SCALAR) -> Self { Quantity(x) } }
impl PartialEq<SCALAR> for Quantity<SCALAR, NONE> { fn eq(&self, o: &SCALAR) -> bool { self.0 == *o } }
impl PartialOrd<SCALAR> for Quantity<SCALAR, NONE> { fn partial_cmp(&self, o: &SCALAR) -> Option<std::cmp::Ordering> { self.0.partial_cmp(o) } }
impl<S: std::iter::Sum, const D: Dimension> std::iter::Sum for Quantity<S, D> { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { Quantity(i.map(|x| x.0).sum()) } }
impl<'a, S: std::iter::Sum + Clone, const D: Dimension> std::iter::Sum<&'a Quantity<S, D>> for Quantity<S, D> { fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self { Quantity(i.map(|x| x.0.clone()).sum()) } }
impl<const D: Dimension> Quantity<SCALAR, D> {
    pub fn zero() -> Self { Quantity(<SCALAR>::default()) }
    pub fn abs(self) -> Self { Quantity(self.0.abs()) }
    pub fn min<Q: Into<Self>>(self, o: Q) -> Self { Quantity(self.0.min(o.into().0)) }
    pub fn max<Q: Into<Self>>(self, o: Q) -> Self { Quantity(self.0.max(o.into().0)) }
    pub fn clamp<Q: Into<Self>>(self, a: Q, b: Q) -> Self { Quantity(self.0.clamp(a.into().0, b.into().0)) }
    pub fn is_positive(self) -> bool { self.0 > <SCALAR>::default() }
    pub fn is_negative(self) -> bool { self.0 < <SCALAR>::default() }
    pub fn is_nan(self) -> bool { self.0.is_nan() }
    pub fn is_finite(self) -> bool { self.0.is_finite() }
    pub fn signum(self) -> SCALAR { self.0.signum() }
    pub fn squared(self) -> Quantity<SCALAR, { D.dimension_powi(2) }> where Quantity<SCALAR, { D.dimension_powi(2) }>: { Quantity(self.0.powi(2)) }
    pub fn cubed(self) -> Quantity<SCALAR, { D.dimension_powi(3) }> where Quantity<SCALAR, { D.dimension_powi(3) }>: { Quantity(self.0.powi(3)) }
    pub fn powi<const N: i32>(self) -> Quantity<SCALAR, { D.dimension_powi(N) }> where Quantity<SCALAR, { D.dimension_powi(N) }>: { Quantity(self.0.powi(N)) }
    pub fn sqrt(self) -> Quantity<SCALAR, { D.dimension_sqrt() }> where Quantity<SCALAR, { D.dimension_sqrt() }>: { Quantity(self.0.sqrt()) }
    pub fn cbrt(self) -> Quantity<SCALAR, { D.dimension_cbrt() }> where Quantity<SCALAR, { D.dimension_cbrt() }>: { Quantity(self.0.cbrt()) }
}
impl<S> std::ops::Deref for Quantity<S, NONE> { type Target = S; fn deref(&self) -> &S { &self.0 } }
impl<S> std::ops::DerefMut for Quantity<S, NONE> { fn deref_mut(&mut self) -> &mut S { &mut self.0 } }
impl Quantity<SCALAR, NONE> {
    pub fn value(&self) -> SCALAR { self.0 }
    pub fn exp(self) -> Self { Quantity(self.0.exp()) }
    pub fn ln(self) -> Self { Quantity(self.0.ln()) }
    pub fn log2(self) -> Self { Quantity(self.0.log2()) }
    pub fn log10(self) -> Self { Quantity(self.0.log10()) }
    pub fn ceil(self) -> Self { Quantity(self.0.ceil()) }
    pub fn floor(self) -> Self { Quantity(self.0.floor()) }
    pub fn sin(self) -> Self { Quantity(self.0.sin()) }
    pub fn cos(self) -> Self { Quantity(self.0.cos()) }
}
macro_rules! vx_vector { ($v: ty, $($c: ident),*) => {
    impl<const D: Dimension> Quantity<$v, D> {
        pub fn new($($c: Quantity<SCALAR, D>),*) -> Self { Quantity(<$v>::new($($c.0),*)) }
        pub fn zero() -> Self { Quantity(<$v>::ZERO) }
        $( pub fn $c(&self) -> Quantity<SCALAR, D> { Quantity(self.0.$c) } )*
        pub fn length(&self) -> Quantity<SCALAR, D> { Quantity(self.0.length()) }
        pub fn length_squared(&self) -> Quantity<SCALAR, { D.dimension_powi(2) }> where Quantity<SCALAR, { D.dimension_powi(2) }>: { Quantity(self.0.length_squared()) }
        pub fn distance(&self, o: &Self) -> Quantity<SCALAR, D> { Quantity((self.0 - o.0).length()) }
        pub fn distance_squared(&self, o: &Self) -> Quantity<SCALAR, { D.dimension_powi(2) }> where Quantity<SCALAR, { D.dimension_powi(2) }>: { Quantity((self.0 - o.0).length_squared()) }
        pub fn normalize(&self) -> Quantity<$v, NONE> { Quantity(self.0.normalize()) }
        pub fn abs(self) -> Self { Quantity(self.0.abs()) }
        pub fn min(self, o: Self) -> Self { Quantity(self.0.min(o.0)) }
        pub fn max(self, o: Self) -> Self { Quantity(self.0.max(o.0)) }
        pub fn max_element(self) -> Quantity<SCALAR, D> { Quantity(self.0.max_element()) }
        pub fn min_element(self) -> Quantity<SCALAR, D> { Quantity(self.0.min_element()) }
        pub fn dot<const R: Dimension>(self, o: Quantity<$v, R>) -> Quantity<SCALAR, { D.dimension_mul(R) }> where Quantity<SCALAR, { D.dimension_mul(R) }>: { Quantity(self.0.dot(o.0)) }
    }
    impl Quantity<$v, NONE> { pub fn value(&self) -> $v { self.0 } }
    impl<const R: Dimension> std::ops::Mul<Quantity<SCALAR, R>> for $v { type Output = Quantity<$v, R>; fn mul(self, o: Quantity<SCALAR, R>) -> Self::Output { Quantity(self * o.0) } }
    impl<const D: Dimension> std::ops::Mul<Quantity<$v, D>> for SCALAR { type Output = Quantity<$v, D>; fn mul(self, o: Quantity<$v, D>) -> Self::Output { Quantity(o.0 * self) } }
    impl<const L: Dimension, const R: Dimension> std::ops::Mul<Quantity<$v, R>> for Quantity<SCALAR, L> where Quantity<$v, { L.dimension_mul(R) }>: { type Output = Quantity<$v, { L.dimension_mul(R) }>; fn mul(self, o: Quantity<$v, R>) -> Self::Output { Quantity(o.0 * self.0) } }
} }
vx_vector!(VEC2, x, y);
vx_vector!(VEC3, x, y, z);
impl<const D: Dimension> Quantity<VEC2, D> {
    pub fn new_x(x: Quantity<SCALAR, D>) -> Self { Quantity(<VEC2>::new(x.0, <SCALAR>::default())) }
    pub fn new_y(y: Quantity<SCALAR, D>) -> Self { Quantity(<VEC2>::new(<SCALAR>::default(), y.0)) }
}
impl<const D: Dimension> Quantity<VEC3, D> {
    pub fn new_x(x: Quantity<SCALAR, D>) -> Self { Quantity(<VEC3>::new(x.0, <SCALAR>::default(), <SCALAR>::default())) }
    pub fn new_y(y: Quantity<SCALAR, D>) -> Self { Quantity(<VEC3>::new(<SCALAR>::default(), y.0, <SCALAR>::default())) }
    pub fn new_z(z: Quantity<SCALAR, D>) -> Self { Quantity(<VEC3>::new(<SCALAR>::default(), <SCALAR>::default(), z.0)) }
}
"""


def fields_of(dim_src):
    it = rustx.find(dim_src, ["struct Dimension"])
    txt = " ".join(t.text for t in it.toks)
    return re.findall(r"pub (\w+) : i32", txt)


def dimension_rs(dim_src, fields):
    t = re.sub(r"use diman::dimension;\n?", "", dim_src)
    if "#[dimension]" not in t:
        raise LostAnchor("#[dimension] not found")
    t = t.replace("#[dimension]", "#[derive(Clone, Copy, PartialEq, Eq, Debug, std::marker::ConstParamTy)]")
    f = lambda op: "Dimension { " + ", ".join("%s: %s" % (x, op.replace("#", x)) for x in fields) + " }"
    return t + """
impl Dimension {
    pub const fn dimension_mul(self, o: Self) -> Self { %s }
    pub const fn dimension_div(self, o: Self) -> Self { %s }
    pub const fn dimension_inv(self) -> Self { %s }
    pub const fn dimension_powi(self, n: i32) -> Self { %s }
    pub const fn dimension_sqrt(self) -> Self { %s }
    pub const fn dimension_cbrt(self) -> Self { %s }
}
""" % (f("self.# + o.#"), f("self.# - o.#"), f("-self.#"), f("self.# * n"), f("self.# / 2"), f("self.# / 3"))


def files(append_mod="", specific=True, symbolic=False):
    """File entries for mirror.generate: src/units of /repo with the macro expanded."""
    fields = fields_of(mirror.read("src/units/dimension.rs"))

    def mod_rs(text):
        text = re.sub(r"use diman::unit_system;\n?", "", text)
        text = re.sub(r"#\[rustfmt::skip\]\s*(?=unit_system!)", "", text)
        text = expand(text, fields, symbolic)
        if not specific:
            text = text.replace("mod specific_impls;", "")
        return text

    re_ = [sym.reals] if symbolic else []
    fs = [
        {"src": "src/units/mod.rs", "transform": [mod_rs], "append": append_mod},
        {"src": "src/units/dimension.rs", "transform": [lambda t: dimension_rs(t, fields)] + re_},
        {"src": "src/units/helpers.rs", "transform": re_},
    ]
    if specific:
        fs.append({"src": "src/units/specific_impls.rs", "transform": re_})
    return fs


# cosmology.rs without what is written to output files
COSMOLOGY_DROP = ["use bevy_ecs", "use hdf5", "use crate::impl_attribute", "use crate::io", "fn set_initial_cosmology_attributes_system", "struct ScaleFactor", "struct Redshift", "struct LittleH", "struct OmegaLambda", "struct Omega0"]


def cosmology(symbolic=False, append="", attributes=False):
    """src/cosmology.rs; without what hands its numbers to bevy and HDF5, unless attributes are wanted"""
    bare = lambda t: re.sub(r"(?m)^impl_attribute!.*$", "", t)
    return {"src": "src/cosmology.rs", "drop": ["use crate::impl_attribute", "use crate::io"] if attributes else COSMOLOGY_DROP, "transform": [bare] + ([sym.reals] if symbolic else []), "append": append}


FEATURES = "#![feature(generic_const_exprs, adt_const_params)]\n#![allow(incomplete_features)]\n"
