//! Reference model: what a line has recorded, what matchers and selection operations must
//! return. Deliberately naive (linear scans over one list), sharing no code with /repo.

use crate::rng::{hash_str, mix, Rng};
use layered_nlp::x::{self, ToIdx, XDirection, XMatch};
use layered_nlp::{
    create_line_from_input_tokens, AnyAttribute, InputToken, LLCursorAssignment, LLLine,
    LLSelection, LToken, Resolver, TextTag,
};
use std::cell::RefCell;
use std::collections::BTreeMap;

pub type Rg = (usize, usize);

/// Attribute types of the workloads.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Ty {
    A,
    B,
    S,
    Z,
    U,
    /// marker put on custom tokens so they can be selected
    M,
    Ch,
    Tag,
    /// zero-sized and equal to nothing, not even itself
    N,
    /// f64, with NaN and both zeros
    F,
}
pub const ALL_TYS: &[Ty] = &[Ty::A, Ty::B, Ty::S, Ty::Z, Ty::U, Ty::M, Ty::Ch, Ty::Tag, Ty::N, Ty::F];
pub const USER_TYS: &[Ty] = &[Ty::A, Ty::A, Ty::B, Ty::B, Ty::S, Ty::Z, Ty::U, Ty::N, Ty::F];

/// A value as the model sees it: `class` decides equality, `id` tells equal values apart.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Mv {
    pub class: u32,
    pub id: u32,
}

/// Class of values which are equal to nothing, like NaN.
pub const NEVER_EQ: u32 = 255;

#[derive(Clone)]
pub struct A(pub u32, pub u32);
#[derive(Clone)]
pub struct B(pub u32, pub u32);
#[derive(Clone, PartialEq, Debug)]
pub struct S(pub String);
#[derive(Clone, PartialEq, Debug)]
pub struct Z;
#[derive(Clone, PartialEq, Debug)]
pub struct M(pub u32);

#[derive(Clone, Debug)]
pub struct N;
impl PartialEq for N {
    fn eq(&self, _: &N) -> bool {
        false
    }
}

impl PartialEq for A {
    fn eq(&self, o: &A) -> bool {
        self.0 == o.0 && self.0 != NEVER_EQ
    }
}
impl PartialEq for B {
    fn eq(&self, o: &B) -> bool {
        self.0 == o.0 && self.0 != NEVER_EQ
    }
}
// The Debug text does not tell classes apart: equality must not be decided on it.
impl std::fmt::Debug for A {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "V#{}", self.1)
    }
}
impl std::fmt::Debug for B {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "V#{}", self.1)
    }
}

pub trait Val: Clone + PartialEq + std::fmt::Debug + Send + Sync + 'static {
    const TY: Ty;
    fn mv(&self) -> Mv;
    fn of(mv: Mv) -> Self;
}
impl Val for A {
    const TY: Ty = Ty::A;
    fn mv(&self) -> Mv {
        Mv { class: self.0, id: self.1 }
    }
    fn of(m: Mv) -> Self {
        A(m.class, m.id)
    }
}
impl Val for B {
    const TY: Ty = Ty::B;
    fn mv(&self) -> Mv {
        Mv { class: self.0, id: self.1 }
    }
    fn of(m: Mv) -> Self {
        B(m.class, m.id)
    }
}
impl Val for S {
    const TY: Ty = Ty::S;
    fn mv(&self) -> Mv {
        let class = self.0[1..].parse().unwrap_or(u32::MAX);
        Mv { class, id: 0 }
    }
    fn of(m: Mv) -> Self {
        S(format!("s{}", m.class))
    }
}
impl Val for Z {
    const TY: Ty = Ty::Z;
    fn mv(&self) -> Mv {
        Mv { class: 0, id: 0 }
    }
    fn of(_: Mv) -> Self {
        Z
    }
}
impl Val for u32 {
    const TY: Ty = Ty::U;
    fn mv(&self) -> Mv {
        Mv { class: *self, id: 0 }
    }
    fn of(m: Mv) -> Self {
        m.class
    }
}
impl Val for N {
    const TY: Ty = Ty::N;
    fn mv(&self) -> Mv {
        Mv { class: 0, id: 0 }
    }
    fn of(_: Mv) -> Self {
        N
    }
}
impl Val for f64 {
    const TY: Ty = Ty::F;
    fn mv(&self) -> Mv {
        Mv { class: if self.is_nan() { NEVER_EQ } else { self.abs() as u32 }, id: self.is_sign_negative() as u32 }
    }
    fn of(m: Mv) -> Self {
        let v = if m.class == NEVER_EQ { f64::NAN.abs() } else { m.class as f64 };
        if m.id == 1 {
            -v
        } else {
            v
        }
    }
}
impl Val for M {
    const TY: Ty = Ty::M;
    fn mv(&self) -> Mv {
        Mv { class: self.0, id: 0 }
    }
    fn of(m: Mv) -> Self {
        M(m.class)
    }
}
impl Val for char {
    const TY: Ty = Ty::Ch;
    fn mv(&self) -> Mv {
        Mv { class: *self as u32, id: 0 }
    }
    fn of(m: Mv) -> Self {
        char::from_u32(m.class).unwrap()
    }
}
pub fn tag_class(t: &TextTag) -> u32 {
    match t {
        TextTag::NATN => 0,
        TextTag::PUNC => 1,
        TextTag::SYMB => 2,
        TextTag::SPACE => 3,
        TextTag::WORD => 4,
    }
}
impl Val for TextTag {
    const TY: Ty = Ty::Tag;
    fn mv(&self) -> Mv {
        Mv { class: tag_class(self), id: 0 }
    }
    fn of(m: Mv) -> Self {
        match m.class {
            0 => TextTag::NATN,
            1 => TextTag::PUNC,
            2 => TextTag::SYMB,
            3 => TextTag::SPACE,
            _ => TextTag::WORD,
        }
    }
}

#[macro_export]
macro_rules! with_ty {
    ($ty:expr, $T:ident => $e:expr) => {
        match $ty {
            $crate::model::Ty::A => { type $T = $crate::model::A; $e }
            $crate::model::Ty::B => { type $T = $crate::model::B; $e }
            $crate::model::Ty::S => { type $T = $crate::model::S; $e }
            $crate::model::Ty::Z => { type $T = $crate::model::Z; $e }
            $crate::model::Ty::U => { type $T = u32; $e }
            $crate::model::Ty::M => { type $T = $crate::model::M; $e }
            $crate::model::Ty::Ch => { type $T = char; $e }
            $crate::model::Ty::Tag => { type $T = layered_nlp::TextTag; $e }
            $crate::model::Ty::N => { type $T = $crate::model::N; $e }
            $crate::model::Ty::F => { type $T = f64; $e }
        }
    };
}

pub fn mv_eq(ty: Ty, a: Mv, b: Mv) -> bool {
    match ty {
        Ty::A | Ty::B => a.class == b.class && a.class != NEVER_EQ,
        Ty::N => false,
        // only zero is equal to its negative
        Ty::F => a.class == b.class && a.class != NEVER_EQ && (a.id == b.id || a.class == 0),
        _ => a.class == b.class,
    }
}

pub fn leaf(ty: Ty, v: Mv) -> u64 {
    mix(mix(11 + ty as u64, v.class as u64), v.id as u64)
}
pub const EQ_OUT: u64 = 0x5151;

// ------------------------------------------------------------------ matchers

#[derive(Clone, Debug)]
pub enum Mat {
    Attr(Ty),
    Eq(Ty, Mv),
    HasAny(Ty, Vec<Mv>),
    Text,
    White,
    Seq2(Box<Mat>, Box<Mat>),
    Seq3(Box<Mat>, Box<Mat>, Box<Mat>),
    All2(Box<Mat>, Box<Mat>),
    All3(Box<Mat>, Box<Mat>, Box<Mat>),
    Any2(Box<Mat>, Box<Mat>),
    Any3(Box<Mat>, Box<Mat>, Box<Mat>),
}

impl Mat {
    pub fn is_leaf(&self) -> bool {
        matches!(self, Mat::Attr(_) | Mat::Eq(..) | Mat::HasAny(..) | Mat::Text | Mat::White)
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Mat::Attr(_) => "attr",
            Mat::Eq(..) => "attr_eq",
            Mat::HasAny(..) => "token_has_any",
            Mat::Text => "token_text",
            Mat::White => "whitespace",
            Mat::Seq2(..) => "seq2",
            Mat::Seq3(..) => "seq3",
            Mat::All2(..) => "all2",
            Mat::All3(..) => "all3",
            Mat::Any2(..) => "any2",
            Mat::Any3(..) => "any3",
        }
    }
}

fn o3(k: u64, a: u64, b: u64, c: u64) -> u64 {
    mix(mix(mix(k, a), b), c)
}
fn o2(k: u64, a: u64, b: u64) -> u64 {
    mix(mix(k, a), b)
}

struct R<'m>(&'m Mat);
impl<'l> XMatch<'l> for R<'_> {
    type Out = u64;
    fn go<D: XDirection<'l>>(&self, d: &D, line: &'l LLLine) -> Vec<(u64, ToIdx)> {
        self.0.go(d, line)
    }
}

/// The equality matchers (and whitespace) under their own result type.
struct Unit<'m>(&'m Mat);
impl<'l> XMatch<'l> for Unit<'_> {
    type Out = ();
    fn go<D: XDirection<'l>>(&self, d: &D, l: &'l LLLine) -> Vec<((), ToIdx)> {
        match self.0 {
            Mat::Eq(ty, mv) => with_ty!(*ty, T => x::attr_eq(&<T as Val>::of(*mv)).go(d, l)),
            _ => x::whitespace().go(d, l),
        }
    }
}

fn outs<V, F: Fn(V) -> u64>(v: Vec<(V, ToIdx)>, f: F) -> Vec<(u64, ToIdx)> {
    v.into_iter().map(|(o, t)| (f(o), t)).collect()
}

/// Runs something with a matcher under its own types: what a matcher yields decides which code
/// is compiled, so hashes alone are not enough.
pub trait Native<'l>: Sized {
    type Res;
    fn with<M: XMatch<'l>, H: Fn(M::Out) -> u64>(self, m: &M, h: H) -> Self::Res;
}
/// Parts of composites: (), &str or anything else as a hash.
macro_rules! part {
    ($mat:expr, |$m:ident, $h:ident| $e:expr) => {
        match &**$mat {
            Mat::Eq(..) | Mat::White => {
                let ($m, $h) = (Unit($mat), |()| EQ_OUT);
                $e
            }
            Mat::Text => {
                let ($m, $h) = (x::token_text(), hash_str);
                $e
            }
            _ => {
                let ($m, $h) = (R($mat), |o: u64| o);
                $e
            }
        }
    };
}
/// Three of them: some of the mixtures, the others as hashes.
macro_rules! parts3 {
    ($a:expr, $b:expr, $c:expr, |$x:ident, $hx:ident, $y:ident, $hy:ident, $z:ident, $hz:ident| $e:expr) => {{
        let unit = |m: &Mat| matches!(m, Mat::Eq(..) | Mat::White);
        let text = |m: &Mat| matches!(m, Mat::Text);
        let (ua, ub, uc) = (unit($a), unit($b), unit($c));
        if ua && ub && uc {
            let ($x, $hx, $y, $hy, $z, $hz) = (Unit($a), |()| EQ_OUT, Unit($b), |()| EQ_OUT, Unit($c), |()| EQ_OUT);
            $e
        } else if text($a) && text($b) && text($c) {
            let ($x, $hx, $y, $hy, $z, $hz) = (x::token_text(), hash_str, x::token_text(), hash_str, x::token_text(), hash_str);
            $e
        } else if ua {
            let ($x, $hx, $y, $hy, $z, $hz) = (Unit($a), |()| EQ_OUT, R($b), |o: u64| o, R($c), |o: u64| o);
            $e
        } else if ub {
            let ($x, $hx, $y, $hy, $z, $hz) = (R($a), |o: u64| o, Unit($b), |()| EQ_OUT, R($c), |o: u64| o);
            $e
        } else if uc {
            let ($x, $hx, $y, $hy, $z, $hz) = (R($a), |o: u64| o, R($b), |o: u64| o, Unit($c), |()| EQ_OUT);
            $e
        } else {
            let ($x, $hx, $y, $hy, $z, $hz) = (R($a), |o: u64| o, R($b), |o: u64| o, R($c), |o: u64| o);
            $e
        }
    }};
}
/// Whole matchers, as the selection operations get them.
pub fn native<'l, V: Native<'l>>(mat: &Mat, v: V) -> V::Res {
    match mat {
        Mat::Attr(ty @ Ty::A) => v.with(&x::attr::<A>(), |t: &A| leaf(*ty, t.mv())),
        Mat::Attr(ty @ Ty::Z) => v.with(&x::attr::<Z>(), |t: &Z| leaf(*ty, t.mv())),
        Mat::Attr(ty @ Ty::Tag) => v.with(&x::attr::<TextTag>(), |t: &TextTag| leaf(*ty, t.mv())),
        Mat::Eq(..) | Mat::White => v.with(&Unit(mat), |()| EQ_OUT),
        Mat::Text => v.with(&x::token_text(), hash_str),
        Mat::All2(a, b) if matches!((&**a, &**b), (Mat::Eq(..), Mat::Text)) => {
            v.with(&x::all((Unit(a), x::token_text())), |((), t)| o2(4, EQ_OUT, hash_str(t)))
        }
        Mat::Seq2(a, b) if matches!((&**a, &**b), (Mat::Eq(..) | Mat::White, Mat::Eq(..) | Mat::White)) => {
            v.with(&x::seq((Unit(a), Unit(b))), |((), ())| o2(2, EQ_OUT, EQ_OUT))
        }
        _ => v.with(mat, |o| o),
    }
}

/// The real matchers, driven by data. All matching is done by /repo's own matchers; this only
/// erases their result types into hashes so trees of any shape can be generated.
impl<'l> XMatch<'l> for Mat {
    type Out = u64;
    fn go<D: XDirection<'l>>(&self, d: &D, l: &'l LLLine) -> Vec<(u64, ToIdx)> {
        match self {
            Mat::Attr(ty) => with_ty!(*ty, T => outs(x::attr::<T>().go(d, l), |v: &T| leaf(*ty, v.mv()))),
            Mat::Eq(..) | Mat::White => outs(Unit(self).go(d, l), |()| EQ_OUT),
            Mat::HasAny(ty, mvs) => with_ty!(*ty, T => {
                let vs: Vec<T> = mvs.iter().map(|mv| <T as Val>::of(*mv)).collect();
                outs(x::token_has_any(&vs).go(d, l), |v: &T| leaf(*ty, v.mv()))
            }),
            Mat::Text => outs(x::token_text().go(d, l), hash_str),
            Mat::Seq2(a, b) => {
                part!(a, |a, ha| part!(b, |b, hb| outs(x::seq((a, b)).go(d, l), |(a, b)| o2(2, ha(a), hb(b)))))
            }
            Mat::Seq3(a, b, c) => parts3!(a, b, c, |a, ha, b, hb, c, hc| {
                outs(x::seq((a, b, c)).go(d, l), |(a, b, c)| o3(3, ha(a), hb(b), hc(c)))
            }),
            Mat::All2(a, b) => {
                part!(a, |a, ha| part!(b, |b, hb| outs(x::all((a, b)).go(d, l), |(a, b)| o2(4, ha(a), hb(b)))))
            }
            Mat::All3(a, b, c) => parts3!(a, b, c, |a, ha, b, hb, c, hc| {
                outs(x::all((a, b, c)).go(d, l), |(a, b, c)| o3(5, ha(a), hb(b), hc(c)))
            }),
            Mat::Any2(a, b) => part!(a, |a, ha| part!(b, |b, hb| outs(x::any_of((a, b)).go(d, l), |o| match o {
                x::AnyOf2::A(a) => mix(6, ha(a)),
                x::AnyOf2::B(b) => mix(7, hb(b)),
            }))),
            Mat::Any3(a, b, c) => parts3!(a, b, c, |a, ha, b, hb, c, hc| {
                outs(x::any_of((a, b, c)).go(d, l), |o| match o {
                    x::AnyOf3::A(a) => mix(8, ha(a)),
                    x::AnyOf3::B(b) => mix(9, hb(b)),
                    x::AnyOf3::C(c) => mix(10, hc(c)),
                })
            }),
        }
    }
}

// ------------------------------------------------------------------ model line

#[derive(Clone, Debug)]
pub struct MTok {
    pub text: Option<String>,
    pub tag: Option<TextTag>,
    pub start: usize,
    pub end: usize,
}

#[derive(Clone, Default, Debug)]
pub struct MLine {
    pub toks: Vec<MTok>,
    /// per type: spans in order of first recording, each with its values in recording order
    pub store: BTreeMap<Ty, Vec<(Rg, Vec<Mv>)>>,
    pub input_spans: Vec<Rg>,
    edges: RefCell<Edges>,
}

/// For long lines only: per type and direction, the spans beginning at a token, by their place
/// in the store. Made on demand, forgotten when something is inserted.
type Edges = BTreeMap<(Ty, bool), Vec<Vec<usize>>>;
const LONG: usize = 2000;

#[derive(Debug)]
pub struct TooBig;

pub const CAP: usize = 4000;

impl MLine {
    pub fn n(&self) -> usize {
        self.toks.len()
    }
    pub fn insert(&mut self, ty: Ty, rg: Rg, v: Mv) {
        self.edges.borrow_mut().clear();
        let e = self.store.entry(ty).or_default();
        if let Some((_, vs)) = e.iter_mut().find(|(r, _)| *r == rg) {
            vs.push(v);
        } else {
            e.push((rg, vec![v]));
        }
    }
    pub fn spans(&self, ty: Ty) -> &[(Rg, Vec<Mv>)] {
        self.store.get(&ty).map_or(&[], |v| v.as_slice())
    }
    pub fn text_of(&self, rg: Rg) -> String {
        self.toks[rg.0..=rg.1].iter().map(|t| t.text.as_deref().unwrap_or("")).collect()
    }
    /// Tokens a harness can select on their own (custom tokens need a marker).
    pub fn selectable(&self) -> Vec<bool> {
        let mut v: Vec<bool> = self.toks.iter().map(|t| t.text.is_some()).collect();
        for ((a, b), _) in self.spans(Ty::M) {
            if a == b {
                v[*a] = true;
            }
        }
        v
    }

    fn attr(&self, ty: Ty, fwd: bool, i: usize) -> Vec<(Mv, usize)> {
        let mut out = vec![];
        if self.n() > LONG {
            let mut edges = self.edges.borrow_mut();
            let lists = edges.entry((ty, fwd)).or_insert_with(|| {
                let mut v = vec![vec![]; self.n()];
                for (k, ((s, e), _)) in self.spans(ty).iter().enumerate() {
                    v[if fwd { *s } else { *e }].push(k);
                }
                v
            });
            for k in &lists[i] {
                let ((s, e), vs) = &self.spans(ty)[*k];
                out.extend(vs.iter().map(|v| (*v, if fwd { *e } else { *s })));
            }
            return out;
        }
        for ((s, e), vs) in self.spans(ty) {
            let (at, to) = if fwd { (*s, *e) } else { (*e, *s) };
            if at == i {
                for v in vs {
                    out.push((*v, to));
                }
            }
        }
        out
    }

    fn after(&self, fwd: bool, idx: usize) -> Option<usize> {
        if fwd {
            (idx + 1 < self.n()).then_some(idx + 1)
        } else {
            idx.checked_sub(1)
        }
    }

    pub fn go(&self, m: &Mat, fwd: bool, i: usize) -> Result<Vec<(u64, usize)>, TooBig> {
        let out: Vec<(u64, usize)> = match m {
            Mat::Attr(ty) => {
                self.attr(*ty, fwd, i).into_iter().map(|(v, t)| (leaf(*ty, v), t)).collect()
            }
            Mat::Eq(ty, q) => self
                .attr(*ty, fwd, i)
                .into_iter()
                .filter(|(v, _)| mv_eq(*ty, *v, *q))
                .map(|(_, t)| (EQ_OUT, t))
                .collect(),
            Mat::HasAny(ty, qs) if self.n() > LONG => self
                .attr(*ty, true, i)
                .into_iter()
                .filter(|(v, to)| *to == i && qs.iter().any(|q| mv_eq(*ty, *q, *v)))
                .map(|(v, _)| (leaf(*ty, v), i))
                .collect(),
            Mat::HasAny(ty, qs) => self
                .spans(*ty)
                .iter()
                .filter(|(r, _)| *r == (i, i))
                .flat_map(|(_, vs)| vs.iter().copied())
                .filter(|v| qs.iter().any(|q| mv_eq(*ty, *q, *v)))
                .map(|v| (leaf(*ty, v), i))
                .collect(),
            Mat::Text => self.toks[i].text.iter().map(|t| (hash_str(t), i)).collect(),
            Mat::White => self.go(&Mat::Eq(Ty::Tag, TextTag::SPACE.mv()), fwd, i)?,
            Mat::Seq2(a, b) => {
                let mut out = vec![];
                for (x, xi) in self.go(a, fwd, i)? {
                    if let Some(j) = self.after(fwd, xi) {
                        for (y, yi) in self.go(b, fwd, j)? {
                            out.push((o2(2, x, y), yi));
                        }
                    }
                    if out.len() > CAP {
                        return Err(TooBig);
                    }
                }
                out
            }
            Mat::Seq3(a, b, c) => {
                let mut out = vec![];
                for (x, xi) in self.go(a, fwd, i)? {
                    if let Some(j) = self.after(fwd, xi) {
                        for (y, yi) in self.go(b, fwd, j)? {
                            if let Some(k) = self.after(fwd, yi) {
                                for (z, zi) in self.go(c, fwd, k)? {
                                    out.push((o3(3, x, y, z), zi));
                                }
                            }
                        }
                    }
                    if out.len() > CAP {
                        return Err(TooBig);
                    }
                }
                out
            }
            Mat::All2(a, b) => {
                let bs = self.go(b, fwd, i)?;
                let mut out = vec![];
                for (x, xi) in self.go(a, fwd, i)? {
                    for (y, yi) in &bs {
                        if xi == *yi {
                            out.push((o2(4, x, *y), xi));
                        }
                    }
                    if out.len() > CAP {
                        return Err(TooBig);
                    }
                }
                out
            }
            Mat::All3(a, b, c) => {
                let bs = self.go(b, fwd, i)?;
                let cs = self.go(c, fwd, i)?;
                let xs = self.go(a, fwd, i)?;
                if xs.len() * bs.len() * cs.len() > CAP * 10 {
                    return Err(TooBig);
                }
                let mut out = vec![];
                for (x, xi) in xs {
                    for (y, yi) in &bs {
                        for (z, zi) in &cs {
                            if xi == *yi && xi == *zi {
                                out.push((o3(5, x, *y, *z), xi));
                            }
                        }
                    }
                }
                out
            }
            Mat::Any2(a, b) => {
                let xs = self.go(a, fwd, i)?;
                if !xs.is_empty() {
                    xs.into_iter().map(|(o, t)| (mix(6, o), t)).collect()
                } else {
                    self.go(b, fwd, i)?.into_iter().map(|(o, t)| (mix(7, o), t)).collect()
                }
            }
            Mat::Any3(a, b, c) => {
                let xs = self.go(a, fwd, i)?;
                let ys = self.go(b, fwd, i)?;
                if !xs.is_empty() {
                    xs.into_iter().map(|(o, t)| (mix(8, o), t)).collect()
                } else if !ys.is_empty() {
                    ys.into_iter().map(|(o, t)| (mix(9, o), t)).collect()
                } else {
                    self.go(c, fwd, i)?.into_iter().map(|(o, t)| (mix(10, o), t)).collect()
                }
            }
        };
        if out.len() > CAP {
            return Err(TooBig);
        }
        Ok(out)
    }
}

// ------------------------------------------------------------------ selection operations

#[derive(Clone, Debug)]
pub enum Op {
    Find(Mat),
    FindFirst(Mat),
    FindBoth(Mat),
    MatchF(Mat),
    MatchFirstF(Mat),
    MatchB(Mat),
    MatchFirstB(Mat),
    SplitBy(Mat),
    TrimS(Mat),
    TrimE(Mat),
    Trim(Mat),
    After,
    /// with the selection over this span
    SplitWith(Rg),
    Cloned,
}

/// One result slot: absent, or a span with the hash of the matched output.
pub type Slot = Option<(Rg, u64)>;

impl Op {
    pub fn name(&self) -> &'static str {
        match self {
            Op::Find(_) => "find_by",
            Op::FindFirst(_) => "find_first_by",
            Op::FindBoth(_) => "find_by_forwards_and_backwards",
            Op::MatchF(_) => "match_forwards",
            Op::MatchFirstF(_) => "match_first_forwards",
            Op::MatchB(_) => "match_backwards",
            Op::MatchFirstB(_) => "match_first_backwards",
            Op::SplitBy(_) => "split_by",
            Op::TrimS(_) => "trim_start",
            Op::TrimE(_) => "trim_end",
            Op::Trim(_) => "trim",
            Op::After => "after",
            Op::SplitWith(_) => "split_with",
            Op::Cloned => "clone",
        }
    }
    pub fn mat(&self) -> Option<&Mat> {
        match self {
            Op::Find(m) | Op::FindFirst(m) | Op::FindBoth(m) | Op::MatchF(m) | Op::MatchFirstF(m) | Op::MatchB(m)
            | Op::MatchFirstB(m) | Op::SplitBy(m) | Op::TrimS(m) | Op::TrimE(m) | Op::Trim(m) => Some(m),
            _ => None,
        }
    }

    pub fn real(&self, sel: &LLSelection, other: Option<&LLSelection>) -> Vec<Option<(LLSelection, u64)>> {
        struct Run<'s>(&'s Op, &'s LLSelection);
        impl<'s> Native<'s> for Run<'s> {
            type Res = Vec<Option<(LLSelection, u64)>>;
            fn with<M: XMatch<'s>, H: Fn(M::Out) -> u64>(self, m: &M, h: H) -> Self::Res {
                let Run(op, sel) = self;
                let all = |v: Vec<(LLSelection, M::Out)>| v.into_iter().map(|(s, o)| Some((s, h(o)))).collect();
                let one = |v: Option<(LLSelection, M::Out)>| v.into_iter().map(|(s, o)| Some((s, h(o)))).collect();
                match op {
                    Op::Find(_) => all(sel.find_by(m)),
                    Op::FindFirst(_) => one(sel.find_first_by(m)),
                    Op::FindBoth(_) => all(sel.find_by_forwards_and_backwards(m)),
                    Op::MatchF(_) => all(sel.match_forwards(m)),
                    Op::MatchFirstF(_) => one(sel.match_first_forwards(m)),
                    Op::MatchB(_) => all(sel.match_backwards(m)),
                    Op::MatchFirstB(_) => one(sel.match_first_backwards(m)),
                    Op::SplitBy(_) => sels(sel.split_by(m)),
                    Op::TrimS(_) => sels(sel.trim_start(m)),
                    Op::TrimE(_) => sels(sel.trim_end(m)),
                    Op::Trim(_) => sels(sel.trim(m)),
                    Op::After | Op::SplitWith(_) | Op::Cloned => unreachable!(),
                }
            }
        }
        fn sels<I: IntoIterator<Item = LLSelection>>(v: I) -> Vec<Option<(LLSelection, u64)>> {
            v.into_iter().map(|s| Some((s, 0))).collect()
        }
        match self {
            Op::After => sels(sel.after()),
            Op::SplitWith(_) => {
                let [l, r] = sel.split_with(other.unwrap());
                vec![l.map(|s| (s, 0)), r.map(|s| (s, 0))]
            }
            Op::Cloned => sels(Some(sel.clone())),
            _ => native(self.mat().unwrap(), Run(self, sel)),
        }
    }

    pub fn model(&self, l: &MLine, (s, e): Rg) -> Result<Vec<Slot>, TooBig> {
        let n = l.n();
        let keep = |v: Option<Rg>| -> Vec<Slot> { v.map(|r| Some((r, 0))).into_iter().collect() };
        let span = |a: usize, b: usize| -> Option<Rg> { (a < b).then(|| (a, b - 1)) }; // half open
        Ok(match self {
            Op::Find(m) => {
                let mut out = vec![];
                for i in s..=e {
                    for (o, t) in l.go(m, true, i)? {
                        out.push(Some(((i, t), o)));
                    }
                    if out.len() > CAP {
                        return Err(TooBig);
                    }
                }
                out
            }
            Op::FindFirst(m) => Op::Find(m.clone()).model(l, (s, e))?.into_iter().take(1).collect(),
            Op::FindBoth(m) => {
                let mut out = vec![];
                for i in s..=e {
                    for (o, t) in l.go(m, true, i)? {
                        out.push(Some(((i, t), o)));
                    }
                    for (o, t) in l.go(m, false, i)? {
                        out.push(Some(((t, i), o)));
                    }
                    if out.len() > CAP {
                        return Err(TooBig);
                    }
                }
                out
            }
            Op::MatchF(m) => {
                if e + 1 >= n {
                    vec![]
                } else {
                    l.go(m, true, e + 1)?.into_iter().map(|(o, t)| Some(((s, t), o))).collect()
                }
            }
            Op::MatchFirstF(m) => Op::MatchF(m.clone()).model(l, (s, e))?.into_iter().take(1).collect(),
            Op::MatchB(m) => {
                if s == 0 {
                    vec![]
                } else {
                    l.go(m, false, s - 1)?.into_iter().map(|(o, t)| Some(((t, e), o))).collect()
                }
            }
            Op::MatchFirstB(m) => Op::MatchB(m.clone()).model(l, (s, e))?.into_iter().take(1).collect(),
            Op::SplitBy(m) => {
                let mut covered = vec![false; n];
                for i in s..=e {
                    for (_, t) in l.go(m, true, i)? {
                        for c in &mut covered[i..=t] {
                            *c = true;
                        }
                    }
                }
                let mut out = vec![];
                let mut i = s;
                while i <= e {
                    if covered[i] {
                        i += 1;
                        continue;
                    }
                    let a = i;
                    while i <= e && !covered[i] {
                        i += 1;
                    }
                    out.push(Some(((a, i - 1), 0)));
                }
                out
            }
            Op::TrimS(m) | Op::TrimE(m) | Op::Trim(m) => {
                let (mut a, mut b) = (s, e + 1);
                if !matches!(self, Op::TrimE(_)) {
                    if let Some((_, t)) = l.go(m, true, s)?.first() {
                        a = t + 1;
                    }
                }
                if !matches!(self, Op::TrimS(_)) {
                    if let Some((_, t)) = l.go(m, false, e)?.first() {
                        b = *t;
                    }
                }
                keep(span(a, b))
            }
            Op::After => keep(span(e + 1, n)),
            Op::SplitWith((os, oe)) => {
                vec![
                    span(s, (*os).min(e + 1)).map(|r| (r, 0)),
                    span(s.max(oe + 1), e + 1).map(|r| (r, 0)),
                ]
            }
            Op::Cloned => keep(Some((s, e))),
        })
    }
}

// ------------------------------------------------------------------ building lines

#[derive(Clone, Debug)]
pub enum In {
    Text(String),
    Custom(usize),
}
#[derive(Clone, Debug)]
pub struct InSpec {
    pub kind: In,
    pub attrs: Vec<(Ty, Mv)>,
    /// the last `late` attributes are added with add_attr
    pub late: usize,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Measure {
    Bytes,
    Utf16,
    Chars,
    Width,
    Zero,
    Weird,
}
pub const MEASURES: &[Measure] = &[
    Measure::Bytes,
    Measure::Utf16,
    Measure::Chars,
    Measure::Width,
    Measure::Zero,
    Measure::Weird,
];
impl Measure {
    pub fn of(self, s: &str) -> usize {
        match self {
            Measure::Bytes => s.len(),
            Measure::Utf16 => s.encode_utf16().count(),
            Measure::Chars => s.chars().count(),
            Measure::Width => unicode_width::UnicodeWidthStr::width(s),
            Measure::Zero => 0,
            // not additive over concatenation
            Measure::Weird => (hash_str(s) % 1_000_003) as usize,
        }
    }
}

pub fn any_attr(ty: Ty, v: Mv) -> AnyAttribute {
    with_ty!(ty, T => AnyAttribute::new(<T as Val>::of(v)))
}

pub fn real_inputs(specs: &[InSpec]) -> Vec<InputToken> {
    specs
        .iter()
        .map(|s| {
            let cut = s.attrs.len() - s.late.min(s.attrs.len());
            let attrs: Vec<AnyAttribute> = s.attrs[..cut].iter().map(|(t, v)| any_attr(*t, *v)).collect();
            let mut tok = match &s.kind {
                In::Text(t) => InputToken::text(t.clone(), attrs),
                In::Custom(n) => InputToken::custom(*n, attrs),
            };
            for (ty, v) in &s.attrs[cut..] {
                with_ty!(*ty, T => tok.add_attr(<T as Val>::of(*v)));
            }
            tok
        })
        .collect()
}

pub fn observed_tokens(line: &LLLine) -> Vec<Option<(String, TextTag)>> {
    line.ll_tokens()
        .iter()
        .map(|t| match t.get_token() {
            LToken::Text(s, tag) => Some((s.clone(), tag.clone())),
            LToken::Value => None,
        })
        .collect()
}

/// Token span of each input, from the observed tokens. `Err` if they do not add up to the input.
pub fn input_spans(specs: &[InSpec], toks: &[Option<(String, TextTag)>]) -> Result<Vec<Rg>, String> {
    let mut i = 0;
    let mut spans = vec![];
    for (k, s) in specs.iter().enumerate() {
        let a = i;
        match &s.kind {
            In::Text(t) => {
                let mut rest = t.as_str();
                while !rest.is_empty() {
                    match toks.get(i) {
                        Some(Some((x, _))) if !x.is_empty() && rest.starts_with(x.as_str()) => {
                            rest = &rest[x.len()..];
                            i += 1;
                        }
                        other => {
                            return Err(format!(
                                "input {k} {t:?}: token {i} is {other:?} where {rest:?} should continue"
                            ))
                        }
                    }
                }
            }
            In::Custom(_) => match toks.get(i) {
                Some(None) => i += 1,
                other => return Err(format!("input {k} is custom but token {i} is {other:?}")),
            },
        }
        spans.push((a, i - 1));
    }
    if i != toks.len() {
        return Err(format!("{} tokens for an input of {}", toks.len(), i));
    }
    Ok(spans)
}

/// Builds the real line and the model of it. Tokens and tags are taken from the real line (they
/// are decided by C01-C03); everything recorded on top is modelled.
pub fn build(specs: &[InSpec], measure: Measure) -> Result<(LLLine, MLine), String> {
    let line = create_line_from_input_tokens(real_inputs(specs), |s| measure.of(s));
    let toks = observed_tokens(&line);
    let spans = input_spans(specs, &toks)?;
    let mut m = MLine { input_spans: spans.clone(), ..Default::default() };
    let mut pos = 0;
    let mut k = 0;
    for (i, t) in toks.into_iter().enumerate() {
        while spans[k].1 < i {
            k += 1;
        }
        let size = match (&t, &specs[k].kind) {
            (None, In::Custom(n)) => *n,
            (Some((s, _)), _) => measure.of(s),
            _ => unreachable!(),
        };
        let (text, tag) = match t {
            Some((s, tag)) => (Some(s), Some(tag)),
            None => (None, None),
        };
        m.toks.push(MTok { text, tag, start: pos, end: pos + size });
        pos += size;
    }
    for i in 0..m.toks.len() {
        if let Some(t) = m.toks[i].text.clone() {
            let mut cs = t.chars();
            if let (Some(c), None) = (cs.next(), cs.next()) {
                fast_insert(&mut m, Ty::Ch, (i, i), c.mv());
            }
            let tag = m.toks[i].tag.clone().unwrap();
            fast_insert(&mut m, Ty::Tag, (i, i), tag.mv());
        }
    }
    for (s, sp) in specs.iter().zip(&spans) {
        for (ty, v) in &s.attrs {
            m.insert(*ty, *sp, *v);
        }
    }
    Ok((line, m))
}

/// insert for a span known to be new
fn fast_insert(m: &mut MLine, ty: Ty, rg: Rg, v: Mv) {
    m.edges.borrow_mut().clear();
    m.store.entry(ty).or_default().push((rg, vec![v]));
}

// ------------------------------------------------------------------ selections over given spans

pub struct Cutter {
    full: LLSelection,
    singles: Vec<Option<LLSelection>>,
}

impl Cutter {
    pub fn new(full: &LLSelection, m: &MLine) -> Self {
        let mut singles = vec![None; m.n()];
        let mut texts = full.find_by(&x::token_text()).into_iter();
        for (i, t) in m.toks.iter().enumerate() {
            if t.text.is_some() {
                singles[i] = texts.next().map(|(s, _)| s);
            }
        }
        if !m.spans(Ty::M).is_empty() {
            // markers are unique: their class is the token index plus one
            for (sel, v) in full.find_by(&x::attr::<M>()) {
                if let Some(s) = (v.0 as usize).checked_sub(1).and_then(|i| singles.get_mut(i)) {
                    *s = Some(sel);
                }
            }
        }
        Cutter { full: full.clone(), singles }
    }
    /// The selection over `rg`; only for spans accepted by [can_cut].
    pub fn cut(&self, (a, b): Rg) -> Option<LLSelection> {
        let right = if a == 0 {
            self.full.clone()
        } else if let Some(s) = &self.singles[a - 1] {
            let [_, r] = self.full.split_with(s);
            r?
        } else {
            let [l, _] = self.full.split_with(self.singles[a].as_ref()?);
            let [_, r] = self.full.split_with(&l?);
            r?
        };
        if b + 1 == self.singles.len() {
            Some(right)
        } else if let Some(s) = &self.singles[b + 1] {
            let [l, _] = right.split_with(s);
            l
        } else {
            let [_, r] = right.split_with(self.singles[b].as_ref()?);
            let [l, _] = right.split_with(&r?);
            l
        }
    }
}

pub fn can_cut(sel: &[bool], (a, b): Rg) -> bool {
    let n = sel.len();
    (a == 0 || sel[a - 1] || sel[a]) && (b + 1 == n || sel[b + 1] || sel[b])
}

pub fn random_span(r: &mut Rng, sel: &[bool]) -> Rg {
    let n = sel.len();
    for _ in 0..20 {
        let a = r.below(n);
        let b = match r.below(6) {
            0 | 1 => a,
            2 | 3 => (a + r.below(4)).min(n - 1),
            _ => a + r.below(n - a),
        };
        let (a, b) = match r.below(12) {
            0 => (0, b),
            1 => (a, n - 1),
            2 => (0, n - 1),
            _ => (a, b),
        };
        if can_cut(sel, (a, b)) {
            return (a, b);
        }
    }
    (0, n - 1)
}

/// A resolver from a closure.
pub struct FnResolver<T, F>(pub F, std::marker::PhantomData<T>);
pub fn resolver<T, F: Fn(LLSelection) -> Vec<LLCursorAssignment<T>>>(f: F) -> FnResolver<T, F> {
    FnResolver(f, std::marker::PhantomData)
}
impl<T: std::fmt::Debug + Send + Sync + 'static, F: Fn(LLSelection) -> Vec<LLCursorAssignment<T>>> Resolver
    for FnResolver<T, F>
{
    type Attr = T;
    fn go(&self, s: LLSelection) -> Vec<LLCursorAssignment<T>> {
        (self.0)(s)
    }
}

/// Runs one layer assigning `assigns` and records it in the model.
pub fn run_layer(line: LLLine, m: &mut MLine, ty: Ty, assigns: &[(Rg, Mv)]) -> Result<LLLine, String> {
    let failed = RefCell::new(None);
    let line = with_ty!(ty, T => line.run(&resolver::<T, _>(|full| {
        let cutter = Cutter::new(&full, m);
        assigns
            .iter()
            .filter_map(|(rg, v)| match cutter.cut(*rg) {
                Some(s) => Some(s.finish_with_attr(<T as Val>::of(*v))),
                None => {
                    *failed.borrow_mut() = Some(format!("no selection over {rg:?} could be made with split_with"));
                    None
                }
            })
            .collect()
    })));
    for (rg, v) in assigns {
        m.insert(ty, *rg, *v);
    }
    match failed.into_inner() {
        Some(e) => Err(e),
        None => Ok(line),
    }
}

/// A probe recorded for a selection, so that its span can be read back through `query`.
#[derive(Debug, Clone, PartialEq)]
pub struct Probe(pub u32);

pub fn probe_spans(line: &LLLine, count: usize) -> Result<Vec<Rg>, String> {
    let mut v = vec![None; count];
    for (rg, _, ps) in line.query::<Probe>() {
        for p in ps {
            match v.get_mut(p.0 as usize) {
                Some(slot @ None) => *slot = Some(rg),
                Some(Some(r)) => return Err(format!("selection #{} recorded over {:?} and {:?}", p.0, r, rg)),
                None => return Err(format!("unknown probe {}", p.0)),
            }
        }
    }
    v.into_iter()
        .enumerate()
        .map(|(i, r)| r.ok_or_else(|| format!("assignment for selection #{i} was not recorded")))
        .collect()
}

// ------------------------------------------------------------------ random specs

pub struct Ids(pub u32);
impl Ids {
    pub fn next(&mut self) -> u32 {
        self.0 += 1;
        self.0
    }
}

pub fn random_value(r: &mut Rng, ty: Ty, ids: &mut Ids) -> Mv {
    match ty {
        Ty::A | Ty::B => Mv {
            class: if r.chance(1, 12) { NEVER_EQ } else { r.below(3) as u32 },
            id: ids.next(),
        },
        Ty::S => Mv { class: if r.chance(1, 2) { r.below(4) as u32 } else { 1000 + ids.next() }, id: 0 },
        Ty::Z | Ty::N => Mv { class: 0, id: 0 },
        Ty::F => Mv { class: if r.chance(1, 4) { NEVER_EQ } else { r.below(3) as u32 }, id: r.chance(1, 3) as u32 },
        Ty::U => Mv { class: if r.chance(1, 2) { r.below(4) as u32 } else { 1000 + ids.next() }, id: 0 },
        Ty::M => unreachable!(),
        Ty::Ch => r.pick(&['a', ',', '.', ' ', '€', '7', '😀', 'Z']).mv(),
        Ty::Tag => Mv { class: r.below(5) as u32, id: 0 },
    }
}

pub struct SpecOpts {
    pub max_inputs: usize,
    pub frags: usize,
    pub attr_pct: usize,
    /// also supply values of the types the library assigns itself
    pub lib_types: bool,
    pub custom_pct: usize,
}

pub fn random_ty(r: &mut Rng, lib: bool) -> Ty {
    if lib && r.chance(1, 6) {
        *r.pick(&[Ty::Ch, Ty::Tag])
    } else {
        *r.pick(USER_TYS)
    }
}

pub fn random_specs(r: &mut Rng, o: &SpecOpts, ids: &mut Ids) -> Vec<InSpec> {
    let n = r.range(1, o.max_inputs);
    let mut specs: Vec<InSpec> = (0..n)
        .map(|_| {
            let kind = if r.below(100) < o.custom_pct {
                In::Custom(match r.below(20) {
                    0 => 0,
                    1 => 300 + r.below(70_000),
                    2 => (1usize << 32) + r.below(1000),
                    3 => r.below(1usize << 40),
                    _ => r.below(6),
                })
            } else {
                In::Text(crate::gen::text(r, o.frags))
            };
            let mut attrs = vec![];
            while r.below(100) < o.attr_pct && attrs.len() < 6 {
                let ty = random_ty(r, o.lib_types);
                attrs.push((ty, random_value(r, ty, ids)));
            }
            let late = if r.chance(1, 3) { r.below(attrs.len() + 1) } else { 0 };
            InSpec { kind, attrs, late }
        })
        .collect();
    stretch(r, &mut specs);
    specs
}

/// Now and then one custom token is as big as the positions of the line allow.
pub fn stretch(r: &mut Rng, specs: &mut [InSpec]) {
    let customs: Vec<usize> = (0..specs.len()).filter(|i| matches!(specs[*i].kind, In::Custom(_))).collect();
    if customs.is_empty() || !r.chance(1, 25) {
        return;
    }
    let at = *r.pick(&customs);
    let others = specs.iter().enumerate().filter(|(i, _)| *i != at).try_fold(0usize, |sum, (_, s)| {
        sum.checked_add(match &s.kind {
            In::Custom(n) => *n,
            // no measure gives a token more than this
            In::Text(t) => t.len().checked_mul(1_000_003)?,
        })
    });
    if let Some(left) = others.and_then(|o| usize::MAX.checked_sub(o)) {
        // room for what a check adds to the line afterwards
        specs[at].kind = In::Custom(left.saturating_sub((1 << 50) + r.below(3)));
    }
}

/// Marks most custom tokens; `specs` and the model must come from the same build.
/// Two passes: the token index is only known after a first tokenization.
pub fn mark_customs(r: &mut Rng, specs: &mut [InSpec]) {
    let line = create_line_from_input_tokens(real_inputs(specs), |s| s.len());
    let toks = observed_tokens(&line);
    if let Ok(spans) = input_spans(specs, &toks) {
        for (s, sp) in specs.iter_mut().zip(spans) {
            if matches!(s.kind, In::Custom(_)) && r.chance(7, 10) {
                let at = r.below(s.attrs.len() + 1);
                s.attrs.insert(at, (Ty::M, Mv { class: sp.0 as u32 + 1, id: 0 }));
            }
        }
    }
}

/// A value present in the model for this type, or a random one.
pub fn likely_value(r: &mut Rng, m: &MLine, ty: Ty, ids: &mut Ids) -> Mv {
    let sp = m.spans(ty);
    if !sp.is_empty() && r.chance(5, 6) {
        let (_, vs) = r.pick(sp);
        let v = *r.pick(vs);
        // same class, other id: equal but not identical
        Mv { class: v.class, id: if matches!(ty, Ty::A | Ty::B) { 0 } else { v.id } }
    } else if ty == Ty::M {
        Mv { class: 1, id: 0 }
    } else {
        random_value(r, ty, ids)
    }
}

pub fn random_leaf(r: &mut Rng, m: &MLine, ids: &mut Ids) -> Mat {
    let ty = if r.chance(1, 2) { *r.pick(&[Ty::A, Ty::B]) } else { *r.pick(ALL_TYS) };
    match r.below(10) {
        0..=4 => Mat::Attr(ty),
        5 | 6 => Mat::Eq(ty, likely_value(r, m, ty, ids)),
        7 => {
            let k = r.range(0, 3);
            Mat::HasAny(ty, (0..k).map(|_| likely_value(r, m, ty, ids)).collect())
        }
        8 => Mat::Text,
        _ => {
            if r.chance(1, 2) {
                Mat::White
            } else {
                Mat::Text
            }
        }
    }
}

pub fn random_mat(r: &mut Rng, m: &MLine, ids: &mut Ids, depth: usize) -> Mat {
    if depth == 0 || r.chance(1, 4) {
        return random_leaf(r, m, ids);
    }
    random_composite(r, m, ids, depth)
}

pub fn random_composite(r: &mut Rng, m: &MLine, ids: &mut Ids, depth: usize) -> Mat {
    let k = r.below(6);
    let mut sub = || Box::new(random_mat(r, m, ids, depth - 1));
    match k {
        0 => Mat::Seq2(sub(), sub()),
        1 => Mat::Seq3(sub(), sub(), sub()),
        2 => Mat::All2(sub(), sub()),
        3 => Mat::All3(sub(), sub(), sub()),
        4 => Mat::Any2(sub(), sub()),
        _ => Mat::Any3(sub(), sub(), sub()),
    }
}

// ------------------------------------------------------------------ many types on one span

/// As many unrelated types as wanted.
#[derive(Debug, Clone, PartialEq)]
pub struct Crowd<const K: usize>(pub u32);

macro_rules! crowd {
    ($($k:literal)*) => {
        pub const CROWD: usize = [$($k),*].len();
        pub fn crowd_token(t: &mut InputToken, n: usize, v: u32) {
            $( if $k < n { t.add_attr(Crowd::<$k>(v)); } )*
        }
        /// Each type in a layer of its own, over the token chosen by `pick` and over the whole line.
        pub fn crowd_layers(mut line: LLLine, n: usize, pick: usize, v: u32) -> LLLine {
            $( if $k < n {
                line = line.run(&resolver::<Crowd<$k>, _>(|full| {
                    let t = full.find_by(&layered_nlp::x::token_text());
                    let mut out = vec![];
                    if !t.is_empty() {
                        out.push(t[pick % t.len()].0.finish_with_attr(Crowd::<$k>(v)));
                    }
                    out.push(full.finish_with_attr(Crowd::<$k>(v + 1)));
                    out
                }));
            } )*
            line
        }
        pub fn crowd_read(line: &LLLine, n: usize) -> Vec<Vec<(Rg, Vec<u32>)>> {
            let mut out = vec![];
            $( if $k < n {
                out.push(line.query::<Crowd<$k>>().into_iter().map(|(rg, _, vs)| (rg, vs.into_iter().map(|c| c.0).collect())).collect());
            } )*
            out
        }
        pub fn crowd_found(line: &LLLine, n: usize) -> Vec<u64> {
            let mut out = vec![];
            $( if $k < n {
                out.push(line.find(&layered_nlp::x::attr::<Crowd<$k>>()).len() as u64);
            } )*
            out
        }
    };
}
crowd!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39
    40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79);

// ------------------------------------------------------------------ everyday types

fn everyday_plan(full: LLSelection, seed: u64) -> Vec<(LLSelection, u64, String)> {
    let mut r = Rng::new(seed);
    let mut out = vec![];
    let style = r.below(5);
    for (i, (s, text)) in full.find_by(&x::token_text()).iter().enumerate() {
        let f = if r.chance(1, 2) { i as u64 } else { r.next() };
        match style {
            0 | 1 => out.push((s.clone(), f, text.to_string())),
            2 if r.chance(1, 3) => out.push((s.clone(), f, text.to_string())),
            3 if r.chance(1, 3) => {
                let s = s.match_first_forwards(&x::token_text()).map_or(s.clone(), |n| n.0);
                out.push((s, f, text.to_string()));
            }
            _ => {}
        }
    }
    if style == 4 || r.chance(1, 3) {
        out.push((full.clone(), r.next(), String::new()));
    }
    out
}

macro_rules! everyday {
    ($($k:literal $T:ty, $v:expr;)*) => {
        pub const EVERYDAY: usize = [$($k),*].len();
        /// An attribute of an everyday type on an input token.
        pub fn everyday_token(t: &mut InputToken, k: usize, n: u64, text: &str) {
            let f: (u64, &str) = (n, text);
            match k {
                $( $k => { let v: $T = ($v)(f); t.add_attr(v); } )*
                _ => {}
            }
        }
        /// A layer of an everyday type: over each text token, over some of them, over runs of
        /// them or over the whole line.
        pub fn everyday_layer(line: LLLine, k: usize, seed: u64) -> LLLine {
            match k {
                $( $k => line.run(&resolver::<$T, _>(|full| {
                    everyday_plan(full, seed).iter().map(|(s, n, text)| s.finish_with_attr(($v)((*n, text.as_str())))).collect()
                })), )*
                _ => line,
            }
        }
    };
}
everyday! {
    0 bool, |f: (u64, &str)| f.0 % 3 != 0;
    1 usize, |f: (u64, &str)| f.0 as usize % 7;
    2 String, |f: (u64, &str)| f.1.to_string();
    3 &'static str, |f: (u64, &str)| ["if", "then", "and", "word", ",", "1", ""][f.0 as usize % 7];
    4 u8, |f: (u64, &str)| f.1.bytes().next().unwrap_or(f.0 as u8);
    5 i32, |f: (u64, &str)| f.0 as i32 % 5;
    6 u64, |f: (u64, &str)| f.0;
    7 f64, |f: (u64, &str)| f.0 as f64 / 3.0;
    8 (), |_: (u64, &str)| ();
    9 Option<String>, |f: (u64, &str)| (f.0 % 2 == 0).then(|| f.1.to_lowercase());
    10 Vec<String>, |f: (u64, &str)| vec![f.1.to_string(); f.0 as usize % 3];
    11 rust_decimal::Decimal, |f: (u64, &str)| rust_decimal::Decimal::new(f.0 as i64 % 1000, 2);
    12 (usize, usize), |f: (u64, &str)| (f.0 as usize % 3, f.0 as usize % 5);
    13 Option<bool>, |f: (u64, &str)| Some(f.0 % 2 == 0);
    14 std::time::Duration, |f: (u64, &str)| std::time::Duration::from_millis(f.0 % 1000);
    15 i64, |f: (u64, &str)| -(f.0 as i64 % 100);
    16 std::borrow::Cow<'static, str>, |f: (u64, &str)| std::borrow::Cow::Owned(f.1.to_string());
    17 Box<str>, |f: (u64, &str)| f.1.into();
    18 Option<()>, |f: (u64, &str)| (f.0 % 3 != 0).then_some(());
    19 Option<usize>, |f: (u64, &str)| (f.0 % 3 != 0).then_some(f.0 as usize % 5);
    20 u32, |f: (u64, &str)| f.0 as u32 % 9;
    21 u16, |f: (u64, &str)| f.0 as u16 % 9;
    22 f32, |f: (u64, &str)| f.0 as f32;
    23 i8, |f: (u64, &str)| f.0 as i8;
    24 i16, |f: (u64, &str)| f.0 as i16;
    25 u128, |f: (u64, &str)| f.0 as u128;
    26 i128, |f: (u64, &str)| -(f.0 as i128);
    27 isize, |f: (u64, &str)| f.0 as isize;
    28 Option<char>, |f: (u64, &str)| f.1.chars().next();
    29 Vec<char>, |f: (u64, &str)| f.1.chars().collect();
    30 Option<&'static str>, |f: (u64, &str)| Some(["if", "then", "and", ",", "."][f.0 as usize % 5]);
    31 std::ops::Range<usize>, |f: (u64, &str)| 0..f.0 as usize % 9;
    32 std::sync::Arc<str>, |f: (u64, &str)| f.1.into();
    33 Vec<u8>, |f: (u64, &str)| f.1.as_bytes().to_vec();
    34 (), |_: (u64, &str)| ();
    35 Result<(), String>, |f: (u64, &str)| if f.0 % 2 == 0 { Ok(()) } else { Err(f.1.to_string()) };
    36 std::cmp::Ordering, |f: (u64, &str)| (f.0 % 3).cmp(&1);
    37 (String, usize), |f: (u64, &str)| (f.1.to_string(), f.0 as usize % 4);
    38 std::any::TypeId, |_: (u64, &str)| std::any::TypeId::of::<u8>();
    39 std::collections::HashMap<String, String>, |f: (u64, &str)| Some((f.1.to_string(), f.1.to_lowercase())).into_iter().collect();
}
