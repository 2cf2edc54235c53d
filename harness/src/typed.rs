//! Parsers put together with the types they have in user code: outputs and errors of no size, with destructors,
//! without values. Each type knows its own reading of the grammar.
use pbt::ensure;
use pbt::fw::guard::counters;
use pbt::fw::{catch, exec};
use pbt::grammar::{fuse, user, BLOWN};
use pbt::fw::tracked::{self, Tracked};
use pbt::fw::Obs;
use pbt::seq::{Delivery, SegSeq, StrK, Subject};
use parcom_core::{Never, ParseError, Parser, ParserOnce, ParserResult, SegmentStream, UnknownLocation};
use parcom_core::primitive::BytesDelta;
use parcom_parsers::primitive::{any_char, atom, the_char};
use parcom_parsers::util::Boxed;
use parcom_parsers::{IterativeParserExtension, ParserExtension, Ref};
use parcom_util::error::{Fatal, Miss};
use parcom_util::{Either, EitherBoth};
use proptest::prelude::*;
use std::future::Future;
use std::pin::Pin;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    shape: u16,
    params: Vec<u8>,
    input: Vec<u8>,
    delivery: Delivery,
}
pub const LETTERS: [char; 4] = ['a', 'é', 'b', '😀'];
fn letter(k: u8) -> char {
    LETTERS[k as usize % 4]
}

/// outputs and errors as one type
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Unit,
    Ch(char),
    Text(String),
    Num(u32),
    Pair(Box<V>, Box<V>),
    First(Box<V>),
    Last(Box<V>),
    Ok(Box<V>),
    Err(Box<V>),
    None,
    List(Vec<V>),
    Miss(Box<V>),
    Fatal(Box<V>),
}
pub trait ToV {
    fn v(self) -> V;
}
fn b(v: V) -> Box<V> {
    Box::new(v)
}
impl ToV for () {
    fn v(self) -> V {
        V::Unit
    }
}
impl ToV for char {
    fn v(self) -> V {
        V::Ch(self)
    }
}
impl ToV for String {
    fn v(self) -> V {
        V::Text(self)
    }
}
impl ToV for usize {
    fn v(self) -> V {
        V::Num(self as u32)
    }
}
impl ToV for Tracked {
    fn v(self) -> V {
        V::Num(self.get().unwrap_or(u32::MAX))
    }
}
impl ToV for Never {
    fn v(self) -> V {
        unreachable!()
    }
}
impl<A: ToV, B: ToV> ToV for (A, B) {
    fn v(self) -> V {
        V::Pair(b(self.0.v()), b(self.1.v()))
    }
}
impl<A: ToV, B: ToV> ToV for Either<A, B> {
    fn v(self) -> V {
        match self {
            Either::First(x) => V::First(b(x.v())),
            Either::Last(x) => V::Last(b(x.v())),
        }
    }
}
impl<A: ToV, B: ToV> ToV for EitherBoth<A, B> {
    fn v(self) -> V {
        match self {
            EitherBoth::First(x) => V::First(b(x.v())),
            EitherBoth::Last(x) => V::Last(b(x.v())),
            EitherBoth::Both(x, y) => V::Pair(b(x.v()), b(y.v())),
        }
    }
}
impl<A: ToV, B: ToV> ToV for Result<A, B> {
    fn v(self) -> V {
        match self {
            Ok(x) => V::Ok(b(x.v())),
            Err(x) => V::Err(b(x.v())),
        }
    }
}
impl<A: ToV> ToV for Option<A> {
    fn v(self) -> V {
        self.map_or(V::None, |x| V::Ok(b(x.v())))
    }
}
impl<A: ToV> ToV for Vec<A> {
    fn v(self) -> V {
        V::List(self.into_iter().map(|x| x.v()).collect())
    }
}
impl<A: ToV> ToV for Miss<A> {
    fn v(self) -> V {
        V::Miss(b(self.0.v()))
    }
}
impl<A: ToV> ToV for Fatal<A> {
    fn v(self) -> V {
        V::Fatal(b(self.0.v()))
    }
}

pub struct Params<'a> {
    bytes: &'a [u8],
    at: usize,
}
impl Params<'_> {
    fn next(&mut self) -> u8 {
        self.at += 1;
        self.bytes.get(self.at - 1).copied().unwrap_or(self.at as u8)
    }
}
#[derive(Default)]
pub struct Seen {
    backtracked: u32,
    fatal: u32,
    steps: u32,
}
/// the value and the position, or the error and whether it terminates
pub type R = Result<(V, usize), (V, bool)>;
/// a parser's type, for the sequence `S`
pub trait Shape<S: Subject<StrK>>: Sized + 'static {
    type O: ToV;
    type E: ToV + ParseError;
    fn new(p: &mut Params) -> Self;
    fn build(&self) -> impl Parser<S> + ParserOnce<S, Output = Self::O, Error = Self::E>;
    fn model(&self, i: &[char], at: usize, m: &mut Seen) -> R;
}

// ------------------------------------------------------------------------------------------- leaves

pub struct LAtom(Vec<char>);
impl<S: Subject<StrK>> Shape<S> for LAtom {
    type O = ();
    type E = Miss<()>;
    fn new(p: &mut Params) -> Self {
        let n = p.next() % 2 + 1;
        LAtom((0..n).map(|_| letter(p.next())).collect())
    }
    fn build(&self) -> impl Parser<S> + ParserOnce<S, Output = Self::O, Error = Self::E> {
        atom(self.0.iter().collect::<String>())
    }
    fn model(&self, i: &[char], at: usize, m: &mut Seen) -> R {
        m.steps += 1;
        if i[at..].starts_with(&self.0) {
            Ok((V::Unit, at + self.0.len()))
        } else {
            Err((V::Miss(b(V::Unit)), false))
        }
    }
}
pub struct LThe(char);
impl<S: Subject<StrK>> Shape<S> for LThe {
    type O = ();
    type E = Miss<()>;
    fn new(p: &mut Params) -> Self {
        LThe(letter(p.next()))
    }
    fn build(&self) -> impl Parser<S> + ParserOnce<S, Output = Self::O, Error = Self::E> {
        the_char(self.0)
    }
    fn model(&self, i: &[char], at: usize, m: &mut Seen) -> R {
        m.steps += 1;
        if i.get(at) == Some(&self.0) {
            Ok((V::Unit, at + 1))
        } else {
            Err((V::Miss(b(V::Unit)), false))
        }
    }
}
pub struct LAny;
impl<S: Subject<StrK> + 'static> Shape<S> for LAny {
    type O = char;
    type E = Miss<()>;
    fn new(_: &mut Params) -> Self {
        LAny
    }
    fn build(&self) -> impl Parser<S> + ParserOnce<S, Output = Self::O, Error = Self::E> {
        any_char()
    }
    fn model(&self, i: &[char], at: usize, m: &mut Seen) -> R {
        m.steps += 1;
        i.get(at).map(|c| (V::Ch(*c), at + 1)).ok_or((V::Miss(b(V::Unit)), false))
    }
}
async fn first<S: Subject<StrK>>(input: &mut S) -> Option<char> {
    let mut st = input.segments();
    while let Some(s) = st.next(BytesDelta::ZERO).await {
        if let Some(c) = s.chars().next() {
            return Some(c);
        }
    }
    None
}
/// one letter is taken, one is an error that ends the parse (read past it), others are not for it
#[derive(Clone)]
pub struct LCut(char, char);
impl<S: Subject<StrK>> ParserOnce<S> for LCut {
    type Output = ();
    type Error = Either<Miss<()>, Fatal<()>>;
    async fn parse_once(self, input: S) -> ParserResult<S, Self> {
        self.parse(input).await
    }
}
impl<S: Subject<StrK>> Parser<S> for LCut {
    async fn parse(&self, mut input: S) -> ParserResult<S, Self> {
        let c = first(&mut input).await;
        user();
        match c {
            Some(c) if c == self.0 => Ok(((), input.advance(BytesDelta::from_char(c)).await)),
            Some(c) if c == self.1 => {
                Err((Either::Last(Fatal(())), UnknownLocation::from(input.advance(BytesDelta::from_char(c)).await)))
            }
            Some(c) => {
                Err((Either::First(Miss(())), UnknownLocation::from(input.advance(BytesDelta::from_char(c)).await)))
            }
            None => Err((Either::First(Miss(())), input.into())),
        }
    }
}
impl<S: Subject<StrK>> Shape<S> for LCut {
    type O = ();
    type E = Either<Miss<()>, Fatal<()>>;
    fn new(p: &mut Params) -> Self {
        LCut(letter(p.next()), letter(p.next()))
    }
    fn build(&self) -> impl Parser<S> + ParserOnce<S, Output = Self::O, Error = Self::E> {
        self.clone()
    }
    fn model(&self, i: &[char], at: usize, m: &mut Seen) -> R {
        m.steps += 1;
        match i.get(at) {
            Some(c) if *c == self.0 => Ok((V::Unit, at + 1)),
            Some(c) if *c == self.1 => {
                m.fatal += 1;
                Err((V::Last(b(V::Fatal(b(V::Unit)))), true))
            }
            _ => Err((V::First(b(V::Miss(b(V::Unit)))), false)),
        }
    }
}
/// a run of one letter, as an item that counts its drops; a failure (after reading something else) carries one too
#[derive(Clone)]
pub struct LRun(char);
impl<S: Subject<StrK>> ParserOnce<S> for LRun {
    type Output = Tracked;
    type Error = Miss<Tracked>;
    async fn parse_once(self, input: S) -> ParserResult<S, Self> {
        self.parse(input).await
    }
}
impl<S: Subject<StrK>> Parser<S> for LRun {
    async fn parse(&self, mut input: S) -> ParserResult<S, Self> {
        let mut n = 0;
        loop {
            match first(&mut input).await {
                Some(c) if c == self.0 => {
                    n += 1;
                    user();
                    input = input.advance(BytesDelta::from_char(c)).await;
                }
                _ if n > 0 => return Ok((Tracked::new(n), input)),
                Some(c) => {
                    let r = input.advance(BytesDelta::from_char(c)).await;
                    return Err((Miss(Tracked::new(c as u32)), r.into()));
                }
                None => return Err((Miss(Tracked::new(1)), input.into())),
            }
        }
    }
}
impl<S: Subject<StrK>> Shape<S> for LRun {
    type O = Tracked;
    type E = Miss<Tracked>;
    fn new(p: &mut Params) -> Self {
        LRun(letter(p.next()))
    }
    fn build(&self) -> impl Parser<S> + ParserOnce<S, Output = Self::O, Error = Self::E> {
        self.clone()
    }
    fn model(&self, i: &[char], at: usize, m: &mut Seen) -> R {
        m.steps += 1;
        let n = i[at..].iter().take_while(|c| **c == self.0).count();
        match i.get(at) {
            _ if n > 0 => Ok((V::Num(n as u32), at + n)),
            Some(c) => Err((V::Miss(b(V::Num(*c as u32))), false)),
            None => Err((V::Miss(b(V::Num(1))), false)),
        }
    }
}
/// takes one letter if it is there; it cannot fail
#[derive(Clone)]
pub struct LSure(char);
impl<S: Subject<StrK>> ParserOnce<S> for LSure {
    type Output = bool;
    type Error = Never;
    async fn parse_once(self, input: S) -> ParserResult<S, Self> {
        self.parse(input).await
    }
}
impl<S: Subject<StrK>> Parser<S> for LSure {
    async fn parse(&self, mut input: S) -> ParserResult<S, Self> {
        match first(&mut input).await {
            Some(c) if c == self.0 => Ok((true, input.advance(BytesDelta::from_char(c)).await)),
            _ => Ok((false, input)),
        }
    }
}
impl ToV for bool {
    fn v(self) -> V {
        V::Num(self as u32)
    }
}
impl<S: Subject<StrK>> Shape<S> for LSure {
    type O = bool;
    type E = Never;
    fn new(p: &mut Params) -> Self {
        LSure(letter(p.next()))
    }
    fn build(&self) -> impl Parser<S> + ParserOnce<S, Output = Self::O, Error = Self::E> {
        self.clone()
    }
    fn model(&self, i: &[char], at: usize, m: &mut Seen) -> R {
        m.steps += 1;
        let k = (i.get(at) == Some(&self.0)) as usize;
        Ok((V::Num(k as u32), at + k))
    }
}

// ------------------------------------------------------------------------------------------- combinators

macro_rules! shape {
    ($name:ident<$($t:ident),*>, $o:ty, $e:ty, |$me:ident| $build:expr, |$m:ident, $i:ident, $at:ident, $seen:ident| $model:expr $(, where $($w:tt)*)?) => {
        pub struct $name<$($t),*>($($t),*);
        #[allow(non_snake_case)]
        impl<S: Subject<StrK> + 'static, $($t: Shape<S>),*> Shape<S> for $name<$($t),*> $(where $($w)*)? {
            type O = $o;
            type E = $e;
                    fn new(p: &mut Params) -> Self {
                $name($($t::new(p)),*)
            }
            fn build(&self) -> impl Parser<S> + ParserOnce<S, Output = Self::O, Error = Self::E> {
                let $me = self;
                $build
            }
            fn model(&self, $i: &[char], $at: usize, $seen: &mut Seen) -> R {
                $seen.steps += 1;
                let $m = self;
                $model
            }
        }
    };
}
shape!(Jo<A, B>, (A::O, B::O), Either<A::E, B::E>,
    |me| ParserExtension::<S>::join(me.0.build(), me.1.build()),
    |me, i, at, m| {
        let (x, p) = me.0.model(i, at, m).map_err(|(e, t)| (V::First(b(e)), t))?;
        let (y, p) = me.1.model(i, p, m).map_err(|(e, t)| (V::Last(b(e)), t))?;
        Ok((V::Pair(b(x), b(y)), p))
    });
shape!(Al<A, B>, Either<A::O, B::O>, EitherBoth<A::E, B::E>,
    |me| ParserExtension::<S>::or(me.0.build(), me.1.build()),
    |me, i, at, m| {
        let e0 = match me.0.model(i, at, m) {
            Ok((v, p)) => return Ok((V::First(b(v)), p)),
            Err((e, true)) => return Err((V::First(b(e)), true)),
            Err((e, false)) => e,
        };
        m.backtracked += 1;
        match me.1.model(i, at, m) {
            Ok((v, p)) => Ok((V::Last(b(v)), p)),
            Err((e, true)) => Err((V::Last(b(e)), true)),
            Err((e, false)) => Err((V::Pair(b(e0), b(e)), false)),
        }
    });
shape!(Op<A>, Result<A::O, A::E>, A::E,
    |me| ParserExtension::<S>::optional(me.0.build()),
    |me, i, at, m| match me.0.model(i, at, m) {
        Ok((v, p)) => Ok((V::Ok(b(v)), p)),
        Err((e, true)) => Err((e, true)),
        Err((e, false)) => {
            m.backtracked += 1;
            Ok((V::Err(b(e)), at))
        }
    });
shape!(Re<A>, (Vec<A::O>, A::E), A::E,
    |me| ParserExtension::<S>::repeat(me.0.build()),
    |me, i, at, m| {
        let (mut v, mut at) = (vec![], at);
        loop {
            match me.0.model(i, at, m) {
                Ok((x, p)) => {
                    v.push(x);
                    at = p;
                }
                Err((e, true)) => return Err((e, true)),
                Err((e, false)) => {
                    m.backtracked += 1;
                    return Ok((V::Pair(b(V::List(v)), b(e)), at));
                }
            }
        }
    });
/// items up to a recoverable error, or a fatal one
fn items<S: Subject<StrK>, A: Shape<S>>(a: &A, i: &[char], mut at: usize, m: &mut Seen, max: usize) -> (Vec<V>, Option<V>, usize) {
    let mut v = vec![];
    loop {
        if v.len() == max {
            return (v, None, at);
        }
        match a.model(i, at, m) {
            Ok((x, p)) => {
                v.push(x);
                at = p;
            }
            Err((e, true)) => return (v, Some(e), at),
            Err((_, false)) => {
                m.backtracked += 1;
                return (v, None, at);
            }
        }
    }
}
shape!(Co<A>, (Vec<A::O>, Option<A::E>), A::E,
    |me| IterativeParserExtension::<S>::collect(ParserExtension::<S>::repeat(me.0.build())),
    |me, i, at, m| {
        let (v, e, p) = items::<S, A>(&me.0, i, at, m, usize::MAX);
        Ok((V::Pair(b(V::List(v)), b(e.map_or(V::None, |e| V::Ok(b(e))))), p))
    });
// at most two, collected
shape!(Tk<A>, (Vec<A::O>, Option<A::E>), A::E,
    |me| IterativeParserExtension::<S>::collect(IterativeParserExtension::<S>::take(ParserExtension::<S>::repeat(me.0.build()), 2)),
    |me, i, at, m| {
        let (v, e, p) = items::<S, A>(&me.0, i, at, m, 2);
        Ok((V::Pair(b(V::List(v)), b(e.map_or(V::None, |e| V::Ok(b(e))))), p))
    });
fn keep<T>(mut v: Vec<T>, x: T) -> Vec<T> {
    user();
    v.push(x);
    v
}
fn nothing<T>(_: (), _: T) {
    user();
}
shape!(Fo<A>, Vec<A::O>, A::E,
    |me| IterativeParserExtension::<S>::fold(ParserExtension::<S>::repeat(me.0.build()), vec![], keep as fn(Vec<A::O>, A::O) -> Vec<A::O>),
    |me, i, at, m| match items::<S, A>(&me.0, i, at, m, usize::MAX) {
        (_, Some(e), _) => Err((e, true)),
        (v, None, p) => Ok((V::List(v), p)),
    }, where A::O: Clone);
shape!(Fu<A>, (), A::E,
    |me| IterativeParserExtension::<S>::fold(ParserExtension::<S>::repeat(me.0.build()), (), nothing as fn((), A::O)),
    |me, i, at, m| match items::<S, A>(&me.0, i, at, m, usize::MAX) {
        (_, Some(e), _) => Err((e, true)),
        (_, None, p) => Ok((V::Unit, p)),
    });
fn unit<T>(_: T) {
    user();
}
shape!(Mu<A>, (), A::E,
    |me| ParserExtension::<S>::map(me.0.build(), unit as fn(A::O)),
    |me, i, at, m| me.0.model(i, at, m).map(|(_, p)| (V::Unit, p)));
fn hard<T>(_: T) -> Fatal<()> {
    user();
    Fatal(())
}
fn soft<T>(e: T) -> Miss<T> {
    user();
    Miss(e)
}
shape!(Ha<A>, A::O, Fatal<()>,
    |me| ParserExtension::<S>::map_err(me.0.build(), hard as fn(A::E) -> Fatal<()>),
    |me, i, at, m| me.0.model(i, at, m).map_err(|_| {
        m.fatal += 1;
        (V::Fatal(b(V::Unit)), true)
    }));
shape!(So<A>, A::O, Miss<A::E>,
    |me| ParserExtension::<S>::map_err(me.0.build(), soft as fn(A::E) -> Miss<A::E>),
    |me, i, at, m| me.0.model(i, at, m).map_err(|(e, _)| (V::Miss(b(e)), false)));
fn check<T, E>(v: (Vec<T>, Option<E>)) -> Result<Vec<T>, Miss<E>> {
    match v.1 {
        Some(e) => Err(Miss(e)),
        None => Ok(v.0),
    }
}
// collected items; the error they end with, if any, as a recoverable one
shape!(Ck<A>, Vec<A::O>, Miss<A::E>,
    |me| ParserExtension::<S>::and_then(
        IterativeParserExtension::<S>::collect::<Vec<A::O>>(ParserExtension::<S>::repeat(me.0.build())),
        check as fn((Vec<A::O>, Option<A::E>)) -> Result<Vec<A::O>, Miss<A::E>>,
    ),
    |me, i, at, m| match items::<S, A>(&me.0, i, at, m, usize::MAX) {
        (_, Some(e), _) => Err((V::Miss(b(e)), false)),
        (v, None, p) => Ok((V::List(v), p)),
    });
fn strip(v: V) -> V {
    match v {
        V::First(x) | V::Last(x) => *x,
        x => x,
    }
}
/// one or the other, as the same type
pub struct Un<A, B>(Al<A, B>);
impl<S: Subject<StrK> + 'static, A: Shape<S>, B: Shape<S, O = A::O>> Shape<S> for Un<A, B> {
    type O = A::O;
    type E = EitherBoth<A::E, B::E>;
    fn new(p: &mut Params) -> Self {
        Un(<Al<A, B> as Shape<S>>::new(p))
    }
    fn build(&self) -> impl Parser<S> + ParserOnce<S, Output = Self::O, Error = Self::E> {
        ParserExtension::<S>::unify::<A::O, A::O, A::O>(Shape::<S>::build(&self.0))
    }
    fn model(&self, i: &[char], at: usize, m: &mut Seen) -> R {
        Shape::<S>::model(&self.0, i, at, m).map(|(v, p)| (strip(v), p))
    }
}
/// two in a row, errors as the same type
pub struct Ue<A, B>(Jo<A, B>);
impl<S: Subject<StrK> + 'static, A: Shape<S>, B: Shape<S, E = A::E>> Shape<S> for Ue<A, B> {
    type O = (A::O, B::O);
    type E = A::E;
    fn new(p: &mut Params) -> Self {
        Ue(<Jo<A, B> as Shape<S>>::new(p))
    }
    fn build(&self) -> impl Parser<S> + ParserOnce<S, Output = Self::O, Error = Self::E> {
        ParserExtension::<S>::unify_err::<A::E, A::E, A::E>(Shape::<S>::build(&self.0))
    }
    fn model(&self, i: &[char], at: usize, m: &mut Seen) -> R {
        Shape::<S>::model(&self.0, i, at, m).map_err(|(e, t)| (strip(e), t))
    }
}

/// an error of the parser beneath, or one of a check: it ends the parse, or not
pub struct Stop<E, const FATAL: bool>(Option<E>);
impl<E, const F: bool> From<E> for Stop<E, F> {
    fn from(e: E) -> Self {
        Stop(Some(e))
    }
}
impl<E: ParseError, const F: bool> ParseError for Stop<E, F> {
    fn should_terminate(&self) -> bool {
        self.0.as_ref().map_or(F, |e| e.should_terminate())
    }
}
impl<E: ToV, const F: bool> ToV for Stop<E, F> {
    fn v(self) -> V {
        self.0.v()
    }
}
macro_rules! repeated {
    ($me:ident) => {
        ParserExtension::<S>::repeat($me.0.build())
    };
}
fn some_unit<T>(_: T) -> Option<()> {
    user();
    Some(())
}
fn none<T>(_: T) -> Option<()> {
    None
}
fn count<T>(n: &mut (), _: T) {
    user();
    *n
}
fn refuse<T, E, const F: bool>(_: T) -> Result<(), Stop<E, F>> {
    user();
    Err(Stop(None))
}
fn pass<T, E>(t: T) -> Result<T, Stop<E, true>> {
    user();
    Ok(t)
}
fn collected(v: (Vec<V>, Option<V>, usize)) -> R {
    Ok((V::Pair(b(V::List(v.0)), b(v.1.map_or(V::None, |e| V::Ok(b(e))))), v.2))
}
fn units(v: (Vec<V>, Option<V>, usize)) -> (Vec<V>, Option<V>, usize) {
    (v.0.iter().map(|_| V::Unit).collect(), v.1, v.2)
}
shape!(Cu<A>, (Vec<()>, Option<A::E>), A::E,
    |me| {
        let p = IterativeParserExtension::<S>::map_each(repeated!(me), unit as fn(A::O));
        IterativeParserExtension::<S>::collect::<Vec<()>>(p)
    },
    |me, i, at, m| collected(units(items::<S, A>(&me.0, i, at, m, usize::MAX))));
shape!(Ad<A>, (Vec<()>, Option<A::E>), A::E,
    |me| {
        let p = IterativeParserExtension::<S>::map_while(repeated!(me), some_unit as fn(A::O) -> Option<()>);
        let p = IterativeParserExtension::<S>::scan(p, (), count as fn(&mut (), ()));
        let p = IterativeParserExtension::<S>::take(p, 3);
        IterativeParserExtension::<S>::collect::<Vec<()>>(p)
    },
    |me, i, at, m| collected(units(items::<S, A>(&me.0, i, at, m, 3))));
shape!(Wc<A>, (Vec<()>, Option<A::E>), A::E,
    |me| {
        let p = IterativeParserExtension::<S>::map_while(repeated!(me), none as fn(A::O) -> Option<()>);
        IterativeParserExtension::<S>::collect::<Vec<()>>(p)
    },
    |me, i, at, m| {
        let (_, e, _) = items::<S, A>(&me.0, i, at, m, 1);
        collected((vec![], e, at))
    });
shape!(Wf<A>, (), A::E,
    |me| {
        let p = IterativeParserExtension::<S>::map_while(repeated!(me), none as fn(A::O) -> Option<()>);
        IterativeParserExtension::<S>::fold(p, (), nothing as fn((), ()))
    },
    |me, i, at, m| match items::<S, A>(&me.0, i, at, m, 1) {
        (_, Some(e), _) => Err((e, true)),
        (_, None, p) => Ok((V::Unit, p)),
    });
/// every item is refused: the end, or a fatal error
macro_rules! refused {
    ($c:ident, $f:ident, $fatal:literal) => {
        shape!($c<A>, (Vec<()>, Option<Stop<A::E, $fatal>>), Stop<A::E, $fatal>,
            |me| {
                let p = IterativeParserExtension::<S>::try_map_each(repeated!(me), refuse as fn(A::O) -> Result<(), Stop<A::E, $fatal>>);
                IterativeParserExtension::<S>::collect::<Vec<()>>(p)
            },
            |me, i, at, m| match items::<S, A>(&me.0, i, at, m, 1) {
                (_, Some(e), _) => collected((vec![], Some(V::Ok(b(e))), at)),
                (v, None, _) if !v.is_empty() && $fatal => collected((vec![], Some(V::None), at)),
                _ => collected((vec![], None, at)),
            });
        shape!($f<A>, (), Stop<A::E, $fatal>,
            |me| {
                let p = IterativeParserExtension::<S>::try_map_each(repeated!(me), refuse as fn(A::O) -> Result<(), Stop<A::E, $fatal>>);
                IterativeParserExtension::<S>::fold(p, (), nothing as fn((), ()))
            },
            |me, i, at, m| match items::<S, A>(&me.0, i, at, m, 1) {
                (_, Some(e), _) => Err((V::Ok(b(e)), true)),
                (v, None, _) if !v.is_empty() && $fatal => {
                    m.fatal += 1;
                    Err((V::None, true))
                }
                (_, None, p) => Ok((V::Unit, p)),
            });
    };
}
refused!(Tc, Tf, true);
refused!(Sc, Sf, false);
shape!(Tp<A>, (Vec<A::O>, Option<Stop<A::E, true>>), Stop<A::E, true>,
    |me| {
        let p = IterativeParserExtension::<S>::try_map_each(repeated!(me), pass as fn(A::O) -> Result<A::O, Stop<A::E, true>>);
        let p = IterativeParserExtension::<S>::take(p, 4);
        IterativeParserExtension::<S>::collect::<Vec<A::O>>(p)
    },
    |me, i, at, m| {
        let (v, e, p) = items::<S, A>(&me.0, i, at, m, 4);
        collected((v, e.map(|e| V::Ok(b(e))), p))
    });

// ------------------------------------------------------------------------------------------- runs

/// what came out, and what is left
type Got = Result<(V, Vec<char>), (V, bool)>;
fn verdict(name: &str, how: &str, c: &[char], got: Got, want: &R) -> Result<(), String> {
    let text: String = c.iter().collect();
    let name = name.replace(concat!(module_path!(), "::"), "");
    let what = format!("{name}, {how}, on {text:?}");
    match (got, want) {
        (Ok((o, rest)), Ok((v, p))) => {
            ensure!(o == *v, "{what}: value {o:?}, expected {v:?}");
            ensure!(rest == c[*p..], "{what}: left {rest:?}, expected {:?}", &c[*p..]);
        }
        (Err((e, term)), Err((v, t))) => {
            ensure!(term == *t, "{what}: should_terminate() is {term}");
            ensure!(e == *v, "{what}: error {e:?}, expected {v:?}");
        }
        (Ok((o, _)), Err(w)) => return Err(format!("{what}: value {o:?}, expected the error {w:?}")),
        (Err((e, _)), Ok(w)) => return Err(format!("{what}: error {e:?}, expected {w:?}")),
    }
    Ok(())
}
type Later<'a> = Pin<Box<dyn Future<Output = Got> + 'a>>;
fn came<S: Subject<StrK>, O: ToV, E: ToV + ParseError>(r: Result<(O, S), (E, UnknownLocation<S>)>) -> Got {
    match r {
        Ok((o, mut rest)) => Ok((o.v(), rest.rest())),
        Err((e, _)) => {
            let t = e.should_terminate();
            Err((e.v(), t))
        }
    }
}
fn go(f: Later<'_>) -> Result<Got, String> {
    exec::run(f, 1 << 22)
}
fn one<S: Subject<StrK> + 'static, A: Shape<S>>(what: &str, c: &Case, input: &[char], mk: &dyn Fn() -> S, ob: &mut Obs) -> Result<(), String> {
    let a = A::new(&mut Params { bytes: &c.params, at: 0 });
    let mut seen = Seen::default();
    let want = a.model(input, 0, &mut seen);
    ob.nontrivial = seen.steps >= 3 && (seen.backtracked > 0 || seen.fatal > 0 || matches!(want, Ok((_, p)) if p > 0));
    if what == "text" {
        ob.label("parsers with their own types");
        ob.label_if(seen.fatal > 0, "fatal error raised");
    }
    let p = a.build();
    let sure = |how: &str, got: Got| verdict(std::any::type_name::<A>(), &format!("{what}, {how}"), input, got, &want);
    let by_ref = || -> Later<'_> { Box::pin(async { came(p.parse(mk()).await) }) };
    sure("by reference", go(by_ref())?)?;
    sure("again", go(by_ref())?)?;
    match c.shape >> 8 & 3 {
        0 => {
            let r = Ref::<S, _>::new(&p);
            sure("borrowed", go(Box::pin(async { came(r.parse(mk()).await) }))?)?;
            sure("borrowed, once", go(Box::pin(async { came(r.parse_once(mk()).await) }))?)
        }
        1 => {
            let p = Boxed::<S, _>::new(p);
            sure("boxed", go(Box::pin(async { came(p.parse(mk()).await) }))?)?;
            sure("boxed, once", go(Box::pin(async { came(p.parse_once(mk()).await) }))?)
        }
        _ => sure("once", go(Box::pin(async { came(p.parse_once(mk()).await) }))?),
    }
}
type Seg = SegSeq<StrK>;
type Fun = fn(&Case, &[char], &'static str, &mut Obs) -> Result<(), String>;
fn both<A: Shape<&'static str> + Shape<Seg>>(c: &Case, input: &[char], text: &'static str, ob: &mut Obs) -> Result<(), String> {
    one::<&'static str, A>("text", c, input, &|| text, ob)?;
    let ctxs = std::cell::RefCell::new(vec![]);
    one::<Seg, A>(
        "pieces",
        c,
        input,
        &|| {
            let (s, ctx) = Seg::new(input, &c.delivery, 1 << 22);
            ctxs.borrow_mut().push(ctx);
            s
        },
        ob,
    )?;
    for x in ctxs.borrow().iter() {
        x.legal()?;
    }
    Ok(())
}
macro_rules! one_of_each {
    ($v:ident; $($x:ident),*) => { $(
        $v.push(both::<Op<$x>> as Fun);
        $v.push(both::<Re<$x>>);
        $v.push(both::<Co<$x>>);
        $v.push(both::<Tk<$x>>);
        $v.push(both::<Fu<$x>>);
        $v.push(both::<Re<Mu<$x>>>);
        $v.push(both::<Co<Mu<$x>>>);
        $v.push(both::<Op<Ha<$x>>>);
        $v.push(both::<Op<So<Jo<$x, $x>>>>);
        $v.push(both::<Re<Jo<$x, Op<$x>>>>);
        $v.push(both::<Al<Jo<$x, $x>, $x>>);
        $v.push(both::<Jo<Re<$x>, Ck<$x>>>);
        $v.push(both::<Un<$x, $x>>);
        $v.push(both::<Ue<$x, Mu<$x>>>);
        $v.push(both::<Op<Ck<Jo<$x, LCut>>>>);
    )* };
}
macro_rules! pairs {
    ($v:ident; $($x:ident $y:ident),*) => { $(
        $v.push(both::<Jo<$x, $y>> as Fun);
        $v.push(both::<Al<$x, $y>>);
        $v.push(both::<Re<Al<Jo<$x, $y>, $y>>>);
        $v.push(both::<Op<Al<$x, Jo<$y, $x>>>>);
        $v.push(both::<Co<Jo<$x, $y>>>);
        $v.push(both::<Fu<Al<Jo<$x, $x>, $y>>>);
        $v.push(both::<Al<Ha<Jo<$x, $y>>, $y>>);
        $v.push(both::<Jo<Op<Jo<$x, $y>>, LSure>>);
        $v.push(both::<Al<So<Jo<$y, $x>>, LSure>>);
        $v.push(both::<Tk<Mu<Al<$x, Jo<$y, $x>>>>>);
    )* };
}
fn table() -> &'static [Fun] {
    static TABLE: std::sync::OnceLock<Vec<Fun>> = std::sync::OnceLock::new();
    TABLE.get_or_init(|| {
        let mut v = vec![];
        one_of_each!(v; LAtom, LThe, LAny, LCut, LRun);
        pairs!(v; LAtom LCut, LThe LAtom, LCut LAny, LRun LCut, LThe LRun, LRun LAtom, LAny LThe, LCut LRun);
        v.push(both::<Fo<LAny>>);
        v.push(both::<Fo<LThe>>);
        v.push(both::<Fo<LRun>>);
        v.push(both::<Fo<LCut>>);
        v
    })
}
/// iterations, collected and folded
fn iterations() -> &'static [Fun] {
    static TABLE: std::sync::OnceLock<Vec<Fun>> = std::sync::OnceLock::new();
    TABLE.get_or_init(|| {
        let mut v = vec![];
        macro_rules! all { ($($x:ty),*) => { $(
            v.push(both::<Cu<$x>> as Fun);
            v.push(both::<Ad<$x>>);
            v.push(both::<Wc<$x>>);
            v.push(both::<Wf<$x>>);
            v.push(both::<Tc<$x>>);
            v.push(both::<Tf<$x>>);
            v.push(both::<Sc<$x>>);
            v.push(both::<Sf<$x>>);
            v.push(both::<Tp<$x>>);
            v.push(both::<Co<$x>>);
            v.push(both::<Tk<$x>>);
            v.push(both::<Fu<$x>>);
        )* } }
        all!(LAtom, LAny, LCut, LRun, Jo<LThe, LCut>, Al<Jo<LCut, LThe>, LRun>, Mu<LRun>);
        v.push(both::<Fo<LAny>>);
        v.push(both::<Fo<LCut>>);
        v.push(both::<Fo<LRun>>);
        v
    })
}
pub fn strategy() -> BoxedStrategy<Case> {
    let tape = || proptest::collection::vec(0u8..4, 0..8);
    let letters = prop_oneof![
        8 => proptest::collection::vec(0u8..4, 0..10),
        2 => proptest::collection::vec(0u8..2, 0..10),
        1 => (proptest::collection::vec(0u8..4, 1..4), 1usize..40).prop_map(|(v, n)| v.repeat(n)),
    ];
    (any::<u16>(), tape(), letters, pbt::seq::gen::delivery(), any::<bool>())
        .prop_map(|(shape, params, mut input, delivery, along)| {
            if along {
                // letters the parser waits for
                for (i, x) in input.iter_mut().enumerate() {
                    if let Some(p) = params.get(i % params.len().max(1)) {
                        if *x != 3 {
                            *x = *p;
                        }
                    }
                }
            }
            Case { shape, params, input, delivery }
        })
        .boxed()
}
pub fn run(c: &Case, ob: &mut Obs) -> Result<(), String> {
    run_one(table(), c, ob)
}
pub fn run_iteration(c: &Case, ob: &mut Obs) -> Result<(), String> {
    run_one(iterations(), c, ob)
}
fn run_one(t: &[Fun], c: &Case, ob: &mut Obs) -> Result<(), String> {
    tracked::reset();
    let input: Vec<char> = c.input.iter().map(|k| letter(*k)).collect();
    let text: String = input.iter().collect();
    // SAFETY: every use of the text ends in this function
    let s: &'static str = unsafe { &*(text.as_str() as *const str) };
    t[c.shape as usize % t.len()](c, &input, s, ob)?;
    tracked::settled()
}

// ------------------------------------------------------------------------------------------- given up

type Left = fn(&Case, &[char], u64, u64, &mut Obs) -> Result<(), String>;
/// A run dropped after so many polls, or ended by a panic of user code at a call; then the same parser again.
fn left<A: Shape<Seg>>(c: &Case, input: &[char], polls: u64, call: u64, ob: &mut Obs) -> Result<(), String> {
    let a = A::new(&mut Params { bytes: &c.params, at: 0 });
    let mut seen = Seen::default();
    let want = a.model(input, 0, &mut seen);
    let p = a.build();
    let twin = a.build();
    drop(Tracked::new(0));
    let before = counters();
    let mut gone = false;
    let blown;
    {
        let (s, ctx) = Seg::new(input, &c.delivery, 1 << 22);
        fuse(call);
        let r = catch(|| {
            let mut fut: Later = if c.shape >> 8 & 1 == 0 {
                Box::pin(async { came(p.parse(s).await) })
            } else {
                Box::pin(async { came(twin.parse_once(s).await) })
            };
            let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
            for _ in 0..polls {
                if fut.as_mut().poll(&mut cx).is_ready() {
                    return;
                }
            }
            gone = true;
        });
        blown = fuse(0) == 0 && call > 0;
        match r {
            Err(e) if blown && e.contains(BLOWN) => {}
            Err(e) => return Err(e),
            Ok(()) => ensure!(!blown, "a panic of user code was swallowed"),
        }
        ctx.legal()?;
    }
    let after = counters();
    ob.label("parsers with their own types");
    ob.label_if(gone, "a parse was given up");
    ob.label_if(blown, "user code panicked");
    ob.nontrivial = (gone || blown) && seen.steps >= 3;
    let what = format!("given up at poll {polls}, user code panicking at call {call} (0: never)");
    let name = std::any::type_name::<A>();
    // the twin takes nothing from the heap but its letters
    ensure!(after.live <= before.live, "{what}: {} heap block(s) were not freed by {name}", after.live - before.live);
    tracked::settled()?;
    let (s, _ctx) = Seg::new(input, &c.delivery, 1 << 22);
    let got = go(Box::pin(async { came(p.parse(s).await) }))?;
    verdict(name, "after a run that was given up", input, got, &want)?;
    tracked::settled()
}
fn given_up() -> &'static [Left] {
    static TABLE: std::sync::OnceLock<Vec<Left>> = std::sync::OnceLock::new();
    TABLE.get_or_init(|| {
        let mut v = vec![];
        macro_rules! all { ($($x:ty),*) => { $( v.push(left::<$x> as Left); )* } }
        all!(
            Re<LRun>, Op<LRun>, Co<LRun>, Tk<LRun>, Fu<LRun>, Fo<LRun>, Re<LCut>, Co<LCut>, Fo<LAny>,
            Re<Mu<LRun>>, Jo<Re<LRun>, Ck<LRun>>, Al<Jo<LRun, LCut>, Jo<LRun, LRun>>, Un<LRun, LRun>, Ue<LRun, Mu<LRun>>,
            Op<Ck<Jo<LRun, LCut>>>, Re<Al<Jo<LRun, LCut>, LRun>>, Op<Ha<LRun>>, Op<So<Jo<LRun, LRun>>>, Co<Jo<LRun, LThe>>,
            Ad<LRun>, Wc<LRun>, Tc<LRun>, Tf<LRun>, Sc<LRun>, Tp<LRun>, Cu<LRun>, Tp<Jo<LRun, LCut>>, Jo<Op<Jo<LRun, LAtom>>, LRun>
        );
        v
    })
}
pub fn run_given_up(c: &Case, polls: u64, call: u64, ob: &mut Obs) -> Result<(), String> {
    tracked::reset();
    let input: Vec<char> = c.input.iter().map(|k| letter(*k)).collect();
    let t = given_up();
    t[c.shape as usize % t.len()](c, &input, polls, call, ob)
}
