//! Generated grammars: executed through the library's combinators, and by a small PEG interpreter.
use crate::seq::{Kind, StrK, ItemK, Subject};
use parcom_core::{
    IterativeParser, IterativeParserOnce, IterativeParserState, ParseError, ParseResult, Parser, ParserOnce,
    ParserResult, RewindSequence, SegmentStream, Sequence, UnknownLocation,
};
use parcom_parsers::combinator::bin_expr::{Associativity, BinExprParser, Operator};
use parcom_parsers::combinator::{AndThen, Join, Map, MapErr, Optional, Or, Repeat, Unify, UnifyErr};
use parcom_parsers::iterative::{Collect, Fold, MapEach, MapWhile, Scan, Take, TryMapEach};
use parcom_parsers::primitive::{any_char, any_item, atom, the_char, the_item};
use parcom_parsers::{IterativeParserExtension, ParserExtension};
use parcom_util::error::{Fatal, Miss};
use parcom_util::{Either, EitherBoth};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::pin::Pin;

// ---------------------------------------------------------------------------------------------- syntax

pub type B<T> = Box<T>;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum End {
    Ok,
    Miss,
    Fatal,
    /// depends on the text that was read: Ok, Miss or Fatal
    Look(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum ErrMap {
    Keep,
    Soften,
    Harden,
    Look,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum NodeKind {
    Atom(Vec<char>),
    Any,
    The(char),
    /// a user-written parser: reads up to `eat` elements, then succeeds or fails
    Leaf { tag: u8, eat: u8, end: End },
    Join(B<Node>, B<Node>),
    Or(B<Node>, B<Node>),
    Opt(B<Node>),
    Rep(B<Node>),
    Map(B<Node>, u8),
    MapErr(B<Node>, ErrMap),
    /// checked mapping: Ok, Miss or Fatal depending on the value
    AndThen(B<Node>, u8),
    Unify(B<Node>, B<Node>),
    UnifyErr(B<Node>, B<Node>),
    /// term, operator, operator table
    Bin(B<Node>, B<Node>, u8),
    Collect(B<It>),
    Fold(B<It>),
    /// a user-written parser that fails if the inner one consumed nothing
    Guard(B<Node>),
    /// another rule of the grammar
    Call(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Node {
    pub mode: u8,
    pub kind: NodeKind,
}
pub const MODES: u8 = 8;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    Item(u8),
    End(u8),
    Miss(u8),
    Fatal(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum ItKind {
    Repeat(B<Node>),
    Optional(B<Node>),
    /// a user-written iterative parser
    User(Vec<Step>),
    MapEach(B<It>, u8),
    TryMapEach(B<It>, u8),
    MapWhile(B<It>, u8),
    Scan(B<It>),
    Take(B<It>, usize),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct It {
    pub mode: u8,
    pub kind: ItKind,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Grammar {
    pub rules: Vec<Node>,
}

// ---------------------------------------------------------------------------------------------- values

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Val {
    Unit,
    Ch(char),
    Leaf(u8, Vec<char>),
    Pair(B<Val>, B<Val>),
    First(B<Val>),
    Last(B<Val>),
    Opt(Result<B<Val>, B<Er>>),
    Rep(Vec<Val>, B<Er>),
    Tag(u8, B<Val>),
    Checked(u8, B<Val>),
    Uni(u8, B<Val>),
    Op(B<Val>, B<Val>, B<Val>),
    Bin(B<Val>, B<Er>),
    List(Vec<Val>, Option<B<Er>>),
    Acc(u64, u64),
    Scanned(u64, B<Val>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum EK {
    Miss,
    Leaf(u8),
    First(B<Er>),
    Last(B<Er>),
    Both(B<Er>, B<Er>),
    Mapped(B<Er>),
    Conv(B<Er>),
    Check(u8, B<Val>),
    Uni(u8, B<Er>),
    Empty,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Er {
    pub k: EK,
    pub term: bool,
}
impl ParseError for Er {
    fn should_terminate(&self) -> bool {
        user();
        self.term
    }
}
fn er(k: EK, term: bool) -> Er {
    Er { k, term }
}

/// a stable hash: decides what the user-supplied functions do
pub fn h<T: Hash>(t: &T, salt: u8) -> u64 {
    struct Fnv(u64);
    impl Hasher for Fnv {
        fn finish(&self) -> u64 {
            self.0 ^ (self.0 >> 29)
        }
        fn write(&mut self, b: &[u8]) {
            for b in b {
                self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut f = Fnv(0xcbf29ce484222325 ^ ((salt as u64) << 8));
    t.hash(&mut f);
    f.finish()
}

thread_local! { static FUSE: Cell<u64> = const { Cell::new(0) } }
/// The n-th call of user code from now on panics (0: none does). Returns what was left of the last one.
pub fn fuse(n: u64) -> u64 {
    FUSE.replace(n)
}
pub const BLOWN: &str = "a panic of user code";
pub fn user() {
    match FUSE.get() {
        0 => {}
        n => {
            FUSE.set(n - 1);
            if n == 1 {
                panic!("{BLOWN}");
            }
        }
    }
}
thread_local! { static CALLS: Cell<u64> = const { Cell::new(0) } }
/// The calls of user-supplied parsers, mappings, checks, scans and folds since it was last asked for, in order.
pub fn calls() -> u64 {
    CALLS.replace(0)
}
fn called(what: u8, tag: u8) {
    let x = (what as u64 + 1) << 8 | tag as u64;
    CALLS.set((CALLS.get() ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29));
}
// user-supplied functions, shared by both sides
fn f_map(tag: u8, v: Val) -> Val {
    user();
    called(0, tag);
    Val::Tag(tag, Box::new(v))
}
fn f_map_err(m: &ErrMap, e: Er) -> Er {
    user();
    called(1, e.term as u8);
    let term = match m {
        ErrMap::Keep => e.term,
        ErrMap::Soften => false,
        ErrMap::Harden => true,
        ErrMap::Look => h(&e, 3) % 2 == 0,
    };
    er(EK::Mapped(Box::new(e)), term)
}
fn f_check(salt: u8, v: Val) -> Result<Val, Er> {
    user();
    called(2, salt);
    // even salts never give fatal errors
    match h(&v, salt) % rarity(salt) {
        0 => Err(er(EK::Check(salt, Box::new(v)), false)),
        1 if salt % 2 == 1 => Err(er(EK::Check(salt, Box::new(v)), true)),
        _ => Ok(Val::Checked(salt, Box::new(v))),
    }
}
/// one in how many values is stopped at
fn rarity(salt: u8) -> u64 {
    if salt >= 200 { 400 } else { 4 }
}
fn f_while(salt: u8, v: Val) -> Option<Val> {
    user();
    called(3, salt);
    (h(&v, salt) % rarity(salt) != 0).then(|| Val::Tag(salt, Box::new(v)))
}
fn f_scan(st: &mut u64, v: Val) -> Val {
    user();
    called(4, 0);
    *st = st.wrapping_mul(31).wrapping_add(h(&v, 9));
    Val::Scanned(*st, Box::new(v))
}
fn f_fold((n, a): (u64, u64), v: Val) -> (u64, u64) {
    user();
    called(5, 0);
    (n + 1, a.wrapping_mul(131).wrapping_add(h(&v, 7)))
}
fn leaf_end(end: &End, tag: u8, read: &[char]) -> End {
    user();
    called(6, tag);
    match end {
        End::Look(k) => match h(&read, *k ^ tag) % 3 {
            0 => End::Ok,
            1 => End::Miss,
            // even k never gives fatal errors
            _ if k % 2 == 1 => End::Fatal,
            _ => End::Ok,
        },
        e => e.clone(),
    }
}
fn traced(t: u64, tag: u8, read: &[char]) -> u64 {
    t.wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(h(&read, tag))
}
pub const LEVELS: [usize; 8] = [0, 1, 1, 2, 3, usize::MAX, usize::MAX - 1, 7];
fn op_class(v: &Val, table: u8) -> (usize, bool) {
    let x = h(v, table);
    (LEVELS[(x % 8) as usize], (x >> 8) & 1 == 0)
}

// ---------------------------------------------------------------------------------------------- model

/// The grammar's meaning, on a plain list of characters.
pub struct Model<'g> {
    pub g: &'g Grammar,
    pub input: &'g [char],
    pub steps: u64,
    pub max_steps: u64,
    pub pulls: u64,
    pub leafs: u64,
    /// which user-written parsers ran, in order, and what they read
    pub trace: u64,
    pub backtracked: u64,
    pub fatals: u64,
    /// how many items of the input decide the outcome
    pub far: usize,
    depth: u32,
}
/// the evaluation is too long or does not end (left recursion): not a usable case
pub struct Diverges;
type R = Result<Result<(Val, usize), Er>, Diverges>;

impl<'g> Model<'g> {
    pub fn new(g: &'g Grammar, input: &'g [char]) -> Self {
        Model { g, input, steps: 0, max_steps: if input.len() > 200 { 30_000 } else { 4000 }, pulls: 0, leafs: 0, trace: 0, backtracked: 0, fatals: 0, far: 0, depth: 0 }
    }
    fn read(&mut self, pos: usize, n: u8) -> &'g [char] {
        self.far = self.far.max(pos + n as usize);
        &self.input[pos..(pos + n as usize).min(self.input.len())]
    }
    pub fn eval(&mut self, n: &Node, pos: usize) -> R {
        self.steps += 1;
        self.depth += 1;
        if self.steps > self.max_steps || self.depth > 120 {
            return Err(Diverges);
        }
        let r = self.eval_kind(n, pos);
        self.depth -= 1;
        r
    }
    fn eval_kind(&mut self, n: &Node, pos: usize) -> R {
        let bx = |e: Er| Box::new(e);
        let miss = || Ok(Err(er(EK::Miss, false)));
        Ok(match &n.kind {
            NodeKind::Atom(p) => {
                let common = p.iter().zip(&self.input[pos..]).take_while(|(a, b)| a == b).count();
                self.far = self.far.max(pos + (common + 1).min(p.len()).max(1));
                if self.input[pos..].starts_with(p) {
                    Ok((Val::Unit, pos + p.len()))
                } else {
                    return miss();
                }
            }
            NodeKind::Any => match self.read(pos, 1).first() {
                Some(c) => Ok((Val::Ch(*c), pos + 1)),
                None => return miss(),
            },
            NodeKind::The(c) => {
                if self.read(pos, 1).first() == Some(c) {
                    Ok((Val::Unit, pos + 1))
                } else {
                    return miss();
                }
            }
            NodeKind::Leaf { tag, eat, end } => {
                self.leafs += 1;
                let read = self.read(pos, *eat);
                self.trace = traced(self.trace, *tag, read);
                match leaf_end(end, *tag, read) {
                    End::Ok => Ok((Val::Leaf(*tag, read.to_vec()), pos + read.len())),
                    End::Fatal => {
                        self.fatals += 1;
                        Err(er(EK::Leaf(*tag), true))
                    }
                    _ => Err(er(EK::Leaf(*tag), false)),
                }
            }
            NodeKind::Join(a, b) => match self.eval(a, pos)? {
                Err(e) => Err(er(EK::First(bx(e.clone())), e.term)),
                Ok((va, p)) => match self.eval(b, p)? {
                    Err(e) => Err(er(EK::Last(bx(e.clone())), e.term)),
                    Ok((vb, p)) => Ok((Val::Pair(Box::new(va), Box::new(vb)), p)),
                },
            },
            NodeKind::Or(a, b) => match self.or(a, b, pos)? {
                Ok((Either::First(v), p)) => Ok((Val::First(Box::new(v)), p)),
                Ok((Either::Last(v), p)) => Ok((Val::Last(Box::new(v)), p)),
                Err(e) => Err(e),
            },
            NodeKind::Opt(a) => match self.eval(a, pos)? {
                Ok((v, p)) => Ok((Val::Opt(Ok(Box::new(v))), p)),
                Err(e) if !e.term => {
                    self.backtracked += 1;
                    Ok((Val::Opt(Err(bx(e))), pos))
                }
                Err(e) => Err(e),
            },
            NodeKind::Rep(a) => {
                let mut out = vec![];
                let mut at = pos;
                loop {
                    match self.eval(a, at)? {
                        Ok((v, p)) => {
                            out.push(v);
                            at = p;
                        }
                        Err(e) if !e.term => {
                            self.backtracked += 1;
                            break Ok((Val::Rep(out, bx(e)), at));
                        }
                        Err(e) => break Err(e),
                    }
                }
            }
            NodeKind::Map(a, t) => self.eval(a, pos)?.map(|(v, p)| (f_map(*t, v), p)),
            NodeKind::MapErr(a, m) => self.eval(a, pos)?.map_err(|e| f_map_err(m, e)),
            NodeKind::AndThen(a, s) => match self.eval(a, pos)? {
                Err(e) => {
                    let t = e.term;
                    Err(er(EK::Conv(bx(e)), t))
                }
                Ok((v, p)) => match f_check(*s, v) {
                    Ok(v) => Ok((v, p)),
                    Err(e) => {
                        self.fatals += e.term as u64;
                        Err(e)
                    }
                },
            },
            NodeKind::Unify(a, b) => match self.or(a, b, pos)? {
                Ok((Either::First(v), p)) => Ok((Val::Uni(0, Box::new(v)), p)),
                Ok((Either::Last(v), p)) => Ok((Val::Uni(1, Box::new(v)), p)),
                Err(e) => Err(e),
            },
            NodeKind::UnifyErr(a, b) => match self.eval(a, pos)? {
                Err(e) => Err(er(EK::Uni(0, bx(e.clone())), e.term)),
                Ok((va, p)) => match self.eval(b, p)? {
                    Err(e) => Err(er(EK::Uni(1, bx(e.clone())), e.term)),
                    Ok((vb, p)) => Ok((Val::Pair(Box::new(va), Box::new(vb)), p)),
                },
            },
            NodeKind::Bin(t, o, table) => self.bin(t, o, *table, pos)?,
            NodeKind::Collect(i) => {
                let mut st = self.start(i);
                let mut out = vec![];
                let mut at = pos;
                loop {
                    match self.next(&mut st, at)? {
                        Ok((Some(v), p)) => {
                            out.push(v);
                            at = p;
                        }
                        Ok((None, _)) => break Ok((Val::List(out, None), at)),
                        Err(e) => break Ok((Val::List(out, Some(bx(e))), at)),
                    }
                }
            }
            NodeKind::Fold(i) => {
                let mut st = self.start(i);
                let mut acc = (0, 1);
                let mut at = pos;
                loop {
                    match self.next(&mut st, at)? {
                        Ok((Some(v), p)) => {
                            acc = f_fold(acc, v);
                            at = p;
                        }
                        Ok((None, p)) => break Ok((Val::Acc(acc.0, acc.1), p)),
                        Err(e) => break Err(e),
                    }
                }
            }
            NodeKind::Guard(a) => match self.eval(a, pos)? {
                Ok((_, p)) if p == pos => Err(er(EK::Empty, false)),
                r => r,
            },
            NodeKind::Call(i) => {
                let g = self.g;
                self.eval(&g.rules[*i as usize % g.rules.len()], pos)?
            }
        })
    }
    #[allow(clippy::type_complexity)]
    fn or(&mut self, a: &Node, b: &Node, pos: usize) -> Result<Result<(Either<Val, Val>, usize), Er>, Diverges> {
        Ok(match self.eval(a, pos)? {
            Ok((v, p)) => Ok((Either::First(v), p)),
            Err(e) if e.term => Err(er(EK::First(Box::new(e)), true)),
            Err(e0) => {
                self.backtracked += 1;
                match self.eval(b, pos)? {
                    Ok((v, p)) => Ok((Either::Last(v), p)),
                    Err(e) if e.term => Err(er(EK::Last(Box::new(e)), true)),
                    Err(e1) => Err(er(EK::Both(Box::new(e0), Box::new(e1)), false)),
                }
            }
        })
    }
    fn bin(&mut self, t: &Node, o: &Node, table: u8, pos: usize) -> R {
        let fst = |e: Er| {
            let t = e.term;
            er(EK::First(Box::new(e)), t)
        };
        let lst = |e: Er| {
            let t = e.term;
            er(EK::Last(Box::new(e)), t)
        };
        let mut terms = vec![];
        let mut ops = vec![];
        let mut at = match self.eval(t, pos)? {
            Ok((v, p)) => {
                terms.push(v);
                p
            }
            Err(e) => return Ok(Err(lst(e))),
        };
        let why = loop {
            let (op, p) = match self.eval(o, at)? {
                Ok(x) => x,
                Err(e) if e.term => return Ok(Err(fst(e))),
                Err(e) => break fst(e),
            };
            match self.eval(t, p)? {
                Ok((v, p)) => {
                    ops.push(op);
                    terms.push(v);
                    at = p;
                }
                Err(e) if e.term => return Ok(Err(lst(e))),
                Err(e) => break lst(e),
            }
        };
        self.backtracked += 1;
        fn climb(terms: &[Val], ops: &[Val], table: u8, i: &mut usize, min: u128) -> Val {
            let mut lhs = terms[*i].clone();
            while *i < ops.len() {
                let op = &ops[*i];
                let (prec, left) = op_class(op, table);
                let prec = prec as u128;
                if prec < min {
                    break;
                }
                *i += 1;
                let rhs = climb(terms, ops, table, i, if left { prec + 1 } else { prec });
                lhs = Val::Op(Box::new(lhs), Box::new(op.clone()), Box::new(rhs));
            }
            lhs
        }
        let v = climb(&terms, &ops, table, &mut 0, 0);
        Ok(Ok((Val::Bin(Box::new(v), Box::new(why)), at)))
    }

    pub fn start(&mut self, i: &'_ It) -> ItModel {
        match &i.kind {
            ItKind::Repeat(n) => ItModel::Repeat((**n).clone()),
            ItKind::Optional(n) => ItModel::Optional(Some((**n).clone())),
            ItKind::User(s) => ItModel::User(s.clone(), 0),
            ItKind::MapEach(i, t) => ItModel::MapEach(Box::new(self.start(i)), *t),
            ItKind::TryMapEach(i, s) => ItModel::TryMapEach(Box::new(self.start(i)), *s),
            ItKind::MapWhile(i, s) => ItModel::MapWhile(Box::new(self.start(i)), *s),
            ItKind::Scan(i) => ItModel::Scan(Box::new(self.start(i)), 5),
            ItKind::Take(i, n) => ItModel::Take(Box::new(self.start(i)), *n),
        }
    }
    pub fn next(&mut self, st: &mut ItModel, pos: usize) -> NextR {
        self.steps += 1;
        if self.steps > self.max_steps {
            return Err(Diverges);
        }
        Ok(match st {
            ItModel::Repeat(n) => {
                let n = n.clone();
                self.item(&n, pos)?
            }
            ItModel::Optional(n) => match n.take() {
                None => Ok((None, pos)),
                Some(n) => self.item(&n, pos)?,
            },
            ItModel::User(s, i) => {
                self.pulls += 1;
                called(7, *i as u8);
                let step = s.get(*i).cloned().unwrap_or(Step::End(0));
                let idx = *i;
                *i += 1;
                let (Step::Item(eat) | Step::End(eat) | Step::Miss(eat) | Step::Fatal(eat)) = step;
                let read = self.read(pos, eat);
                let p = pos + read.len();
                match step {
                    Step::Item(_) => Ok((Some(Val::Leaf(idx as u8, read.to_vec())), p)),
                    Step::End(_) => Ok((None, p)),
                    Step::Miss(_) => Err(er(EK::Leaf(idx as u8), false)),
                    Step::Fatal(_) => {
                        self.fatals += 1;
                        Err(er(EK::Leaf(idx as u8), true))
                    }
                }
            }
            ItModel::MapEach(i, t) => self.next(i, pos)?.map(|(v, p)| (v.map(|v| f_map(*t, v)), p)),
            ItModel::TryMapEach(i, s) => match self.next(i, pos)? {
                Ok((Some(v), p)) => match f_check(*s, v) {
                    Ok(v) => Ok((Some(v), p)),
                    Err(e) if e.term => {
                        self.fatals += 1;
                        Err(e)
                    }
                    Err(_) => Ok((None, p)),
                },
                Ok((None, p)) => Ok((None, p)),
                Err(e) => {
                    let t = e.term;
                    Err(er(EK::Conv(Box::new(e)), t))
                }
            },
            ItModel::MapWhile(i, s) => self.next(i, pos)?.map(|(v, p)| (v.and_then(|v| f_while(*s, v)), p)),
            ItModel::Scan(i, st) => self.next(i, pos)?.map(|(v, p)| (v.map(|v| f_scan(st, v)), p)),
            ItModel::Take(i, left) => {
                if *left == 0 {
                    Ok((None, pos))
                } else {
                    let r = self.next(i, pos)?;
                    if let Ok((Some(_), _)) = &r {
                        *left -= 1;
                    }
                    r
                }
            }
        })
    }
    fn item(&mut self, n: &Node, pos: usize) -> NextR {
        Ok(match self.eval(n, pos)? {
            Ok((v, p)) => Ok((Some(v), p)),
            Err(e) if e.term => Err(e),
            Err(_) => {
                self.backtracked += 1;
                Ok((None, pos))
            }
        })
    }
}
type NextR = Result<Result<(Option<Val>, usize), Er>, Diverges>;
pub enum ItModel {
    Repeat(Node),
    Optional(Option<Node>),
    User(Vec<Step>, usize),
    MapEach(B<ItModel>, u8),
    TryMapEach(B<ItModel>, u8),
    MapWhile(B<ItModel>, u8),
    Scan(B<ItModel>, u64),
    Take(B<ItModel>, usize),
}

// ---------------------------------------------------------------------------------------------- execution

/// One run of a grammar through the library.
pub struct Run<'g> {
    pub g: &'g Grammar,
    pub steps: Cell<u64>,
    pub max_steps: u64,
    pub pulls: Cell<u64>,
    /// runs of user-written parsers
    pub leafs: Cell<u64>,
    pub trace: Cell<u64>,
    /// a user-written parser has failed fatally
    pub fatal_at: Cell<Option<u64>>,
    /// user-written parsers that ran after that
    pub after_fatal: Cell<u64>,
    /// honour the per-node modes
    pub modes: bool,
    twice: Cell<u32>,
    pub reruns: Cell<u64>,
    /// in some modes, another state of each iterative parser object runs first
    pub decoys: bool,
    pub decoyed: Cell<u64>,
    /// allow the mode that runs a parser object several times
    pub twice_ok: bool,
    other: Cell<u32>,
    /// the run on other input was too long: no verdict
    pub discard: Cell<bool>,
    pub fault: RefCell<Option<String>>,
    arena: RefCell<Vec<Box<dyn Keep + 'g>>>,
}
/// Owns a run that is borrowed for as long as its grammar. Drop it after everything that uses the run.
pub struct RunBox<'g>(*mut Run<'g>);
impl<'g> RunBox<'g> {
    pub fn new(r: Run<'g>) -> Self {
        RunBox(Box::into_raw(Box::new(r)))
    }
    pub fn get(&self) -> &'g Run<'g> {
        // SAFETY: see the type's contract
        unsafe { &*self.0 }
    }
}
impl<'g> Drop for RunBox<'g> {
    fn drop(&mut self) {
        // SAFETY: made by Box::into_raw
        drop(unsafe { Box::from_raw(self.0) })
    }
}

trait Keep {}
impl<T> Keep for T {}

impl<'g> Run<'g> {
    pub fn new(g: &'g Grammar, modes: bool, max_steps: u64) -> Self {
        Run {
            g,
            steps: Cell::new(0),
            max_steps,
            pulls: Cell::new(0),
            leafs: Cell::new(0),
            trace: Cell::new(0),
            fatal_at: Cell::new(None),
            after_fatal: Cell::new(0),
            modes,
            twice: Cell::new(0),
            reruns: Cell::new(0),
            twice_ok: true,
            decoys: false,
            decoyed: Cell::new(0),
            other: Cell::new(0),
            discard: Cell::new(false),
            fault: RefCell::new(None),
            arena: RefCell::default(),
        }
    }
    fn step(&self) {
        self.steps.set(self.steps.get() + 1);
        if self.steps.get() > self.max_steps {
            if self.other.get() > 0 || self.reruns.get() > 0 || self.decoyed.get() > 0 {
                // running objects again multiplies the work
                self.discard.set(true);
                panic!("other input takes too long");
            }
            panic!("parsing does not end: more than {} parser calls", self.max_steps);
        }
    }
    fn user_call(&self) {
        if self.fatal_at.get().is_some() {
            self.after_fatal.set(self.after_fatal.get() + 1);
        }
    }
    fn raised(&self) {
        if self.fatal_at.get().is_none() {
            self.fatal_at.set(Some(self.steps.get()));
        }
    }
    fn set_fault(&self, s: String) {
        let mut f = self.fault.borrow_mut();
        if f.is_none() {
            *f = Some(s);
        }
    }
    /// Keeps `t` until the run ends. The reference must not be used after that.
    #[allow(clippy::mut_from_ref)]
    fn keep<T: 'g>(&self, t: T) -> &'g T {
        let b = Box::new(t);
        let p: *const T = &*b;
        self.arena.borrow_mut().push(b);
        // SAFETY: boxes never move, and the arena lives until the Run is dropped, after every parser state.
        unsafe { &*p }
    }
}

/// The library's primitives, per kind of sequence.
pub trait Prims: Kind {
    fn atom<S: Subject<Self>>(p: &[char]) -> impl Parser<S, Output = (), Error = Miss<()>>;
    fn any<S: Subject<Self>>() -> impl Parser<S, Output = char, Error = Miss<()>>;
    fn the<S: Subject<Self>>(c: char) -> impl Parser<S, Output = (), Error = Miss<()>>;
}
impl Prims for StrK {
    fn atom<S: Subject<Self>>(p: &[char]) -> impl Parser<S, Output = (), Error = Miss<()>> {
        atom(p.iter().collect::<String>())
    }
    fn any<S: Subject<Self>>() -> impl Parser<S, Output = char, Error = Miss<()>> {
        any_char()
    }
    fn the<S: Subject<Self>>(c: char) -> impl Parser<S, Output = (), Error = Miss<()>> {
        the_char(c)
    }
}
impl Prims for ItemK {
    fn atom<S: Subject<Self>>(p: &[char]) -> impl Parser<S, Output = (), Error = Miss<()>> {
        atom(p.to_vec())
    }
    fn any<S: Subject<Self>>() -> impl Parser<S, Output = char, Error = Miss<()>> {
        any_item()
    }
    fn the<S: Subject<Self>>(c: char) -> impl Parser<S, Output = (), Error = Miss<()>> {
        the_item(c)
    }
}

/// a user-written parser: reads up to `n` elements
pub async fn read_some<K: Kind, S: Sequence<Segment = K::Seg, Length = K::Len>>(mut s: S, n: u8) -> (Vec<char>, S) {
    let mut out = vec![];
    while out.len() < n as usize {
        let mut got = None;
        {
            let mut st = s.segments();
            while let Some(p) = st.next(K::to_len(1)).await {
                if let Some(c) = K::chars(p).first() {
                    got = Some(*c);
                    break;
                }
            }
        }
        let Some(c) = got else { break };
        out.push(c);
        s = s.advance(K::to_len(K::width(c))).await;
    }
    (out, s)
}

type Fut<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;
type Res<S> = ParseResult<S, Val, Er>;

/// A node as a parser.
pub struct Dyn<'g, K> {
    pub run: &'g Run<'g>,
    pub node: &'g Node,
    k: PhantomData<K>,
}
impl<'g, K> Dyn<'g, K> {
    pub fn new(run: &'g Run<'g>, node: &'g Node) -> Self {
        Dyn { run, node, k: PhantomData }
    }
}
impl<'g, K: Prims, S: Subject<K> + 'g> ParserOnce<S> for Dyn<'g, K> {
    type Output = Val;
    type Error = Er;
    async fn parse_once(self, input: S) -> ParserResult<S, Self> {
        exec::<K, S>(self.run, self.node, input).await
    }
}
impl<'g, K: Prims, S: Subject<K> + 'g> Parser<S> for Dyn<'g, K> {
    async fn parse(&self, input: S) -> ParserResult<S, Self> {
        exec::<K, S>(self.run, self.node, input).await
    }
}

fn eith(e: Either<Er, Er>) -> Er {
    let term = (&e).should_terminate();
    match e {
        Either::First(e) => er(EK::First(Box::new(e)), term),
        Either::Last(e) => er(EK::Last(Box::new(e)), term),
    }
}
fn both(e: EitherBoth<Er, Er>) -> Er {
    let e = Some(e);
    let term = e.should_terminate();
    match e.unwrap() {
        EitherBoth::First(e) => er(EK::First(Box::new(e)), term),
        EitherBoth::Last(e) => er(EK::Last(Box::new(e)), term),
        EitherBoth::Both(a, b) => er(EK::Both(Box::new(a), Box::new(b)), term),
    }
}

struct Er2(Er);
impl From<Er> for Er2 {
    fn from(e: Er) -> Self {
        user();
        let t = e.term;
        Er2(er(EK::Conv(Box::new(e)), t))
    }
}
impl ParseError for Er2 {
    fn should_terminate(&self) -> bool {
        user();
        self.0.term
    }
}
struct V0(Val);
struct V1(Val);
struct VU(Val);
impl From<V0> for VU {
    fn from(v: V0) -> Self {
        user();
        VU(Val::Uni(0, Box::new(v.0)))
    }
}
impl From<V1> for VU {
    fn from(v: V1) -> Self {
        user();
        VU(Val::Uni(1, Box::new(v.0)))
    }
}
struct E0(Er);
struct E1(Er);
struct EU(Er);
impl ParseError for E0 {
    fn should_terminate(&self) -> bool {
        user();
        self.0.term
    }
}
impl ParseError for E1 {
    fn should_terminate(&self) -> bool {
        user();
        self.0.term
    }
}
impl ParseError for EU {
    fn should_terminate(&self) -> bool {
        user();
        self.0.term
    }
}
impl From<E0> for EU {
    fn from(e: E0) -> Self {
        user();
        let t = e.0.term;
        EU(er(EK::Uni(0, Box::new(e.0)), t))
    }
}
impl From<E1> for EU {
    fn from(e: E1) -> Self {
        user();
        let t = e.0.term;
        EU(er(EK::Uni(1, Box::new(e.0)), t))
    }
}
struct OpVal {
    v: Val,
    prec: usize,
    left: bool,
}
impl Operator for OpVal {
    fn precedence(&self) -> usize {
        user();
        self.prec
    }
    fn associativity(&self) -> Associativity {
        user();
        if self.left {
            Associativity::Left
        } else {
            Associativity::Right
        }
    }
}
struct Expr(Val);
impl From<Val> for Expr {
    fn from(v: Val) -> Self {
        user();
        Expr(v)
    }
}
impl From<(Expr, OpVal, Expr)> for Expr {
    fn from((a, o, b): (Expr, OpVal, Expr)) -> Self {
        user();
        Expr(Val::Op(Box::new(a.0), Box::new(o.v), Box::new(b.0)))
    }
}

fn conv<S, O, E>(r: ParseResult<S, O, E>, o: impl Fn(O) -> Val, e: impl Fn(E) -> Er) -> Res<S>
where
    S: Sequence,
{
    match r {
        Ok((v, r)) => Ok((o(v), r)),
        Err((x, r)) => Err((e(x), r)),
    }
}

/// Runs the same parser object on the input, on other input, and on the input again (on both by turns and
/// after a run that is given up, if possible).
async fn twice<'g, K: Prims, S: Subject<K> + 'g, P: Parser<S>>(
    run: &'g Run<'g>,
    p: &P,
    input: S,
    o: &impl Fn(P::Output) -> Val,
    e: &impl Fn(P::Error) -> Er,
) -> Res<S> {
    run.twice.set(run.twice.get() + 1);
    run.reruns.set(run.reruns.get() + 1);
    let (a, again, back) = (input.anchor(), input.anchor(), input.anchor());
    fn view<K: Kind, S: Subject<K>>(r: Res<S>) -> (Result<(Val, usize), Er>, UnknownLocation<S>) {
        match r {
            Ok((v, mut r)) => {
                let n = r.rest().len();
                (Ok((v, n)), r.into())
            }
            Err((e, r)) => (Err(e), r),
        }
    }
    let (first, rest) = view::<K, S>(conv(p.parse(input).await, o, e));
    // other input: what follows the next element
    let (_, other) = read_some::<K, S>(rest.rewind(a).await, 1).await;
    run.other.set(run.other.get() + 1);
    let (on_other, rest) = view::<K, S>(conv(p.parse(other).await, o, e));
    run.other.set(run.other.get() - 1);
    let input = rest.rewind(again).await;
    let (second, rest) = if let Some(f) = input.fork() {
        // while the object also runs on the other input
        let (_, other) = read_some::<K, S>(f, 1).await;
        run.other.set(run.other.get() + 1);
        let (y, x) = by_turns(p.parse(other), p.parse(input)).await;
        run.other.set(run.other.get() - 1);
        let (y, _) = view::<K, S>(conv(y, o, e));
        if y != on_other {
            run.set_fault(format!("one parser object run on two inputs by turns gave {y:?}, alone {on_other:?}"));
        }
        view::<K, S>(conv(x, o, e))
    } else {
        view::<K, S>(conv(p.parse(input).await, o, e))
    };
    if first != second {
        run.set_fault(format!("running one parser object again gave {second:?}, first {first:?}"));
    }
    let input = rest.rewind(back).await;
    if let Some(f) = input.fork() {
        // a run that is given up at one of its suspensions
        let polls = run.steps.get() % 6;
        run.other.set(run.other.get() + 1);
        {
            let mut fut = std::pin::pin!(p.parse(f));
            std::future::poll_fn(|cx| {
                for _ in 0..polls {
                    if fut.as_mut().poll(cx).is_ready() {
                        break;
                    }
                }
                std::task::Poll::Ready(())
            })
            .await
        }
        run.other.set(run.other.get() - 1);
    }
    let r = conv(p.parse(input).await, o, e);
    run.twice.set(run.twice.get() - 1);
    r
}

async fn mode<'g, K: Prims, S: Subject<K> + 'g, P: Parser<S>>(
    run: &'g Run<'g>,
    mode: u8,
    p: P,
    input: S,
    o: impl Fn(P::Output) -> Val,
    e: impl Fn(P::Error) -> Er,
) -> Res<S> {
    let mut mode = if run.modes { mode % MODES } else { 0 };
    if mode == 4 && (run.twice.get() >= 1 || !run.twice_ok) {
        mode = 0;
    }
    match mode {
        1 => conv(p.parse_once(input).await, o, e),
        2 => conv(ParserExtension::<S>::boxed(p).parse(input).await, o, e),
        3 => conv(ParserExtension::<S>::as_ref(&p).parse(input).await, o, e),
        4 => twice::<K, S, P>(run, &p, input, &o, &e).await,
        5 => conv(ParserExtension::<S>::boxed(p).parse_once(input).await, o, e),
        6 => {
            let r = ParserExtension::<S>::as_ref(&p);
            let c = r.clone();
            conv(c.parse_once(input).await, o, e)
        }
        7 => {
            let r = ParserExtension::<S>::boxed(p);
            conv(ParserExtension::<S>::as_ref(&r).parse(input).await, o, e)
        }
        _ => conv(p.parse(input).await, o, e),
    }
}

fn miss(e: Miss<()>) -> Er {
    er(EK::Miss, e.should_terminate())
}

/// Runs two futures by turns.
async fn by_turns<A: Future, B: Future>(a: A, b: B) -> (A::Output, B::Output) {
    let (mut a, mut b) = (std::pin::pin!(a), std::pin::pin!(b));
    let (mut x, mut y) = (None, None);
    std::future::poll_fn(move |cx| {
        use std::task::Poll;
        if x.is_none() {
            if let Poll::Ready(v) = a.as_mut().poll(cx) {
                x = Some(v);
            }
        }
        if y.is_none() {
            if let Poll::Ready(v) = b.as_mut().poll(cx) {
                y = Some(v);
            }
        }
        if x.is_some() && y.is_some() {
            Poll::Ready((x.take().unwrap(), y.take().unwrap()))
        } else {
            Poll::Pending
        }
    })
    .await
}

pub fn exec<'g, K: Prims, S: Subject<K> + 'g>(run: &'g Run<'g>, n: &'g Node, input: S) -> Fut<'g, Res<S>> {
    run.step();
    let m = n.mode;
    let d = move |n: &'g Node| Dyn::<K>::new(run, n);
    // extension methods when an even mode is used, constructors otherwise
    let ext = m % 2 == 0;
    match &n.kind {
        NodeKind::Atom(p) => Box::pin(mode::<K, S, _>(run, m, K::atom::<S>(p), input, |()| Val::Unit, miss)),
        NodeKind::The(c) => Box::pin(mode::<K, S, _>(run, m, K::the::<S>(*c), input, |()| Val::Unit, miss)),
        NodeKind::Any => Box::pin(mode::<K, S, _>(run, m, K::any::<S>(), input, Val::Ch, miss)),
        NodeKind::Leaf { tag, eat, end } => Box::pin(async move {
            run.user_call();
            run.leafs.set(run.leafs.get() + 1);
            let p = move |s: S| async move {
                let (read, s) = read_some::<K, S>(s, *eat).await;
                run.trace.set(traced(run.trace.get(), *tag, &read));
                match leaf_end(end, *tag, &read) {
                    End::Ok => parcom_util::done(Val::Leaf(*tag, read), s),
                    End::Fatal => {
                        run.raised();
                        let f = Fatal(*tag);
                        let term = f.should_terminate();
                        parcom_util::fail(er(EK::Leaf(f.0), term), s)
                    }
                    _ => {
                        let f: Miss<u8> = (*tag).into();
                        let term = f.should_terminate();
                        parcom_util::fail::<S, Val, Er>(er(EK::Leaf(f.0), term), s)
                    }
                }
            };
            // a user-written parser is a closure: run by reference or consuming
            if m % 2 == 0 {
                p.parse(input).await
            } else {
                p.parse_once(input).await
            }
        }),
        NodeKind::Join(a, b) => Box::pin(mode::<K, S, _>(
            run,
            m,
            if ext { ParserExtension::<S>::join(d(a), d(b)) } else { Join::new(d(a), d(b)) },
            input,
            |(a, b)| Val::Pair(Box::new(a), Box::new(b)),
            eith,
        )),
        NodeKind::Or(a, b) => Box::pin(mode::<K, S, _>(
            run,
            m,
            if ext { ParserExtension::<S>::or(d(a), d(b)) } else { Or::new(d(a), d(b)) },
            input,
            |e| match e {
                Either::First(v) => Val::First(Box::new(v)),
                Either::Last(v) => Val::Last(Box::new(v)),
            },
            both,
        )),
        NodeKind::Opt(a) => Box::pin(mode::<K, S, _>(
            run,
            m,
            if ext { ParserExtension::<S>::optional(d(a)) } else { Optional::new(d(a)) },
            input,
            |r| Val::Opt(r.map(Box::new).map_err(Box::new)),
            |e| e,
        )),
        NodeKind::Rep(a) => Box::pin(mode::<K, S, _>(
            run,
            m,
            if ext { ParserExtension::<S>::repeat(d(a)) } else { Repeat::new(d(a)) },
            input,
            |(v, e)| Val::Rep(v, Box::new(e)),
            |e| e,
        )),
        NodeKind::Map(a, t) => {
            let f = move |v| f_map(*t, v);
            Box::pin(mode::<K, S, _>(
                run,
                m,
                if ext { ParserExtension::<S>::map(d(a), f) } else { Map::new(d(a), f) },
                input,
                |v| v,
                |e| e,
            ))
        }
        NodeKind::MapErr(a, x) => {
            let f = move |e| f_map_err(x, e);
            Box::pin(mode::<K, S, _>(
                run,
                m,
                if ext { ParserExtension::<S>::map_err(d(a), f) } else { MapErr::new(d(a), f) },
                input,
                |v| v,
                |e| e,
            ))
        }
        NodeKind::AndThen(a, s) => {
            let f = move |v| f_check(*s, v).map_err(Er2);
            Box::pin(mode::<K, S, _>(
                run,
                m,
                if ext { ParserExtension::<S>::and_then(d(a), f) } else { AndThen::new(d(a), f) },
                input,
                |v| v,
                |e| e.0,
            ))
        }
        NodeKind::Unify(a, b) => {
            let or = Or::new(Map::new(d(a), V0), Map::new(d(b), V1));
            let p: Unify<S, V0, V1, VU, _> = if ext { ParserExtension::<S>::unify(or) } else { Unify::new(or) };
            Box::pin(mode::<K, S, _>(run, m, p, input, |v| v.0, both))
        }
        NodeKind::UnifyErr(a, b) => {
            let j = Join::new(MapErr::new(d(a), E0), MapErr::new(d(b), E1));
            let p: UnifyErr<S, E0, E1, EU, _> = if ext { ParserExtension::<S>::unify_err(j) } else { UnifyErr::new(j) };
            Box::pin(mode::<K, S, _>(run, m, p, input, |(a, b)| Val::Pair(Box::new(a), Box::new(b)), |e| e.0))
        }
        NodeKind::Bin(t, o, table) => {
            let op = ParserExtension::<S>::map(d(o), move |v: Val| {
                let (prec, left) = op_class(&v, *table);
                OpVal { v, prec, left }
            });
            let p: BinExprParser<S, _, _, Expr> = BinExprParser::new(d(t), op);
            Box::pin(mode::<K, S, _>(run, m, p, input, |(e, why)| Val::Bin(Box::new(e.0), Box::new(eith(why))), eith))
        }
        NodeKind::Collect(i) => {
            let it = DynIt::<K> { run, it: i, k: PhantomData };
            let p: Collect<S, _, Vec<Val>> =
                if ext { IterativeParserExtension::<S>::collect(it) } else { Collect::new(it) };
            Box::pin(mode::<K, S, _>(run, m, p, input, |(v, e)| Val::List(v, e.map(Box::new)), |e| e))
        }
        NodeKind::Fold(i) => {
            let it = DynIt::<K> { run, it: i, k: PhantomData };
            let p = if ext {
                IterativeParserExtension::<S>::fold(it, (0u64, 1u64), f_fold)
            } else {
                Fold::new(it, (0u64, 1u64), f_fold)
            };
            Box::pin(mode::<K, S, _>(run, m, p, input, |(n, a)| Val::Acc(n, a), |e| e))
        }
        NodeKind::Guard(a) => Box::pin(async move {
            let mut input = input;
            let before = input.rest().len();
            match exec::<K, S>(run, a, input).await {
                Ok((v, mut r)) => {
                    if r.rest().len() == before {
                        return parcom_util::fail(er(EK::Empty, false), r);
                    }
                    Ok((v, r))
                }
                e => e,
            }
        }),
        NodeKind::Call(i) => {
            let rule = &run.g.rules[*i as usize % run.g.rules.len()];
            let p = move |s: S| async move { exec::<K, S>(run, rule, s).await };
            Box::pin(mode::<K, S, _>(run, m, p, input, |v| v, |e| e))
        }
    }
}

// iterative parsers

pub struct DynIt<'g, K> {
    pub run: &'g Run<'g>,
    pub it: &'g It,
    k: PhantomData<K>,
}
impl<'g, K> DynIt<'g, K> {
    pub fn new(run: &'g Run<'g>, it: &'g It) -> Self {
        DynIt { run, it, k: PhantomData }
    }
}
trait StateObj<S: Sequence> {
    fn next<'a>(&'a mut self, input: S) -> Fut<'a, ParseResult<S, Option<Val>, Er>>
    where
        S: 'a;
}
pub struct DynState<'g, S>(Box<dyn StateObj<S> + 'g>);
impl<'g, S: Sequence> IterativeParserState<S> for DynState<'g, S> {
    type Output = Val;
    type Error = Er;
    async fn parse_next(&mut self, input: S) -> ParseResult<S, Option<Val>, Er> {
        self.0.next(input).await
    }
}

/// adapts a library state: error conversion, type erasure
struct Wrap<T, F> {
    st: T,
    e: F,
}
impl<S: Sequence, T: IterativeParserState<S, Output = Val>, F: Fn(T::Error) -> Er> StateObj<S> for Wrap<T, F> {
    fn next<'a>(&'a mut self, input: S) -> Fut<'a, ParseResult<S, Option<Val>, Er>>
    where
        S: 'a,
    {
        Box::pin(async move {
            match self.st.parse_next(input).await {
                Ok(x) => Ok(x),
                Err((e, r)) => Err(((self.e)(e), r)),
            }
        })
    }
}

/// Before its first step, another state of the same parser object makes some steps on the same input: it must
/// not matter.
struct Decoy<'g, T, F> {
    run: &'g Run<'g>,
    decoy: Option<T>,
    steps: u8,
    st: T,
    e: F,
}
impl<'g, S, T, F> StateObj<S> for Decoy<'g, T, F>
where
    S: RewindSequence,
    T: IterativeParserState<S, Output = Val>,
    F: Fn(T::Error) -> Er,
{
    fn next<'a>(&'a mut self, input: S) -> Fut<'a, ParseResult<S, Option<Val>, Er>>
    where
        S: 'a,
    {
        Box::pin(async move {
            let mut input = input;
            if let Some(mut d) = self.decoy.take() {
                let run = self.run;
                run.other.set(run.other.get() + 1);
                run.decoyed.set(run.decoyed.get() + 1);
                let saved = (run.pulls.get(), run.fatal_at.get(), run.after_fatal.get());
                let a = input.anchor();
                let mut left = self.steps;
                let end: UnknownLocation<S> = loop {
                    if left == 0 {
                        break input.into();
                    }
                    left -= 1;
                    match d.parse_next(input).await {
                        Ok((Some(_), r)) => input = r,
                        Ok((None, r)) => break r.into(),
                        Err((_, r)) => break r,
                    }
                };
                input = end.rewind(a).await;
                run.pulls.set(saved.0);
                run.fatal_at.set(saved.1);
                run.after_fatal.set(saved.2);
                run.other.set(run.other.get() - 1);
            }
            match self.st.parse_next(input).await {
                Ok(x) => Ok(x),
                Err((e, r)) => Err(((self.e)(e), r)),
            }
        })
    }
}

/// a user-written iterative parser
struct UserState<'g, K> {
    run: &'g Run<'g>,
    steps: &'g [Step],
    i: usize,
    k: PhantomData<K>,
}
impl<'g, K: Kind, S: Subject<K>> StateObj<S> for UserState<'g, K> {
    fn next<'a>(&'a mut self, input: S) -> Fut<'a, ParseResult<S, Option<Val>, Er>>
    where
        S: 'a,
    {
        Box::pin(async move {
            self.run.pulls.set(self.run.pulls.get() + 1);
            self.run.user_call();
            self.run.step();
            user();
            called(7, self.i as u8);
            let step = self.steps.get(self.i).cloned().unwrap_or(Step::End(0));
            let idx = self.i as u8;
            let (Step::Item(eat) | Step::End(eat) | Step::Miss(eat) | Step::Fatal(eat)) = step;
            let (read, s) = read_some::<K, S>(input, eat).await;
            // only now: a step given up before has not counted
            self.i += 1;
            match step {
                Step::Item(_) => Ok((Some(Val::Leaf(idx, read)), s)),
                Step::End(_) => Ok((None, s)),
                Step::Miss(_) => Err((er(EK::Leaf(idx), false), s.into())),
                Step::Fatal(_) => {
                    self.run.raised();
                    Err((er(EK::Leaf(idx), true), s.into()))
                }
            }
        })
    }
}

impl<'g, K: Prims> DynIt<'g, K> {
    /// builds the library's iterative parser for this node and starts it
    pub fn start<S: Subject<K> + 'g>(&self) -> DynState<'g, S> {
        let run = self.run;
        run.step();
        let inner = |i: &'g It| DynIt::<K> { run, it: i, k: PhantomData };
        let m = if run.modes { self.it.mode } else { 0 };
        let ext = m % 2 == 0;
        macro_rules! go {
            ($p:expr, $e:expr) => {{
                let p = $p;
                match m % 3 {
                    0 if run.decoys && m >= 3 => {
                        let p = run.keep(p);
                        DynState(Box::new(Decoy {
                            run,
                            decoy: Some(IterativeParser::<S>::parse_iterative(p)),
                            steps: m / 3,
                            st: IterativeParser::<S>::parse_iterative(p),
                            e: $e,
                        }))
                    }
                    0 => {
                        let p = run.keep(p);
                        DynState(Box::new(Wrap { st: IterativeParser::<S>::parse_iterative(p), e: $e }))
                    }
                    1 => DynState(Box::new(Wrap { st: IterativeParserOnce::<S>::parse_iterative_once(p), e: $e })),
                    _ => {
                        let p = run.keep(p);
                        let r = run.keep(p);
                        if m >= 6 {
                            DynState(Box::new(Wrap { st: IterativeParserOnce::<S>::parse_iterative_once(p), e: $e }))
                        } else {
                            DynState(Box::new(Wrap { st: IterativeParser::<S>::parse_iterative(r), e: $e }))
                        }
                    }
                }
            }};
        }
        match &self.it.kind {
            ItKind::User(s) => DynState(Box::new(UserState::<K> { run, steps: s, i: 0, k: PhantomData })),
            ItKind::Repeat(n) => go!(Repeat::<S, _>::new(Dyn::<K>::new(run, n)), |e| e),
            ItKind::Optional(n) => go!(Optional::<S, _>::new(Dyn::<K>::new(run, n)), |e| e),
            ItKind::MapEach(i, t) => {
                let f = move |v| f_map(*t, v);
                go!(
                    if ext { IterativeParserExtension::<S>::map_each(inner(i), f) } else { MapEach::new(inner(i), f) },
                    |e| e
                )
            }
            ItKind::TryMapEach(i, s) => {
                let f = move |v| f_check(*s, v).map_err(Er2);
                go!(
                    if ext {
                        IterativeParserExtension::<S>::try_map_each(inner(i), f)
                    } else {
                        TryMapEach::new(inner(i), f)
                    },
                    |e: Er2| e.0
                )
            }
            ItKind::MapWhile(i, s) => {
                let f = move |v| f_while(*s, v);
                go!(
                    if ext { IterativeParserExtension::<S>::map_while(inner(i), f) } else { MapWhile::new(inner(i), f) },
                    |e| e
                )
            }
            ItKind::Scan(i) => go!(
                if ext {
                    IterativeParserExtension::<S>::scan(inner(i), 5u64, f_scan)
                } else {
                    Scan::new(inner(i), 5u64, f_scan)
                },
                |e| e
            ),
            ItKind::Take(i, n) => go!(
                if ext {
                    IterativeParserExtension::<S>::take(inner(i), *n)
                } else {
                    Take::new(inner(i), *n)
                },
                |e| e
            ),
        }
    }
}
impl<'g, K: Prims, S: Subject<K> + 'g> IterativeParserOnce<S> for DynIt<'g, K> {
    type Output = Val;
    type Error = Er;
    type StateOnce = DynState<'g, S>;
    fn parse_iterative_once(self) -> Self::StateOnce {
        self.start()
    }
}
impl<'g, K: Prims, S: Subject<K> + 'g> IterativeParser<S> for DynIt<'g, K> {
    type State<'a>
        = DynState<'g, S>
    where
        Self: 'a;
    fn parse_iterative(&self) -> Self::State<'_> {
        self.start()
    }
}

// ---------------------------------------------------------------------------------------------- inputs

/// A random choice tape; runs out into zeros, or (long inputs) into numbers made from it.
pub struct Tape<'t> {
    t: &'t [u16],
    i: usize,
    pub long: bool,
}
/// few tapes give long repetitions
fn is_long(t: &[u16]) -> bool {
    t.first().is_some_and(|t| t % 97 == 96)
}
impl<'t> Tape<'t> {
    pub fn new(t: &'t [u16]) -> Self {
        Tape { t, i: 0, long: is_long(t) }
    }
    pub fn next(&mut self, n: usize) -> usize {
        let v = match self.t.get(self.i) {
            Some(v) => *v as usize,
            None if self.long => (h(&(self.t, self.i), 5) & 0xffff) as usize,
            None => 0,
        };
        self.i += 1;
        v % n.max(1)
    }
    /// how often something is repeated: below `n`, or very often
    fn many(&mut self, n: usize) -> usize {
        if self.long && self.next(2) == 0 {
            20 + self.next(300)
        } else {
            self.next(n)
        }
    }
    fn ch(&mut self) -> char {
        let a = crate::seq::gen::ALPHABET;
        a[self.next(a.len())]
    }
}

/// text the grammar is likely to accept, at least partly
pub fn sample(g: &Grammar, n: &Node, t: &mut Tape, out: &mut Vec<char>, fuel: &mut i32) {
    *fuel -= 1;
    if *fuel < 0 {
        return;
    }
    match &n.kind {
        NodeKind::Atom(p) => out.extend(p),
        NodeKind::The(c) => out.push(*c),
        NodeKind::Any => out.push(t.ch()),
        NodeKind::Leaf { eat, .. } => (0..*eat).for_each(|_| out.push(t.ch())),
        NodeKind::Join(a, b) | NodeKind::UnifyErr(a, b) => {
            sample(g, a, t, out, fuel);
            sample(g, b, t, out, fuel);
        }
        NodeKind::Or(a, b) | NodeKind::Unify(a, b) => {
            let which = t.next(3);
            sample(g, if which == 0 { a } else { b }, t, out, fuel);
        }
        NodeKind::Opt(a) => {
            if t.next(4) > 0 {
                sample(g, a, t, out, fuel)
            }
        }
        NodeKind::Rep(a) => {
            for _ in 0..t.many(5) {
                sample(g, a, t, out, fuel)
            }
        }
        NodeKind::Map(a, _) | NodeKind::MapErr(a, _) | NodeKind::AndThen(a, _) | NodeKind::Guard(a) => {
            sample(g, a, t, out, fuel)
        }
        NodeKind::Bin(a, o, _) => {
            sample(g, a, t, out, fuel);
            for _ in 0..t.many(7) {
                sample(g, o, t, out, fuel);
                sample(g, a, t, out, fuel);
            }
            if t.next(4) == 0 {
                sample(g, o, t, out, fuel);
            }
        }
        NodeKind::Collect(i) | NodeKind::Fold(i) => sample_it(g, i, t, out, fuel),
        NodeKind::Call(i) => sample(g, &g.rules[*i as usize % g.rules.len()], t, out, fuel),
    }
}
pub fn sample_it(g: &Grammar, i: &It, t: &mut Tape, out: &mut Vec<char>, fuel: &mut i32) {
    match &i.kind {
        ItKind::Repeat(n) => {
            for _ in 0..t.many(6) {
                sample(g, n, t, out, fuel)
            }
        }
        ItKind::Optional(n) => sample(g, n, t, out, fuel),
        ItKind::User(s) => (0..s.len()).for_each(|_| out.push(t.ch())),
        ItKind::MapEach(i, _)
        | ItKind::TryMapEach(i, _)
        | ItKind::MapWhile(i, _)
        | ItKind::Scan(i)
        | ItKind::Take(i, _) => sample_it(g, i, t, out, fuel),
    }
}
pub fn mutate(t: &mut Tape, out: &mut Vec<char>) {
    for _ in 0..2 {
        match t.next(10) {
            0 => {
                let n = t.next(out.len() + 1);
                out.truncate(n);
            }
            1 if !out.is_empty() => {
                let i = t.next(out.len());
                out[i] = t.ch();
            }
            2 => (0..t.next(4)).for_each(|_| out.push(t.ch())),
            3 if !out.is_empty() => {
                let i = t.next(out.len());
                out.remove(i);
            }
            4 => {
                let i = t.next(out.len() + 1);
                let c = t.ch();
                out.insert(i, c);
            }
            _ => {}
        }
    }
    out.truncate(if t.long { 1500 } else { 200 });
}
pub fn input_for(g: &Grammar, tape: &[u16]) -> Vec<char> {
    let one = |skip: usize| {
        let mut t = Tape::new(tape);
        t.i = 1 + skip;
        let mut out = vec![];
        let mut fuel = if t.long { 2500 } else { 120 };
        sample(g, &g.rules[0], &mut t, &mut out, &mut fuel);
        mutate(&mut t, &mut out);
        out
    };
    let first = one(0);
    if tape.first().is_none_or(|t| t % 4 == 0) {
        return first;
    }
    // usually, the candidate the grammar does most with
    let score = |i: &Vec<char>| {
        let mut m = Model::new(g, i);
        match m.eval(&g.rules[0], 0) {
            Ok(r) => (r.map_or(0, |(_, p)| p), m.steps),
            Err(_) => (0, 0),
        }
    };
    [first, one(3), one(11), one(19)].into_iter().max_by_key(score).unwrap()
}

// ---------------------------------------------------------------------------------------------- generation

pub fn nullable(n: &Node) -> bool {
    match &n.kind {
        NodeKind::Atom(p) => p.is_empty(),
        NodeKind::Any | NodeKind::The(_) | NodeKind::Guard(_) => false,
        NodeKind::Leaf { .. } => true, // reads nothing at the end
        NodeKind::Join(a, b) | NodeKind::UnifyErr(a, b) => nullable(a) && nullable(b),
        NodeKind::Or(a, b) | NodeKind::Unify(a, b) => nullable(a) || nullable(b),
        NodeKind::Map(a, _) | NodeKind::MapErr(a, _) | NodeKind::AndThen(a, _) => nullable(a),
        NodeKind::Bin(t, _, _) => nullable(t),
        _ => true,
    }
}
fn guarded(n: Node) -> Node {
    if nullable(&n) {
        Node { mode: 0, kind: NodeKind::Guard(Box::new(n)) }
    } else {
        n
    }
}

pub mod gen {
    use super::*;
    use crate::seq::gen::ch;
    use proptest::prelude::*;

    #[derive(Clone, Copy)]
    pub struct Bias {
        /// weight of user-written parsers that consume and fail
        pub fail: u32,
        pub fatal: u32,
        /// error maps that change the class, checked maps that raise fatal errors, collect
        pub reclass: bool,
        pub iter: u32,
        pub modes: bool,
        pub depth: u32,
        pub size: u32,
    }

    fn mode(b: Bias) -> BoxedStrategy<u8> {
        if b.modes {
            (0..MODES).boxed()
        } else {
            Just(0).boxed()
        }
    }
    fn leaf(b: Bias) -> BoxedStrategy<NodeKind> {
        let end = prop_oneof![
            4 => Just(End::Ok),
            b.fail => Just(End::Miss),
            b.fatal => Just(End::Fatal),
            b.fail => (0u8..3).prop_map(|k| End::Look(k * 2)),
            b.fatal => (0u8..3).prop_map(|k| End::Look(k * 2 + 1)),
        ];
        prop_oneof![
            5 => proptest::collection::vec(ch(), 1..4).prop_map(NodeKind::Atom),
            1 => Just(NodeKind::Atom(vec![])),
            3 => Just(NodeKind::Any),
            4 => ch().prop_map(NodeKind::The),
            2 + b.fail => (0u8..10, prop_oneof![1 => Just(0u8), 9 => 1u8..4], end).prop_map(|(tag, eat, end)| NodeKind::Leaf { tag, eat, end }),
            1 => (ch(), 0u8..3, 0..MODES).prop_map(move |(c, i, m)| {
                // rules are only called after something was consumed: no left recursion
                let first = Node { mode: 0, kind: if i == 0 { NodeKind::Any } else { NodeKind::The(c) } };
                let call = Node { mode: if b.modes { m } else { 0 }, kind: NodeKind::Call(i) };
                NodeKind::Join(Box::new(first), Box::new(call))
            }),
        ]
        .boxed()
    }
    fn err_map(b: Bias) -> BoxedStrategy<ErrMap> {
        if b.reclass {
            prop_oneof![Just(ErrMap::Keep), Just(ErrMap::Soften), Just(ErrMap::Harden), Just(ErrMap::Look)].boxed()
        } else {
            Just(ErrMap::Keep).boxed()
        }
    }
    fn wrap(b: Bias, k: BoxedStrategy<NodeKind>) -> BoxedStrategy<Node> {
        (mode(b), k).prop_map(|(mode, kind)| Node { mode, kind }).boxed()
    }
    fn salt(b: Bias) -> BoxedStrategy<u8> {
        if b.reclass {
            (0u8..12).boxed()
        } else {
            (0u8..6).prop_map(|k| k * 2).boxed()
        }
    }
    pub fn node(b: Bias) -> BoxedStrategy<Node> {
        wrap(b, leaf(b))
            .prop_recursive(b.depth, b.size, 2, move |n| {
                let bn = n.clone().prop_map(Box::new).boxed();
                let two = (bn.clone(), bn.clone()).boxed();
                let rep = n.clone().prop_map(|n| Box::new(guarded(n))).boxed();
                let it = it(b, n.clone()).prop_map(Box::new).boxed();
                let mut opts: Vec<(u32, BoxedStrategy<NodeKind>)> = vec![
                    (5, two.clone().prop_map(|(a, b)| NodeKind::Join(a, b)).boxed()),
                    (5, two.clone().prop_map(|(a, b)| NodeKind::Or(a, b)).boxed()),
                    (2, bn.clone().prop_map(NodeKind::Opt).boxed()),
                    (3, rep.clone().prop_map(NodeKind::Rep).boxed()),
                    (1, (bn.clone(), 0u8..8).prop_map(|(a, t)| NodeKind::Map(a, t)).boxed()),
                    (1, (bn.clone(), err_map(b)).prop_map(|(a, t)| NodeKind::MapErr(a, t)).boxed()),
                    (2, (bn.clone(), salt(b)).prop_map(|(a, t)| NodeKind::AndThen(a, t)).boxed()),
                    (1, two.clone().prop_map(|(a, b)| NodeKind::Unify(a, b)).boxed()),
                    (1, two.clone().prop_map(|(a, b)| NodeKind::UnifyErr(a, b)).boxed()),
                    (2, (bn.clone(), rep.clone(), 0u8..8).prop_map(|(t, o, k)| NodeKind::Bin(t, o, k)).boxed()),
                ];
                if b.iter > 0 {
                    opts.push((b.iter, it.clone().prop_map(NodeKind::Fold).boxed()));
                    if b.reclass {
                        opts.push((b.iter, it.prop_map(NodeKind::Collect).boxed()));
                    }
                }
                wrap(b, proptest::strategy::Union::new_weighted(opts).boxed())
            })
            .boxed()
    }
    fn steps(b: Bias) -> BoxedStrategy<Vec<Step>> {
        let s = prop_oneof![
            8 => (0u8..3).prop_map(Step::Item),
            1 => (0u8..3).prop_map(Step::End),
            1 => (0u8..3).prop_map(Step::Miss),
            b.fatal.max(1) => (0u8..3).prop_map(Step::Fatal),
        ];
        proptest::collection::vec(s, 0..8).boxed()
    }
    /// finite iterative parsers; a repetition of something that can match nothing only occurs below `take`
    pub fn it(b: Bias, n: BoxedStrategy<Node>) -> BoxedStrategy<It> {
        let bn = n.clone().prop_map(Box::new).boxed();
        let rep = n.clone().prop_map(|n| Box::new(guarded(n))).boxed();
        let m = prop_oneof![Just(0u8), 0u8..9].boxed();
        let m = if b.modes { m } else { Just(0u8).boxed() };
        let base = (
            m.clone(),
            prop_oneof![
                3 => rep.prop_map(ItKind::Repeat),
                1 => bn.clone().prop_map(ItKind::Optional),
                4 => steps(b).prop_map(ItKind::User),
            ],
        )
            .prop_map(|(mode, kind)| It { mode, kind })
            .boxed();
        let endless = (m.clone(), m.clone(), bn, 0usize..5)
            .prop_map(|(a, b, n, k)| It {
                mode: a,
                kind: ItKind::Take(Box::new(It { mode: b, kind: ItKind::Repeat(n) }), k),
            })
            .boxed();
        let m2 = m.clone();
        prop_oneof![6 => base, 1 => endless]
            .prop_recursive(4, 6, 1, move |i| {
                let i = i.prop_map(Box::new).boxed();
                (
                    m2.clone(),
                    prop_oneof![
                        (i.clone(), 0u8..8).prop_map(|(i, t)| ItKind::MapEach(i, t)),
                        (i.clone(), salt(b)).prop_map(|(i, t)| ItKind::TryMapEach(i, t)),
                        (i.clone(), 0u8..8).prop_map(|(i, t)| ItKind::MapWhile(i, t)),
                        i.clone().prop_map(ItKind::Scan),
                        (i.clone(), prop_oneof![30 => 0usize..6, 1 => 6usize..=255, 1 => far_count()]).prop_map(|(i, t)| ItKind::Take(i, t)),
                    ],
                )
                    .prop_map(|(mode, kind)| It { mode, kind })
                    .boxed()
            })
            .boxed()
    }
    /// counts that no input reaches, around the widths a count could be cut to
    fn far_count() -> BoxedStrategy<usize> {
        let near = |w: u32| (0usize..6).prop_map(move |d| (1usize << w) + d);
        prop_oneof![near(8), near(16), near(32), near(63), (0usize..6).prop_map(|d| usize::MAX - d)].boxed()
    }
    /// iterations that can go on for long, given a long input
    pub fn long_it(b: Bias) -> BoxedStrategy<It> {
        let m = prop_oneof![Just(0u8), 0u8..9].boxed();
        let m = if b.modes { m } else { Just(0u8).boxed() };
        let leaf = |kind| Node { mode: 0, kind };
        let item = prop_oneof![
            2 => Just(leaf(NodeKind::Any)),
            2 => (0u8..8, 1u8..4).prop_map(move |(tag, eat)| leaf(NodeKind::Leaf { tag, eat, end: End::Ok })),
            1 => (0u8..8).prop_map(move |tag| {
                let l = leaf(NodeKind::Leaf { tag, eat: 3, end: End::Look(2) });
                leaf(NodeKind::Join(Box::new(leaf(NodeKind::Any)), Box::new(leaf(NodeKind::Opt(Box::new(l))))))
            }),
        ];
        let step = prop_oneof![
            300 => (0u8..3).prop_map(Step::Item),
            1 => (0u8..3).prop_map(Step::End),
            1 => (0u8..3).prop_map(Step::Miss),
            1 => (0u8..3).prop_map(Step::Fatal),
        ];
        let base = (
            m.clone(),
            prop_oneof![
                3 => item.prop_map(|n| ItKind::Repeat(Box::new(guarded(n)))),
                1 => proptest::collection::vec(step, 20..120).prop_map(ItKind::User),
            ],
        )
            .prop_map(|(mode, kind)| It { mode, kind })
            .boxed();
        base.prop_recursive(4, 6, 1, move |i| {
            let i = i.prop_map(Box::new).boxed();
            (
                m.clone(),
                prop_oneof![
                    (i.clone(), 0u8..8).prop_map(|(i, t)| ItKind::MapEach(i, t)),
                    (i.clone(), 200u8..208).prop_map(|(i, t)| ItKind::TryMapEach(i, t)),
                    (i.clone(), 200u8..208).prop_map(|(i, t)| ItKind::MapWhile(i, t)),
                    i.clone().prop_map(ItKind::Scan),
                    (i.clone(), prop_oneof![4 => 6usize..=255, 1 => 256usize..3000, 1 => far_count()]).prop_map(|(i, t)| ItKind::Take(i, t)),
                ],
            )
                .prop_map(|(mode, kind)| It { mode, kind })
                .boxed()
        })
        .boxed()
    }
    pub fn grammar(b: Bias) -> BoxedStrategy<Grammar> {
        let n = node(b);
        let bn = n.clone().prop_map(Box::new).boxed();
        let top = prop_oneof![
            1 => n.clone(),
            4 => wrap(b, (bn.clone(), bn.clone()).prop_map(|(a, b)| NodeKind::Join(a, b)).boxed()),
            3 => wrap(b, (bn.clone(), bn.clone()).prop_map(|(a, b)| NodeKind::Or(a, b)).boxed()),
            2 => wrap(b, n.clone().prop_map(|n| NodeKind::Rep(Box::new(guarded(n)))).boxed()),
        ];
        let n = top.boxed();
        prop_oneof![
            3 => proptest::collection::vec(n.clone(), 1),
            1 => proptest::collection::vec(n, 2..4),
        ]
        .prop_map(|rules| Grammar { rules })
        .boxed()
    }
    pub fn tape() -> BoxedStrategy<Vec<u16>> {
        prop_oneof![1 => proptest::collection::vec(any::<u16>(), 0..40), 2 => proptest::collection::vec(any::<u16>(), 20..80)].boxed()
    }
}

/// Runs rule 0 on `s`. After a failure the input is rewound to where it started.
pub async fn run_rule<'g, K: Prims, S: Subject<K> + 'g>(
    run: &'g Run<'g>,
    s: S,
) -> Result<(Val, Vec<char>, S), (Er, Vec<char>)> {
    let a = s.anchor();
    match exec::<K, S>(run, &run.g.rules[0], s).await {
        Ok((v, mut r)) => {
            let rest = r.rest();
            Ok((v, rest, r))
        }
        Err((e, u)) => {
            let mut s = u.rewind(a).await;
            let rest = s.rest();
            Err((e, rest))
        }
    }
}
