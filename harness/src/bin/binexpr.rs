//! C06, C07: binary expressions; long inputs.
use parcom_core::{ParseError, ParseResult, Parser, ParserOnce, RewindSequence};
use parcom_parsers::combinator::bin_expr::{Associativity, BinExprParser, Operator};
use parcom_parsers::{IterativeParserExtension, ParserExtension};
use parcom_util::{done, fail, Either};
use pbt::fw::{exec, Check, Obs, Tier};
use pbt::grammar::read_some;
use pbt::seq::{gen as sgen, Delivery, ItemK, Kind, SegSeq, StrK, Subject};
use pbt::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
struct Op {
    prec: usize,
    left: bool,
}
impl Operator for OpTok {
    fn precedence(&self) -> usize {
        self.op.prec
    }
    fn associativity(&self) -> Associativity {
        if self.op.left {
            Associativity::Left
        } else {
            Associativity::Right
        }
    }
}
#[derive(Clone, Copy, Debug)]
struct OpTok {
    id: usize,
    op: Op,
}

/// One piece of input. Terms are 0-9, operators 'A'.. (written twice when `wide`).
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Tok {
    Term(u8),
    Op(u8),
    /// reads as a term, fails recoverably after reading n more
    BadTerm(u8),
    BadOp(u8),
    FatalTerm,
    FatalOp,
    Other,
}
fn render(t: &[Tok]) -> Vec<char> {
    t.iter()
        .flat_map(|t| match t {
            Tok::Term(d) => vec![(b'0' + d % 10) as char],
            Tok::Op(i) => vec![OPS[*i as usize % OPS.len()]],
            Tok::BadTerm(n) => {
                let mut v = vec!['x'];
                v.extend(std::iter::repeat_n('é', *n as usize));
                v
            }
            Tok::BadOp(n) => {
                let mut v = vec!['y'];
                v.extend(std::iter::repeat_n('é', *n as usize));
                v
            }
            Tok::FatalTerm => vec!['X'],
            Tok::FatalOp => vec!['Y'],
            Tok::Other => vec!['é'],
        })
        .collect()
}
const OPS: [char; 8] = ['+', '-', '*', '/', '~', 'あ', '^', '😀'];

#[derive(Clone, Debug, PartialEq)]
enum Tree {
    T(char),
    N(Box<Tree>, usize, Box<Tree>),
}
impl From<char> for Tree {
    fn from(c: char) -> Self {
        Tree::T(c)
    }
}
impl From<(Tree, OpTok, Tree)> for Tree {
    fn from((a, o, b): (Tree, OpTok, Tree)) -> Self {
        Tree::N(Box::new(a), o.id, Box::new(b))
    }
}

#[derive(Clone, Debug, PartialEq)]
struct TErr(bool);
#[derive(Clone, Debug, PartialEq)]
struct OErr(bool);
impl ParseError for TErr {
    fn should_terminate(&self) -> bool {
        self.0
    }
}
impl ParseError for OErr {
    fn should_terminate(&self) -> bool {
        self.0
    }
}

async fn term<K: Kind, S: Subject<K>>(s: S) -> ParseResult<S, char, TErr> {
    let (c, s) = read_some::<K, S>(s, 1).await;
    match c.first() {
        Some(c @ '0'..='9') => done(*c, s),
        Some('X') => fail(TErr(true), s),
        Some('x') => fail(TErr(false), read_some::<K, S>(s, 2).await.1),
        _ => fail(TErr(false), s),
    }
}
async fn op<K: Kind, S: Subject<K>>(ops: &[Op], s: S) -> ParseResult<S, OpTok, OErr> {
    let (c, s) = read_some::<K, S>(s, 1).await;
    match c.first() {
        Some('Y') => fail(OErr(true), s),
        Some('y') => fail(OErr(false), read_some::<K, S>(s, 2).await.1),
        Some(c) => match OPS.iter().position(|o| o == c).and_then(|i| Some((i, *ops.get(i)?))) {
            Some((id, op)) => done(OpTok { id, op }, s),
            None => fail(OErr(false), s),
        },
        None => fail(OErr(false), s),
    }
}

type Why = (bool, bool); // (operator side, fatal)
/// the language definition, on characters
fn reference(ops: &[Op], input: &[char]) -> Result<(Tree, Why, usize), Why> {
    let term = |p: usize| match input.get(p) {
        Some(c @ '0'..='9') => Ok(*c),
        Some('X') => Err(true),
        _ => Err(false),
    };
    let mut terms = vec![term(0).map_err(|f| (false, f))?];
    let mut seen = vec![];
    let mut at = 1;
    let why = loop {
        let o = match input.get(at) {
            Some('Y') => return Err((true, true)),
            Some(c) => match OPS.iter().position(|o| o == c) {
                Some(i) if i < ops.len() => i,
                _ => break (true, false),
            },
            None => break (true, false),
        };
        match term(at + 1) {
            Ok(c) => {
                seen.push(o);
                terms.push(c);
                at += 2;
            }
            Err(true) => return Err((false, true)),
            Err(false) => break (false, false),
        }
    };
    fn climb(terms: &[char], seen: &[usize], ops: &[Op], i: &mut usize, min: u128) -> Tree {
        let mut lhs = Tree::T(terms[*i]);
        while let Some(o) = seen.get(*i) {
            let op = ops[*o];
            if (op.prec as u128) < min {
                break;
            }
            *i += 1;
            let rhs = climb(terms, seen, ops, i, op.prec as u128 + op.left as u128);
            lhs = Tree::N(Box::new(lhs), *o, Box::new(rhs));
        }
        lhs
    }
    Ok((climb(&terms, &seen, ops, &mut 0, 0), why, at))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case6 {
    ops: Vec<Op>,
    toks: Vec<Tok>,
    delivery: Delivery,
}
struct C06;

fn prec() -> BoxedStrategy<usize> {
    prop_oneof![
        6 => 0usize..4,
        2 => 0usize..100,
        2 => (0usize..3).prop_map(|k| usize::MAX - k),
        1 => any::<usize>(),
        1 => (0usize..3).prop_map(|k| (isize::MAX as usize) - 1 + k),
        1 => (0u32..64, 0usize..2).prop_map(|(k, d)| (1usize << k).wrapping_sub(d)),
    ]
    .boxed()
}
fn ops() -> BoxedStrategy<Vec<Op>> {
    let op = (prec(), any::<bool>()).prop_map(|(prec, left)| Op { prec, left });
    proptest::collection::vec(op, 1..=8).boxed()
}
fn toks(max: usize) -> BoxedStrategy<Vec<Tok>> {
    let t = prop_oneof![60 => (0u8..10).prop_map(Tok::Term), 1 => (0u8..3).prop_map(Tok::BadTerm), 1 => Just(Tok::FatalTerm), 1 => Just(Tok::Other), 1 => (0u8..8).prop_map(Tok::Op)];
    let o = prop_oneof![60 => (0u8..8).prop_map(Tok::Op), 1 => (0u8..3).prop_map(Tok::BadOp), 1 => Just(Tok::FatalOp), 1 => Just(Tok::Other), 1 => (0u8..10).prop_map(Tok::Term)];
    let chain = |n: usize| {
        (proptest::collection::vec((t.clone(), o.clone()), 0..n), any::<bool>()).prop_map(|(v, tail)| {
            let mut out: Vec<Tok> = v.into_iter().flat_map(|(a, b)| [a, b]).collect();
            if tail {
                out.pop();
            }
            out
        })
    };
    // thousands of operators, many of them open at once
    let long = (1000usize..3000, proptest::collection::vec(0u8..8, 1..3), 0u8..8).prop_map(|(n, ops, last)| {
        let mut out: Vec<Tok> = (0..n).flat_map(|k| [Tok::Term((k % 10) as u8), Tok::Op(ops[k * ops.len() / n])]).collect();
        out.extend([Tok::Term(1), Tok::Op(last), Tok::Term(2)]);
        out
    });
    prop_oneof![
        24000 => chain(12),
        8000 => chain(max),
        4000 => proptest::collection::vec(prop_oneof![t.clone(), o.clone()], 0..8),
        1 => long,
    ]
    .boxed()
}

fn run6<K: Kind, S: Subject<K>>(
    what: &str,
    c: &Case6,
    input: &[char],
    mk: impl Fn() -> S,
    want: &Result<(Tree, Why, usize), Why>,
) -> Result<(), String> {
    for once in [false, true] {
        let p: BinExprParser<S, _, _, Tree> = BinExprParser::new(term::<K, S>, |s: S| op::<K, S>(&c.ops, s));
        let s = mk();
        let a = s.anchor();
        let r = if once { exec::run(p.parse_once(s), 1 << 24)? } else { exec::run(p.parse(s), 1 << 24)? };
        let why = |e: &Either<OErr, TErr>| match e {
            Either::First(e) => (true, e.0),
            Either::Last(e) => (false, e.0),
        };
        match (r, want) {
            (Ok(((tree, e), mut rest)), Ok((wt, ww, at))) => {
                ensure_eq!(tree, *wt, "{what}: tree for {input:?}");
                ensure_eq!(why(&e), *ww, "{what}: stopped by (operator side, fatal) on {input:?}");
                ensure_eq!(rest.rest(), input[*at..].to_vec(), "{what}: rest of {input:?}");
            }
            (Err((e, rest)), Err(ww)) => {
                ensure_eq!(why(&e), *ww, "{what}: failed with (operator side, fatal) on {input:?}");
                ensure_eq!(e.should_terminate(), ww.1, "{what}: class of the error");
                let mut s = exec::run(async { rest.rewind(a).await }, 1000)?;
                ensure_eq!(s.rest(), input.to_vec(), "{what}: input after rewinding");
            }
            (r, w) => {
                return Err(format!(
                    "{what} on {input:?}: got {:?}, expected {w:?}",
                    r.map(|(o, _)| o).map_err(|e| e.0)
                ))
            }
        }
    }
    Ok(())
}

impl Check for C06 {
    type Case = Case6;
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "an operator table (1-8 operators, precedences over the whole usize range, left/right each) and a token string (mostly term/op chains, with dangling or unknown operators, partially reading recoverable failures and fatal errors anywhere); &str, &[char] and segmented text, by reference and consuming, against textbook precedence climbing. Non-trivial: at least two operators were combined, or a fatal error or dangling operator occurred after the first term"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(2_000_000, 20_000_000)
    }
    fn stack_size(&self) -> usize {
        128 << 20
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Case6> {
        (ops(), toks(t.pick(60, 300)), sgen::delivery())
            .prop_map(|(ops, mut toks, delivery)| {
                if toks.len() > 1000 {
                    for t in &mut toks {
                        if let Tok::Op(k) = t {
                            *k %= ops.len() as u8;
                        }
                    }
                }
                Case6 { ops, toks, delivery }
            })
            .boxed()
    }
    fn run(&self, c: &Case6, ob: &mut Obs) -> Result<(), String> {
        let input = render(&c.toks);
        let want = reference(&c.ops, &input);
        let n = match &want {
            Ok((_, _, at)) => at / 2,
            Err(_) => 0,
        };
        ob.nontrivial = match &want {
            Ok((_, w, _)) => n >= 2 || !w.0,
            Err(w) => w.1 && input.len() > 1,
        };
        ob.label_if(n >= 2, "two or more operators combined");
        ob.label_if(n > 4, "more than four operators combined");
        ob.label_if(n > 1000, "more than a thousand operators combined");
        ob.label_if(matches!(&want, Ok((_, (false, _), _))), "operator without right operand");
        ob.label_if(matches!(&want, Err((_, true))), "fatal");
        ob.label_if(matches!(&want, Err((_, false))), "no first term");
        let s: String = input.iter().collect();
        run6::<StrK, _>("&str", c, &input, || s.as_str(), &want)?;
        run6::<ItemK, _>("&[char]", c, &input, || input.as_slice(), &want)?;
        run6::<StrK, _>("segmented", c, &input, || SegSeq::<StrK>::new(&input, &c.delivery, 10_000_000).0, &want)
    }
}

// ------------------------------------------------------------------------------------------- C07

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Shape {
    Ascending,
    Descending,
    Saw(u8),
    Random(u64),
    AllLeft,
    AllRight,
    AllSame,
    Valley,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum What {
    Bin { shape: Shape, tail: bool },
    /// a binary expression whose operands are binary expressions in parentheses is left to C01: here lists of chains
    Repeat,
    RepeatOpt,
    Collect,
    CollectMapped,
    Fold,
    FoldScan,
    Take,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case7 {
    what: What,
    len: u32,
    once: bool,
}

thread_local! {
    static LO: Cell<usize> = const { Cell::new(usize::MAX) };
    static HI: Cell<usize> = const { Cell::new(0) };
}
/// notes how deep the stack is where user code runs
#[inline(never)]
fn probe() {
    let x = 0u8;
    let a = std::hint::black_box(&x) as *const u8 as usize;
    LO.set(LO.get().min(a));
    HI.set(HI.get().max(a));
}
const STACK_SPREAD: usize = 24 << 10;
const SMALL_STACK: usize = 256 << 10;

fn mix(a: u64, o: u64, b: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in [a, o.wrapping_add(77), b, 3] {
        h = (h ^ x).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23);
    }
    h
}
fn lop(shape: &Shape, i: usize, len: usize) -> Op {
    let mut r = i as u64;
    let (prec, left) = match shape {
        Shape::Ascending => (i, i % 3 == 0),
        Shape::Descending => (len - i, i % 3 == 0),
        Shape::Saw(k) => (i % (*k as usize + 2), i % 2 == 0),
        Shape::Random(s) => {
            r = mix(*s, r, 1);
            ((r % 17) as usize, r & (1 << 20) == 0)
        }
        Shape::AllLeft => (3, true),
        Shape::AllRight => (3, false),
        Shape::AllSame => (usize::MAX, i % 7 != 0),
        Shape::Valley => (i.abs_diff(len / 2), true),
    };
    Op { prec, left }
}
#[derive(Clone, Copy)]
struct HE(u64);
impl From<u64> for HE {
    fn from(x: u64) -> Self {
        HE(mix(x, 0, 1))
    }
}
struct LOp {
    i: usize,
    op: Op,
}
impl Operator for LOp {
    fn precedence(&self) -> usize {
        self.op.prec
    }
    fn associativity(&self) -> Associativity {
        if self.op.left {
            Associativity::Left
        } else {
            Associativity::Right
        }
    }
}
impl From<(HE, LOp, HE)> for HE {
    fn from((a, o, b): (HE, LOp, HE)) -> Self {
        probe();
        HE(mix(a.0, o.i as u64 + 2, b.0))
    }
}

/// shunting-yard over indices
fn yard(shape: &Shape, n: usize) -> u64 {
    let mut out = vec![mix(0, 0, 1)];
    let mut st: Vec<usize> = vec![];
    let red = |out: &mut Vec<u64>, o: usize| {
        let b = out.pop().unwrap();
        let a = out.pop().unwrap();
        out.push(mix(a, o as u64 + 2, b));
    };
    for i in 0..n {
        let o = lop(shape, i, n);
        while let Some(&t) = st.last() {
            let top = lop(shape, t, n);
            if top.prec > o.prec || (top.prec == o.prec && top.left) {
                st.pop();
                red(&mut out, t);
            } else {
                break;
            }
        }
        st.push(i);
        out.push(mix(i as u64 + 1, 0, 1));
    }
    while let Some(t) = st.pop() {
        red(&mut out, t);
    }
    out[0]
}

type S7<'a> = &'a [u64];
/// items are numbered 0.. so that every value identifies its place
async fn item(s: S7<'_>) -> ParseResult<S7<'_>, u64, parcom_util::error::Miss<()>> {
    probe();
    match s.first() {
        Some(x) if *x != u64::MAX => done(*x, &s[1..]),
        _ => fail((), s),
    }
}

fn long(c: &Case7) -> Result<(), String> {
    let n = c.len as usize;
    macro_rules! go {
        ($p:expr, $s:expr) => {{
            let p = $p;
            let s: S7 = $s;
            if c.once {
                exec::run(p.parse_once(s), 1 << 30)?
            } else {
                exec::run(p.parse(s), 1 << 30)?
            }
        }};
    }
    let mut items: Vec<u64> = (0..n as u64).collect();
    items.extend([u64::MAX, 5]);
    let after = |r: S7, at: usize| -> Result<(), String> {
        ensure!(r == &items[at..], "{} items left, expected {}", r.len(), items.len() - at);
        Ok(())
    };
    match &c.what {
        What::Bin { shape, tail } => {
            // terms at even, operators at odd positions: term i is 2i
            let mut v: Vec<u64> = (0..2 * n as u64 + 1).collect();
            if *tail {
                v.push(2 * n as u64 + 1);
            }
            v.push(u64::MAX);
            let t = |s: S7<'static>| async move {
                probe();
                match s.first() {
                    Some(x) if x % 2 == 0 => done::<S7<'static>, u64, TErr>(x / 2, &s[1..]),
                    _ => fail(TErr(false), s),
                }
            };
            let o = |s: S7<'static>| async move {
                probe();
                match s.first() {
                    Some(x) if x % 2 == 1 && *x != u64::MAX => {
                        let i = (x / 2) as usize;
                        done::<S7<'static>, LOp, OErr>(LOp { i, op: lop(shape, i, n) }, &s[1..])
                    }
                    _ => fail(OErr(false), s),
                }
            };
            // SAFETY: every use of `v` ends in this block
            let s: S7<'static> = unsafe { std::slice::from_raw_parts(v.as_ptr(), v.len()) };
            let p: BinExprParser<S7<'static>, _, _, HE> = BinExprParser::new(t, o);
            let r = if c.once { exec::run(p.parse_once(s), 1 << 30)? } else { exec::run(p.parse(s), 1 << 30)? };
            match r {
                Ok(((e, _), rest)) => {
                    ensure_eq!(e.0, yard(shape, n), "structure of a chain of {n} operators ({shape:?})");
                    ensure_eq!(rest.len(), v.len() - (2 * n + 1), "items left");
                }
                Err(_) => return Err("chain rejected".into()),
            }
        }
        What::Repeat => {
            let ((v, _), r) = go!(ParserExtension::<S7>::repeat(item), &items).map_err(|_| "rejected")?;
            ensure!(v == items[..n], "repeated items differ");
            after(r, n)?;
        }
        What::RepeatOpt => {
            let p = ParserExtension::<S7>::repeat(ParserExtension::<S7>::join(
                item,
                ParserExtension::<S7>::optional(ParserExtension::<S7>::or(item, item)),
            ));
            let ((v, _), r) = go!(p, &items).map_err(|_| "rejected")?;
            let flat: Vec<u64> = v
                .into_iter()
                .flat_map(|(a, b)| {
                    [Some(a), b.ok().map(|e| match e {
                        Either::First(v) | Either::Last(v) => v,
                    })]
                })
                .flatten()
                .collect();
            ensure!(flat == items[..n], "repeated items differ");
            after(r, n)?;
        }
        What::Collect => {
            let p = IterativeParserExtension::<S7>::collect::<Vec<u64>>(ParserExtension::<S7>::repeat(item));
            let ((v, _), r) = go!(p, &items).map_err(|_| "rejected")?;
            ensure!(v == items[..n], "collected items differ");
            after(r, n)?;
        }
        What::CollectMapped => {
            let it = IterativeParserExtension::<S7>::map_each(ParserExtension::<S7>::repeat(item), |x: u64| {
                probe();
                x ^ 1
            });
            let it = IterativeParserExtension::<S7>::map_while(it, |x| {
                probe();
                Some(x)
            });
            let p = IterativeParserExtension::<S7>::collect::<Vec<u64>>(it);
            let ((v, _), r) = go!(p, &items).map_err(|_| "rejected")?;
            ensure!(v.len() == n && v.iter().zip(&items).all(|(a, b)| a ^ 1 == *b), "collected items differ");
            after(r, n)?;
        }
        What::Fold | What::FoldScan => {
            let f = |a: u64, b: u64| {
                probe();
                mix(a, 9, b)
            };
            let want = items[..n].iter().fold(7, |a, b| mix(a, 9, *b));
            let (v, r) = if matches!(c.what, What::Fold) {
                go!(IterativeParserExtension::<S7>::fold(ParserExtension::<S7>::repeat(item), 7u64, f), &items)
                    .map_err(|_| "rejected")?
            } else {
                let it = IterativeParserExtension::<S7>::scan(ParserExtension::<S7>::repeat(item), 0u64, |st: &mut u64, x| {
                    probe();
                    *st += 1;
                    if *st == x + 1 {
                        x
                    } else {
                        0
                    }
                });
                go!(IterativeParserExtension::<S7>::fold(it, 7u64, f), &items).map_err(|_| "rejected")?
            };
            ensure_eq!(v, want, "fold over {n} items");
            after(r, n)?;
        }
        What::Take => {
            let it = IterativeParserExtension::<S7>::take(ParserExtension::<S7>::repeat(item), n / 2);
            let p = IterativeParserExtension::<S7>::collect::<Vec<u64>>(it);
            let ((v, _), r) = go!(p, &items).map_err(|_| "rejected")?;
            ensure!(v == items[..n / 2], "taken items differ");
            after(r, n / 2)?;
        }
    }
    let (lo, hi) = (LO.get(), HI.get());
    if hi > lo {
        ensure!(
            hi - lo <= STACK_SPREAD,
            "user code ran at stack depths {} bytes apart for {n} elements ({:?})",
            hi - lo,
            c.what
        );
    }
    Ok(())
}

struct C07;
impl Check for C07 {
    type Case = Case7;
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "operator chains (ascending, descending, saw-tooth, random, all-left, all-right, highest precedence, valley), repetitions, collections, folds and takes of many elements, run on a 256 KiB stack; structure checked by hash against shunting-yard / list operations, and user code must always run at nearly the same stack depth. Non-trivial: at least 1000 elements"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(12_000, 80_000)
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Case7> {
        let shape = prop_oneof![
            Just(Shape::Ascending),
            Just(Shape::Descending),
            (0u8..12).prop_map(Shape::Saw),
            any::<u64>().prop_map(Shape::Random),
            Just(Shape::AllLeft),
            Just(Shape::AllRight),
            Just(Shape::AllSame),
            Just(Shape::Valley),
        ];
        let what = prop_oneof![
            10 => (shape, any::<bool>()).prop_map(|(shape, tail)| What::Bin { shape, tail }),
            1 => Just(What::Repeat),
            1 => Just(What::RepeatOpt),
            1 => Just(What::Collect),
            1 => Just(What::CollectMapped),
            1 => Just(What::Fold),
            1 => Just(What::FoldScan),
            1 => Just(What::Take),
        ];
        let max = t.pick(20_000u32, 200_000);
        let len = prop_oneof![20 => 0u32..100, 60 => pbt::fw::sizes(1000..8000), 40 => pbt::fw::sizes(8000..max), 2 => 65_500u32..140_000];
        (what, len, any::<bool>()).prop_map(|(what, len, once)| Case7 { what, len, once }).boxed()
    }
    fn run(&self, c: &Case7, ob: &mut Obs) -> Result<(), String> {
        ob.nontrivial = c.len >= 1000;
        ob.label_if(c.len > 65_536, "more than 65536 elements");
        ob.label(match &c.what {
            What::Bin { shape: Shape::Ascending, .. } => "ascending chain",
            What::Bin { shape: Shape::AllRight, .. } => "right-associative chain",
            What::Bin { .. } => "other chain",
            _ => "repetition, collection or fold",
        });
        let c = c.clone();
        std::thread::Builder::new()
            .stack_size(SMALL_STACK)
            .spawn(move || {
                match pbt::fw::catch(|| long(&c)) {
                    Ok(r) => r,
                    Err(p) => Err(p),
                }
            })
            .unwrap()
            .join()
            .unwrap_or_else(|_| Err("panic".into()))
    }
}

fn main() {
    pbt::fw::main(&[&C06, &C07]);
}
