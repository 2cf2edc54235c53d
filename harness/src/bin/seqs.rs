//! C09 in-memory sequences, C10 measured sequences, C11 line/column metrics.
use parcom_core::measured::{IntoMeasured, Meter, Metrics};
use parcom_core::primitive::BytesDelta;
use parcom_core::{MeasuredSequence, PeekableSequence, RewindSequence, SegmentStream, Sequence};
use parcom_metrics::end_of_line::{EndOfLineMatch, CR, CRLF, LF};
use parcom_metrics::{EndOfLine, LineColumn, LineColumnMeter};
use pbt::fw::{catch, exec, Check, Obs, Tier};
use pbt::grammar::{gen, input_for, run_rule, Grammar, Prims, Run, RunBox};
use pbt::seq::{gen as sgen, ItemK, Kind, StrK, Subject};
use pbt::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::fmt::Debug;

fn now<F: std::future::IntoFuture>(f: F) -> F::Output {
    exec::run(f.into_future(), 1000).unwrap()
}

/// Content of a sequence: elements, and how much each advance is in the sequence's own units.
struct Content<'c, E, L> {
    items: &'c [E],
    /// length of items[a..b]
    len: &'c dyn Fn(usize, usize) -> L,
    /// a length of everything from a, and then some
    past: Option<&'c dyn Fn(usize, usize) -> L>,
    /// what the lengths of a history are multiplied with
    scale: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Adv(u8),
    /// two advances, against one (rewinding in between)
    Two(u8, u8),
    /// read up to n pieces and drop the reader
    Read(u8),
    Peek(u8),
    Anchor,
    Rewind(u8),
    Past(u8),
}

/// everything a history needs from a sequence type
trait Probe<E>: Sequence {
    fn read(&mut self, pieces: usize) -> Vec<E>;
    fn peek_all(&mut self, skip: Self::Length) -> Option<(Vec<E>, Vec<E>)>;
    fn check(&self, consumed: &[E]) -> Result<(), String>;
}

async fn read_pieces<S: Sequence, E>(s: &mut S, n: usize, split: impl Fn(&S::Segment) -> Vec<E>) -> Vec<E>
where
    S::Length: Default,
{
    let mut out = vec![];
    let mut st = s.segments();
    for _ in 0..n {
        match st.next(Default::default()).await {
            Some(p) => out.extend(split(p)),
            None => break,
        }
    }
    out
}

fn verify<S: Probe<E>, E: PartialEq + Clone + Debug, L>(s: &mut S, c: &Content<E, L>, pos: usize, what: &str) -> Result<(), String> {
    let got = s.read(usize::MAX);
    ensure_eq!(got, c.items[pos..].to_vec(), "{what}: content offered at {pos}");
    s.check(&c.items[..pos])
}

fn history<S, E>(mut s: S, c: &Content<E, S::Length>, ops: &[Op], used: &mut Used) -> Result<(), String>
where
    S: Probe<E> + RewindSequence,
    E: PartialEq + Clone + Debug,
{
    let n = c.items.len();
    let step = |k: &u8| *k as usize * c.scale;
    let mut pos = 0;
    let mut anchors: Vec<(S::Anchor, usize)> = vec![];
    verify(&mut s, c, pos, "start")?;
    for op in ops {
        let what = format!("{op:?}");
        match op {
            Op::Adv(k) => {
                let to = (pos + step(k)).min(n);
                s = now(s.advance((c.len)(pos, to)));
                used.moved |= to > pos;
                pos = to;
            }
            Op::Two(a, b) => {
                let m = (pos + step(a)).min(n);
                let to = (m + step(b)).min(n);
                let back = s.anchor();
                s = now(s.advance((c.len)(pos, m)));
                s = now(s.advance((c.len)(m, to)));
                verify(&mut s, c, to, "two advances")?;
                s = now(s.rewind(back));
                verify(&mut s, c, pos, "rewound")?;
                s = now(s.advance((c.len)(pos, to)));
                used.moved |= to > pos;
                used.rewound |= to > pos;
                pos = to;
            }
            Op::Read(k) => {
                let got = s.read(*k as usize);
                ensure!(c.items[pos..].starts_with(&got), "{what}: read {got:?} at {pos}");
            }
            Op::Peek(k) => {
                let to = (pos + step(k)).min(n);
                if let Some((all, after)) = s.peek_all((c.len)(pos, to)) {
                    ensure_eq!(all, c.items[pos..].to_vec(), "{what}: peeked content at {pos}");
                    ensure_eq!(after, c.items[to..].to_vec(), "{what}: peeked content after advancing the peek");
                }
            }
            Op::Anchor => {
                if anchors.len() < 8 {
                    anchors.push((s.anchor(), pos));
                }
            }
            Op::Rewind(k) => {
                let legal: Vec<usize> = (0..anchors.len()).filter(|i| anchors[*i].1 <= pos).collect();
                if legal.is_empty() {
                    continue;
                }
                let (a, p) = anchors.remove(legal[*k as usize % legal.len()]);
                used.rewound |= p < pos;
                s = now(s.rewind(a));
                pos = p;
            }
            Op::Past(k) => {
                let Some(past) = c.past else { continue };
                s = now(s.advance(past(pos, *k as usize)));
                used.moved |= n > pos;
                used.past |= *k > 0;
                pos = n;
            }
        }
        verify(&mut s, c, pos, &what)?;
    }
    for (a, p) in anchors.into_iter().rev() {
        if p <= pos {
            used.rewound |= p < pos;
            s = now(s.rewind(a));
            pos = p;
            verify(&mut s, c, pos, "final rewind")?;
        }
    }
    Ok(())
}
#[derive(Default)]
struct Used {
    moved: bool,
    rewound: bool,
    past: bool,
}
fn ops() -> BoxedStrategy<Vec<Op>> {
    let k = || prop_oneof![1 => Just(0u8), 6 => 1u8..4, 1 => 4u8..20];
    let op = prop_oneof![
        5 => k().prop_map(Op::Adv),
        2 => (k(), k()).prop_map(|(a, b)| Op::Two(a, b)),
        2 => (0u8..3).prop_map(Op::Read),
        2 => k().prop_map(Op::Peek),
        4 => Just(Op::Anchor),
        3 => any::<u8>().prop_map(Op::Rewind),
        1 => prop_oneof![0u8..5, any::<u8>()].prop_map(Op::Past),
    ];
    proptest::collection::vec(op, 1..24).boxed()
}

fn scale() -> BoxedStrategy<u16> {
    prop_oneof![12000 => Just(1u16), 40 => 2u16..40, 40 => 40u16..1000, 1 => 8_000..u16::MAX].boxed()
}
fn repeated(v: &[char], n: u16) -> Vec<char> {
    let n = (n as usize).min(if n < 8_000 { 20_000 } else { 80_000 } / v.len().max(1));
    v.iter().copied().cycle().take(v.len() * n).collect()
}

/// Items of no size, as many as can be counted.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum UOp {
    Adv(u64),
    Anchor,
    Rewind(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Giant {
    len: u64,
    ops: Vec<UOp>,
}
fn giant() -> BoxedStrategy<Giant> {
    let n = || {
        prop_oneof![
            2 => 0u64..4,
            2 => (0u32..64, 0u64..3).prop_map(|(b, d)| (1u64 << b).saturating_add(d).saturating_sub(1)),
            1 => any::<u64>(),
            1 => Just(u64::MAX),
        ]
    };
    let op = prop_oneof![4 => n().prop_map(UOp::Adv), 2 => Just(UOp::Anchor), 2 => any::<u8>().prop_map(UOp::Rewind)];
    (n(), proptest::collection::vec(op, 1..12)).prop_map(|(len, ops)| Giant { len, ops }).boxed()
}
/// `left` tells how many items are left, `check` compares the rest with the number of items consumed
fn giant_history<'a, S>(
    mut s: S,
    g: &Giant,
    left: impl Fn(&mut S) -> usize,
    check: impl Fn(&S, usize) -> Result<(), String>,
    used: &mut Used,
) -> Result<(), String>
where
    S: RewindSequence<Length = usize>,
{
    let n = g.len as usize;
    let mut pos = 0;
    let mut anchors: Vec<(S::Anchor, usize)> = vec![];
    for op in &g.ops {
        match op {
            UOp::Adv(k) => {
                let k = (*k as usize).min(n - pos);
                s = now(s.advance(k));
                used.moved |= k > 0;
                pos += k;
            }
            UOp::Anchor => anchors.push((s.anchor(), pos)),
            UOp::Rewind(k) => {
                let legal: Vec<usize> = (0..anchors.len()).filter(|i| anchors[*i].1 <= pos).collect();
                if legal.is_empty() {
                    continue;
                }
                let (a, p) = anchors.remove(legal[*k as usize % legal.len()]);
                used.rewound |= p < pos;
                s = now(s.rewind(a));
                pos = p;
            }
        }
        ensure_eq!(left(&mut s), n - pos, "{op:?}: items left of {n} of no size, at {pos}");
        check(&s, pos)?;
    }
    Ok(())
}
async fn left<S: Sequence<Segment = [()], Length = usize>>(s: &mut S) -> usize {
    let mut st = s.segments();
    let mut n = 0;
    while let Some(p) = st.next(0).await {
        n += p.len();
    }
    n
}

// ------------------------------------------------------------------------------------------- C09

trait Elem: 'static + PartialEq + Clone + Debug {}
impl<T: 'static + PartialEq + Clone + Debug> Elem for T {}

impl<'a> Probe<char> for &'a str {
    fn read(&mut self, n: usize) -> Vec<char> {
        now(read_pieces(self, n, |s: &str| s.chars().collect()))
    }
    fn peek_all(&mut self, skip: BytesDelta) -> Option<(Vec<char>, Vec<char>)> {
        let mut p = self.peek();
        let all = now(read_pieces(&mut p, usize::MAX, |s: &str| s.chars().collect()));
        let mut p = now(p.advance(skip));
        let after = now(read_pieces(&mut p, usize::MAX, |s: &str| s.chars().collect()));
        Some((all, after))
    }
    fn check(&self, _: &[char]) -> Result<(), String> {
        Ok(())
    }
}
impl<'a, T: Elem> Probe<T> for &'a [T] {
    fn read(&mut self, n: usize) -> Vec<T> {
        now(read_pieces(self, n, |s: &[T]| s.to_vec()))
    }
    fn peek_all(&mut self, skip: usize) -> Option<(Vec<T>, Vec<T>)> {
        let mut p = self.peek();
        let all = now(read_pieces(&mut p, usize::MAX, |s: &[T]| s.to_vec()));
        let mut p = now(p.advance(skip));
        let after = now(read_pieces(&mut p, usize::MAX, |s: &[T]| s.to_vec()));
        Some((all, after))
    }
    fn check(&self, _: &[T]) -> Result<(), String> {
        Ok(())
    }
}

fn bytes(c: &[char]) -> usize {
    c.iter().map(|c| c.len_utf8()).sum()
}
fn over_text<R>(chars: &[char], scale: usize, f: impl FnOnce(&Content<char, BytesDelta>) -> R) -> R {
    let len = |a: usize, b: usize| BytesDelta::from_bytes(bytes(&chars[a..b]));
    let past = |a: usize, k: usize| {
        let r = bytes(&chars[a..]);
        BytesDelta::from_bytes(pbt::seq::far(r, k))
    };
    f(&Content { items: chars, len: &len, past: Some(&past), scale })
}
fn over_items<T, R>(items: &[T], scale: usize, f: impl FnOnce(&Content<T, usize>) -> R) -> R {
    let len = |a: usize, b: usize| b - a;
    f(&Content { items, len: &len, past: None, scale })
}

#[derive(Clone, Debug, PartialEq)]
#[repr(align(64))]
struct Wide(u8, [u32; 3]);

#[derive(Clone, Debug, Serialize, Deserialize)]
enum What {
    Text,
    Chars,
    Bytes,
    Units,
    Wide,
    Strings,
    /// this many units, instead of the content
    Giant(Giant),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Then {
    Nothing,
    /// an anchor of another input: a copy, or another part of the same memory (element ranges, modulo)
    Foreign { copy: bool, at: [u8; 4], adv: [u8; 2] },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case9 {
    what: What,
    content: Vec<char>,
    /// the content is repeated that many times, and the lengths in the history are that much longer
    scale: u16,
    ops: Vec<Op>,
    then: Then,
}
struct C09;

/// `a` gives the anchor, `s` is asked to rewind to it.
fn must_reject<S: RewindSequence>(s: S, a: S::Anchor, what: String) -> Result<(), String> {
    match catch(|| now(s.rewind(a))) {
        Err(_) => Ok(()),
        Ok(_) => Err(format!("the anchor of another input was accepted: {what}")),
    }
}
/// two ranges of elements, not empty
fn ranges(n: usize, at: [u8; 4]) -> Option<(usize, usize, usize, usize)> {
    if n == 0 {
        return None;
    }
    let p = |x: u8| x as usize % (n + 1);
    let (mut a, mut b, mut c, mut d) = (p(at[0]), p(at[1]), p(at[2]), p(at[3]));
    if a > b {
        std::mem::swap(&mut a, &mut b);
    }
    if c > d {
        std::mem::swap(&mut c, &mut d);
    }
    (a < b && c < d).then_some((a, b, c, d))
}
fn foreign_items<T: Elem>(items: &[T], copy: bool, at: [u8; 4], adv: [u8; 2]) -> Result<bool, String> {
    if std::mem::size_of::<T>() == 0 {
        return Ok(false);
    }
    let other = items.to_vec();
    let (x, y, d) = if copy {
        if items.is_empty() {
            return Ok(false);
        }
        (items, other.as_slice(), "a copy".to_string())
    } else {
        let Some((a, b, c, d)) = ranges(items.len(), at) else { return Ok(false) };
        // with the same end it is the same input, from different positions: only those ahead are refused
        if b == d && a + adv[0] as usize % (b - a + 1) >= c + adv[1] as usize % (d - c) {
            return Ok(false);
        }
        (&items[a..b], &items[c..d], format!("{a}..{b} rewound to an anchor of {c}..{d}"))
    };
    let s = now(x.advance(adv[0] as usize % (x.len() + 1)));
    let t = now(y.advance(adv[1] as usize % y.len()));
    must_reject(s, RewindSequence::anchor(&t), d)?;
    Ok(true)
}
fn foreign_text(chars: &[char], copy: bool, at: [u8; 4], adv: [u8; 2]) -> Result<bool, String> {
    let text: String = chars.iter().collect();
    let other = text.clone();
    let off = |i: usize| bytes(&chars[..i]);
    let (x, y, cx, cy, d) = if copy {
        if text.is_empty() {
            return Ok(false);
        }
        (text.as_str(), other.as_str(), chars, chars, "a copy".to_string())
    } else {
        let Some((a, b, c, d)) = ranges(chars.len(), at) else { return Ok(false) };
        if b == d && a + adv[0] as usize % (b - a + 1) >= c + adv[1] as usize % (d - c) {
            return Ok(false);
        }
        (
            &text[off(a)..off(b)],
            &text[off(c)..off(d)],
            &chars[a..b],
            &chars[c..d],
            format!("{a}..{b} rewound to an anchor of {c}..{d}"),
        )
    };
    let s = now(x.advance(BytesDelta::from_bytes(bytes(&cx[..adv[0] as usize % (cx.len() + 1)]))));
    let t = now(y.advance(BytesDelta::from_bytes(bytes(&cy[..adv[1] as usize % cy.len()]))));
    must_reject(s, RewindSequence::anchor(&t), d)?;
    Ok(true)
}
fn items9<T: Elem>(items: Vec<T>, c: &Case9, used: &mut Used) -> Result<bool, String> {
    over_items(&items, c.scale as usize, |k| history(items.as_slice(), k, &c.ops, used))?;
    match c.then {
        Then::Nothing => Ok(false),
        Then::Foreign { copy, at, adv } => foreign_items(&items, copy, at, adv),
    }
}

impl Check for C09 {
    type Case = Case9;
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "text of all character widths or a slice of items (chars, bytes, zero-sized, over-aligned, heap-owning) of up to 80000 elements (of no size: up to 2^64 - 1), a history of advances, split advances, partial reads, peeks, anchors and rewinds, checked against a position after every step; then possibly an anchor of another input (a copy, another range of the same memory, or a position ahead). Non-trivial: moved and rewound, or a foreign anchor was tried"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(2_000_000, 20_000_000)
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Case9> {
        let what = prop_oneof![
            5 => Just(What::Text),
            2 => Just(What::Chars),
            1 => Just(What::Bytes),
            1 => Just(What::Units),
            1 => Just(What::Wide),
            1 => Just(What::Strings),
            1 => giant().prop_map(What::Giant),
        ];
        let then = prop_oneof![
            2 => Just(Then::Nothing),
            1 => (any::<bool>(), any::<[u8; 4]>(), any::<[u8; 2]>()).prop_map(|(copy, at, adv)| Then::Foreign { copy, at, adv }),
        ];
        (what, sgen::text(0..16), scale(), ops(), then)
            .prop_map(|(what, content, scale, ops, then)| Case9 { what, content, scale, ops, then })
            .boxed()
    }
    fn run(&self, c: &Case9, ob: &mut Obs) -> Result<(), String> {
        let mut used = Used::default();
        let v = &repeated(&c.content, c.scale);
        let scale = c.scale as usize;
        ob.label_if(v.len() > 1000, "long content");
        let foreign = match &c.what {
            What::Text => {
                let s: String = v.iter().collect();
                over_text(v, scale, |k| history(s.as_str(), k, &c.ops, &mut used))?;
                match c.then {
                    Then::Nothing => false,
                    Then::Foreign { copy, at, adv } => foreign_text(v, copy, at, adv)?,
                }
            }
            What::Giant(g) => {
                let items = vec![(); g.len as usize];
                giant_history(items.as_slice(), g, |s| now(left(s)), |_, _| Ok(()), &mut used)?;
                let peek = |mut s: &[()], pos: usize| -> Result<(), String> {
                    let mut p = s.peek();
                    ensure_eq!(now(left(&mut p)), items.len() - pos, "peeked items of no size at {pos}");
                    Ok(())
                };
                giant_history(items.as_slice(), g, |s| now(left(s)), |s, pos| peek(*s, pos), &mut used)?;
                ob.label_if(g.len > 1 << 32, "more than 2^32 items");
                false
            }
            What::Chars => items9(v.clone(), c, &mut used)?,
            What::Bytes => items9(v.iter().map(|c| *c as u8).collect(), c, &mut used)?,
            What::Units => items9(vec![(); v.len()], c, &mut used)?,
            What::Wide => items9(v.iter().map(|c| Wide(*c as u8, [*c as u32; 3])).collect(), c, &mut used)?,
            What::Strings => items9(v.iter().map(|c| c.to_string()).collect(), c, &mut used)?,
        };
        ob.nontrivial = (used.moved && used.rewound) || foreign;
        ob.label_if(used.rewound, "rewound over content");
        ob.label_if(used.past, "advanced past the end");
        ob.label_if(foreign, "foreign anchor");
        ob.label_if(matches!(c.what, What::Units | What::Giant(_)), "zero-sized items");
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------- C10

/// A metric that identifies the content: its elements, and where it began.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Seen(u32, Vec<char>);
#[derive(Clone, Debug)]
struct SeenMeter(Seen);
impl Meter<str> for SeenMeter {
    type Metrics = Seen;
    fn advance(mut self, s: &str) -> Self {
        self.0 .1.extend(s.chars());
        self
    }
    fn metrics(&self) -> Seen {
        self.0.clone()
    }
}
impl Metrics<str> for Seen {
    type Meter = SeenMeter;
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct SeenI(Seen);
#[derive(Clone, Debug)]
struct SeenIMeter(Seen);
impl Meter<[char]> for SeenIMeter {
    type Metrics = SeenI;
    fn advance(mut self, s: &[char]) -> Self {
        self.0 .1.extend(s);
        self
    }
    fn metrics(&self) -> SeenI {
        SeenI(self.0.clone())
    }
}
impl Metrics<[char]> for SeenI {
    type Meter = SeenIMeter;
}

/// a measured sequence with what its metrics should be
struct Meas<S, F>(S, F);
impl<S: Sequence, F> Sequence for Meas<S, F>
where
    F: Unpin,
{
    type Length = S::Length;
    type Segment = S::Segment;
    type Segments<'a>
        = S::Segments<'a>
    where
        Self: 'a;
    type Advance = std::future::Ready<Self>;
    fn segments(&mut self) -> S::Segments<'_> {
        self.0.segments()
    }
    fn advance(self, d: S::Length) -> Self::Advance {
        std::future::ready(Meas(now(self.0.advance(d)), self.1))
    }
}
impl<S: RewindSequence, F: Unpin> RewindSequence for Meas<S, F> {
    type Anchor = S::Anchor;
    type Rewind = std::future::Ready<Self>;
    fn anchor(&self) -> S::Anchor {
        self.0.anchor()
    }
    fn rewind(self, a: S::Anchor) -> Self::Rewind {
        std::future::ready(Meas(now(self.0.rewind(a)), self.1))
    }
}
impl<S, F> Probe<char> for Meas<S, F>
where
    S: MeasuredSequence + MeasKind,
    S::Length: Default,
    S::Metrics: Debug,
    F: Fn(&[char]) -> S::Metrics + Unpin,
{
    fn read(&mut self, n: usize) -> Vec<char> {
        now(read_pieces(&mut self.0, n, |s| S::chars(s)))
    }
    fn peek_all(&mut self, _: S::Length) -> Option<(Vec<char>, Vec<char>)> {
        None
    }
    fn check(&self, consumed: &[char]) -> Result<(), String> {
        ensure_eq!(self.0.metrics(), (self.1)(consumed), "metrics after {} elements", consumed.len());
        Ok(())
    }
}
trait MeasKind: Sequence {
    fn chars(s: &Self::Segment) -> Vec<char>;
}
impl<'a, M: Metrics<str>> MeasKind for parcom_core::primitive::str::Measured<'a, M> {
    fn chars(s: &str) -> Vec<char> {
        s.chars().collect()
    }
}
impl<'a, M: Metrics<[char]>> MeasKind for parcom_core::primitive::slice::Measured<'a, char, M> {
    fn chars(s: &[char]) -> Vec<char> {
        s.to_vec()
    }
}
impl<'a, EOL: EndOfLine> Probe<char> for LineSeq<'a, EOL> {
    fn read(&mut self, n: usize) -> Vec<char> {
        now(read_pieces(self, n, |s: &str| s.chars().collect()))
    }
    fn peek_all(&mut self, _: BytesDelta) -> Option<(Vec<char>, Vec<char>)> {
        None
    }
    fn check(&self, _: &[char]) -> Result<(), String> {
        Ok(())
    }
}
type LineSeq<'a, EOL> = parcom_core::primitive::str::Measured<'a, LineColumn<EOL>>;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum How {
    History { ops: Vec<Op> },
    /// a metric that cannot be rewound: line and column
    Lines { eol: u8, ops: Vec<Op> },
    Grammar { g: Grammar, tape: Vec<u16> },
    /// counting items of no size
    Giant(Giant),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case10 {
    content: Vec<char>,
    scale: u16,
    items: bool,
    count: bool,
    /// what the meter has already seen
    start: u8,
    how: How,
}
struct C10;

fn line_history<EOL: EndOfLine + Debug + 'static>(chars: &[char], start: usize, ops: &[Op], scale: usize, used: &mut Used) -> Result<(), String> {
    let start = start.min(chars.len());
    let pre: String = chars[..start].iter().collect();
    let text: String = chars[start..].iter().collect();
    let body = &chars[start..];
    let mut s: LineSeq<EOL> = text.as_str().into_measured_with(LineColumnMeter::<EOL>::default().advance(&pre));
    let mut pos = 0;
    for op in ops {
        let to = match op {
            Op::Adv(k) | Op::Two(k, _) => (pos + *k as usize * scale).min(body.len()),
            Op::Read(k) => {
                let got = s.read(*k as usize);
                ensure!(body[pos..].starts_with(&got), "read {got:?} at {pos}");
                continue;
            }
            Op::Past(k) => {
                let d = pbt::seq::far(bytes(&body[pos..]), *k as usize);
                s = now(s.advance(BytesDelta::from_bytes(d)));
                used.moved |= body.len() > pos;
                used.past |= *k > 0;
                pos = body.len();
                pos
            }
            _ => continue,
        };
        if to != pos {
            s = now(s.advance(BytesDelta::from_bytes(bytes(&body[pos..to]))));
            used.moved = true;
            pos = to;
        }
        let want: String = chars[..start + pos].iter().collect();
        // metering the same content in one piece; that this is right is C11
        let want = LineColumnMeter::<EOL>::default().advance(&want).metrics();
        ensure_eq!(s.metrics(), want, "{op:?}: line/column metrics after {} characters", start + pos);
        ensure_eq!(s.read(usize::MAX), body[pos..].to_vec(), "{op:?}: content");
    }
    Ok(())
}

fn grammar_run<'g, K: Prims, S, M: PartialEq + Debug>(
    g: &'g Grammar,
    input: &[char],
    s: S,
    plain: impl FnOnce() -> Result<Option<Result<Vec<char>, ()>>, String>,
    metrics: impl Fn(&S) -> M,
    want: impl Fn(&[char]) -> M,
) -> Result<bool, String>
where
    S: Subject<K> + 'g,
{
    let rb = RunBox::new(Run::new(g, true, 20_000));
    let run = rb.get();
    let start = s.anchor();
    ensure_eq!(metrics(&s), want(&[]), "metrics before parsing");
    let r = catch(|| exec::run(run_rule::<K, S>(run, s), 10_000_000)).and_then(|r| r);
    let Some(plain) = plain()? else { return Ok(false) };
    if run.discard.get() {
        return Ok(false);
    }
    match (r?, plain) {
        (Ok((v, rest, s)), Ok(plain)) => {
            ensure_eq!(rest, plain, "unconsumed input, against the unmeasured run");
            let n = input.len() - rest.len();
            ensure_eq!(metrics(&s), want(&input[..n]), "metrics after parsing {:?} as {v:?}", &input[..n]);
            let s = now(s.rewind(start));
            ensure_eq!(metrics(&s), want(&[]), "metrics after rewinding to the start");
            Ok(n > 0)
        }
        (Err((_, rest)), Err(())) => {
            ensure_eq!(rest, input.to_vec(), "input after a failure and rewinding");
            Ok(false)
        }
        (a, b) => Err(format!("measured run: {:?}, unmeasured: {b:?}", a.map(|x| (x.0, x.1)))),
    }
}
fn plain<'g, K: Prims, S: Subject<K> + 'g>(g: &'g Grammar, s: S) -> Result<Option<Result<Vec<char>, ()>>, String> {
    let rb = RunBox::new(Run::new(g, true, 20_000));
    let run = rb.get();
    let r = catch(|| exec::run(run_rule::<K, S>(run, s), 10_000_000)).and_then(|r| r);
    if run.discard.get() || r.is_err() {
        return Ok(None);
    }
    Ok(Some(r?.map(|x| x.1).map_err(|_| ())))
}

impl Check for C10 {
    type Case = Case10;
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "measured text or items: histories of advances (also past the end), rewinds and reads, and generated grammars run on it; with a metric that records all content it was given, the item count (items of no size: up to 2^64 - 1), and line/column for LF, CR and CRLF, on meters that already saw a prefix. After every step the metrics are those of the consumed content. Non-trivial: content was consumed"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(800_000, 10_000_000)
    }
    fn stack_size(&self) -> usize {
        128 << 20
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Case10> {
        let b = gen::Bias { fail: 2, fatal: 1, reclass: true, iter: 1, modes: true, depth: t.pick(4, 5), size: 16 };
        let how = prop_oneof![
            24 => ops().prop_map(|ops| How::History { ops }),
            16 => (0u8..3, ops()).prop_map(|(eol, ops)| How::Lines { eol, ops }),
            24 => (gen::grammar(b), gen::tape()).prop_map(|(g, tape)| How::Grammar { g, tape }),
            1 => giant().prop_map(How::Giant),
        ];
        let text = proptest::collection::vec(prop_oneof![3 => sgen::ch(), 1 => prop_oneof![Just('\n'), Just('\r')]], 0..20);
        (text, scale(), any::<bool>(), any::<bool>(), 0u8..6, how)
            .prop_map(|(content, scale, items, count, start, how)| Case10 { content, scale, items, count, start, how })
            .boxed()
    }
    fn run(&self, c: &Case10, ob: &mut Obs) -> Result<(), String> {
        let mut used = Used::default();
        let v = &repeated(&c.content, c.scale);
        let scale = c.scale as usize;
        ob.label_if(v.len() > 1000, "long content");
        let start = Seen(c.start as u32, vec!['@'; c.start as usize]);
        let seen = |m: &[char]| {
            let mut s = start.clone();
            s.1.extend(m);
            s
        };
        match &c.how {
            How::History { ops } => {
                ob.label("history");
                if !c.items {
                    let text: String = v.iter().collect();
                    let s = text.as_str().into_measured_with::<Seen>(SeenMeter(start.clone()));
                    over_text(v, scale, |k| history(Meas(s, seen), k, ops, &mut used))?;
                } else if c.count {
                    let s = v.as_slice().into_measured_with::<usize>(c.start as usize);
                    over_items(v, scale, |k| history(Meas(s, |m: &[char]| c.start as usize + m.len()), k, ops, &mut used))?;
                    let s = v.as_slice().into_measured::<usize>();
                    over_items(v, scale, |k| history(Meas(s, |m: &[char]| m.len()), k, ops, &mut used))?;
                } else {
                    let s = v.as_slice().into_measured_with::<SeenI>(SeenIMeter(start.clone()));
                    over_items(v, scale, |k| history(Meas(s, |m: &[char]| SeenI(seen(m))), k, ops, &mut used))?;
                }
            }
            How::Giant(g) => {
                ob.label("items of no size");
                ob.label_if(g.len > 1 << 32, "more than 2^32 items");
                let items = vec![(); g.len as usize];
                // the count must be one that can be had
                let start = (c.start as usize).min(usize::MAX - items.len());
                let s = items.as_slice().into_measured_with::<usize>(start);
                let check = |m: usize, pos: usize| -> Result<(), String> {
                    ensure_eq!(m, start + pos, "items counted, {start} of them before");
                    Ok(())
                };
                giant_history(s, g, |s| now(left(s)), |s, pos| check(s.metrics(), pos), &mut used)?;
            }
            How::Lines { eol, ops } => {
                ob.label("line/column history");
                let st = c.start as usize;
                match eol % 3 {
                    0 => line_history::<LF>(v, st, ops, scale, &mut used)?,
                    1 => line_history::<CR>(v, st, ops, scale, &mut used)?,
                    _ => line_history::<CRLF>(v, st, ops, scale, &mut used)?,
                }
            }
            How::Grammar { g, tape } => {
                ob.label("grammar run");
                let input = input_for(g, tape);
                used.moved = if !c.items {
                    let text: String = input.iter().collect();
                    let s = text.as_str().into_measured_with::<Seen>(SeenMeter(start.clone()));
                    grammar_run::<StrK, _, _>(g, &input, s, || plain::<StrK, _>(g, text.as_str()), |s| s.metrics(), seen)?
                } else if c.count {
                    let s = input.as_slice().into_measured_with::<usize>(c.start as usize);
                    grammar_run::<ItemK, _, _>(g, &input, s, || plain::<ItemK, _>(g, input.as_slice()), |s| s.metrics(), |m| {
                        c.start as usize + m.len()
                    })?
                } else {
                    let s = input.as_slice().into_measured_with::<SeenI>(SeenIMeter(start.clone()));
                    grammar_run::<ItemK, _, _>(g, &input, s, || plain::<ItemK, _>(g, input.as_slice()), |s| s.metrics(), |m| {
                        SeenI(seen(m))
                    })?
                };
            }
        }
        ob.nontrivial = used.moved;
        ob.label_if(used.rewound, "rewound over content");
        ob.label_if(used.past, "advanced past the end");
        ob.label_if(used.moved, "consumed content");
        let _ = StrK::NAME;
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------- C11

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case11 {
    /// so many times the character, then the text
    pad: (u32, char),
    text: Vec<char>,
    eol: u8,
    cuts: Vec<u8>,
    measured: bool,
    /// a convention of the user's instead: next state and answer, by state and kind of character
    own: Option<Vec<(u8, u8)>>,
}
struct C11;

thread_local! { static OWN: RefCell<Vec<(u8, u8)>> = const { RefCell::new(vec![]) } }
/// a line ending defined by the user: an automaton of three states
#[derive(Debug, Default)]
struct Own(u8);
impl EndOfLine for Own {
    fn next(&mut self, c: char) -> EndOfLineMatch {
        let kind = ['\n', '\r', 'a'].iter().position(|x| *x == c).unwrap_or(3);
        let (to, answer) = OWN.with_borrow(|t| t[self.0 as usize * 4 + kind]);
        self.0 = to;
        match answer {
            0 => EndOfLineMatch::Match,
            1 => EndOfLineMatch::PartialMatch,
            _ => EndOfLineMatch::NotMatch,
        }
    }
}
/// (line, column) after the whole of `text`, by asking about every character
fn own_place(text: &[char]) -> (usize, usize) {
    let (mut line, mut column, mut fresh, mut own) = (0, 0, true, Own::default());
    for c in text {
        if fresh {
            line += 1;
            column = 0;
        }
        column += 1;
        fresh = own.next(*c) == EndOfLineMatch::Match;
    }
    (line, column)
}

/// (line, column) after the whole of `text`, by splitting it into lines
fn place(text: &[char], eol: &[char]) -> (usize, usize) {
    let mut starts = vec![0];
    let mut i = 0;
    while i < text.len() {
        if text[i..].starts_with(eol) {
            i += eol.len();
            starts.push(i);
        } else {
            i += 1;
        }
    }
    match text.len() {
        0 => (0, 0),
        n => {
            let last = n - 1;
            let line = starts.iter().filter(|s| **s <= last).count();
            (line, n - starts[line - 1])
        }
    }
}

struct Tail<'a>(&'a [char]);
impl Debug for Tail<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self.0.len() {
            0..100 => write!(f, "{:?}", self.0),
            n => write!(f, "{} characters ending in {:?}", n, &self.0[n - 20..]),
        }
    }
}
fn lines<EOL: EndOfLine + Debug + 'static>(c: &Case11, place: impl Fn(&[char]) -> (usize, usize), mut cuts: Vec<usize>) -> Result<(), String> {
    cuts.push(c.text.len());
    cuts.sort();
    let mut at = 0;
    let mut all: Vec<(usize, LineColumn<EOL>)> = vec![];
    let text: String = c.text.iter().collect();
    let mut check = |at: usize, m: LineColumn<EOL>| -> Result<(), String> {
        let (line, column) = place(&c.text[..at]);
        let got = (m.total_count, m.line, m.column);
        ensure_eq!(got, (at, line, column), "(count, line, column) after {:?}, cut at {cuts:?}", Tail(&c.text[..at]));
        for (p, l) in &all {
            ensure_eq!(l.cmp(&m), p.cmp(&at), "order of the positions {p} and {at}");
            ensure_eq!(m.cmp(l), at.cmp(p), "order of the positions {at} and {p}");
            ensure_eq!(l.partial_cmp(&m), Some(p.cmp(&at)), "partial order of the positions {p} and {at}");
            ensure_eq!(*l == m, *p == at, "equality of the positions {p} and {at}");
        }
        all.push((at, m));
        Ok(())
    };
    if c.measured {
        let mut s: LineSeq<EOL> = text.as_str().into_measured();
        check(0, s.metrics())?;
        for to in &cuts {
            s = now(s.advance(BytesDelta::from_bytes(bytes(&c.text[at..*to]))));
            at = *to;
            check(at, s.metrics())?;
        }
    } else {
        let mut m = LineColumnMeter::<EOL>::default();
        check(0, m.metrics())?;
        for to in &cuts {
            let piece: String = c.text[at..*to].iter().collect();
            m = m.advance(&piece);
            at = *to;
            check(at, m.metrics())?;
        }
    }
    Ok(())
}

impl Check for C11 {
    type Case = Case11;
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "text dense in CR, LF and other line separators and multi-byte characters, some after up to 70000 characters, fed in pieces cut anywhere (also inside CR LF, and empty ones), through a meter or a measured sequence; line and column against splitting the text into lines, positions pairwise ordered; one case in seven with a user-defined line ending, a generated automaton of three states, against asking it about each character. Non-trivial: at least two lines"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(5_000_000, 50_000_000)
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Case11> {
        let c = prop_oneof![
            4 => Just('\r'),
            4 => Just('\n'),
            4 => Just('a'),
            2 => sgen::ch(),
            1 => prop_oneof![Just('\u{85}'), Just('\u{2028}'), Just('\u{b}'), Just('\u{c}'), Just('\u{0}'), Just('\t')],
        ];
        let cuts = prop_oneof![
            1 => Just(vec![]),
            2 => proptest::collection::vec(any::<u8>(), 0..8),
            1 => Just((0..40u8).collect::<Vec<_>>()),
        ];
        let pad = prop_oneof![
            4000 => Just((0, 'a')),
            2 => (1u32..300, prop_oneof![Just('a'), Just('\n'), Just('\r'), Just('é')]),
            1 => (pbt::fw::sizes(300..90_000), prop_oneof![Just('a'), Just('\n'), Just('\r')]),
        ];
        let own = proptest::collection::vec((0u8..3, 0u8..4), 12);
        let own = prop_oneof![6 => Just(None), 1 => own.prop_map(Some)];
        (pad, proptest::collection::vec(c, 0..t.pick(24, 60)), 0u8..3, cuts, any::<bool>(), own)
            .prop_map(|(pad, text, eol, cuts, measured, own)| Case11 { pad, text, eol, cuts, measured, own })
            .boxed()
    }
    fn run(&self, c: &Case11, ob: &mut Obs) -> Result<(), String> {
        let n = c.text.len();
        let mut c = c.clone();
        // the cuts are in what follows the pad
        let pad = c.pad.0 as usize;
        let cuts: Vec<usize> = c.cuts.iter().map(|k| pad + *k as usize % (n + 1)).collect();
        if pad > 0 {
            c.text.splice(0..0, (0..pad).map(|_| c.pad.1));
            ob.label_if(c.text.len() > 300, "long text");
        }
        let c = &c;
        if let Some(own) = &c.own {
            OWN.set(own.clone());
            ob.label("a convention of the user's");
            ob.nontrivial = own_place(&c.text).0 >= 2;
            return lines::<Own>(c, own_place, cuts);
        }
        let eol: &[char] = match c.eol % 3 {
            0 => &['\n'],
            1 => &['\r'],
            _ => &['\r', '\n'],
        };
        ob.nontrivial = place(&c.text, eol).0 >= 2;
        ob.label(["LF", "CR", "CRLF"][c.eol as usize % 3]);
        ob.label_if(c.text.windows(3).any(|w| w == ['\r', '\r', '\n']), "contains CR CR LF");
        let by = |t: &[char]| place(t, eol);
        match c.eol % 3 {
            0 => lines::<LF>(c, by, cuts),
            1 => lines::<CR>(c, by, cuts),
            _ => lines::<CRLF>(c, by, cuts),
        }
    }
}

fn main() {
    pbt::fw::main(&[&C09, &C10, &C11]);
}
