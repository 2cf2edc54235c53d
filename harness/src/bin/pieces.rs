//! C25: segments split exactly, distances and counts add up. C26: what the library wraps comes out unchanged.
use parcom_core::measured::{IntoMeasured, Measureable, Meter};
use parcom_core::{
    Never, ParseError, ParseResult, Parser, ParserOnce, RewindSequence, Sequence, SequenceSegment, UnknownLocation,
};
use parcom_core::primitive::BytesDelta;
use parcom_internals::future::option_future::OptionFuture;
use parcom_metrics::end_of_line::{EndOfLine, CR, CRLF, LF};
use parcom_metrics::{LineColumn, LineColumnMeter};
use parcom_sequence_core::LoadInfo;
use parcom_sequences::BufferStrategy;
use parcom_util::error::{Fatal, Miss};
use parcom_util::{done, fail, Either, EitherBoth};
use pbt::fw::exec::Count;
use pbt::fw::tracked::{self, Tracked};
use pbt::fw::{catch, exec, Check, Obs, Tier};
use pbt::seq::gen;
use pbt::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::fmt::Debug;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

// ---------------------------------------------------------------- C25

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Case25 {
    Text { chars: Vec<char>, repeat: u16, cuts: Vec<u32> },
    Items { n: u32, of: u8, cuts: Vec<u32> },
    /// items of no size, as many as there can be
    Empty { n: u64, cuts: Vec<u64> },
    Distance { a: u64, b: u64, text: Vec<char> },
    Positions { start: [u16; 3], a: Vec<char>, b: Vec<char>, eol: u8, cuts: Vec<u32> },
}

/// a segment type of a user's: it relies on the provided `split_at_checked`, and counts in its own unit
#[derive(Debug, PartialEq)]
#[repr(transparent)]
struct Own([u16]);
impl Own {
    fn of(s: &[u16]) -> &Self {
        unsafe { &*(s as *const [u16] as *const Own) }
    }
}
#[derive(Debug, Default, Clone, Copy, PartialEq, Eq)]
struct Off(usize);
// ordered by size, as lengths are, though not by the derived means
impl Ord for Off {
    fn cmp(&self, o: &Self) -> Ordering {
        o.0.cmp(&self.0).reverse()
    }
}
impl PartialOrd for Off {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl SequenceSegment for Own {
    type Length = Off;
    fn len(&self) -> Off {
        Off(self.0.len())
    }
    fn split_at(&self, mid: Off) -> (&Self, &Self) {
        let (a, b) = self.0.split_at(mid.0);
        (Own::of(a), Own::of(b))
    }
}

struct Split<'a, S: ?Sized, L> {
    mk: &'a dyn Fn(usize) -> L,
    num: &'a dyn Fn(&L) -> usize,
    /// where the segment can be split, as far as the content goes
    fits: &'a dyn Fn(&S, usize) -> bool,
    /// the part of the segment between two positions
    part: &'a dyn Fn(&S, usize, usize) -> &'a S,
}

fn splits<'a, S: ?Sized + SequenceSegment + PartialEq + Debug>(whole: &'a S, cuts: &[u32], w: &Split<'a, S, S::Length>) -> Result<u32, String> {
    ensure_eq!((w.num)(&S::Length::default()), 0, "the default length");
    let n = (w.num)(&whole.len());
    let mut pieces: Vec<&S> = vec![];
    let mut rest: &S = whole;
    let mut at = 0usize;
    let mut inner = 0;
    for c in cuts {
        let len = (w.num)(&rest.len());
        ensure_eq!(len, n - at, "length of what is left");
        let mid = if *c >= 1 << 24 { pbt::seq::far(len, 255 - (*c as usize - (1 << 24)) % 20) } else { *c as usize % (len + 3) };
        let ok = mid <= len && (w.fits)(rest, mid);
        let checked = rest.split_at_checked((w.mk)(mid));
        ensure!(checked.is_some() == ok, "split_at_checked({mid}) of {len}: {checked:?}");
        let plain = catch(|| rest.split_at((w.mk)(mid)));
        let Some((a, b)) = checked else {
            ensure!(plain.is_err(), "split_at({mid}) of a segment that cannot be split there ({len}): {plain:?}");
            continue;
        };
        let (pa, pb) = plain.map_err(|e| format!("split_at({mid}) of {len}: {e}"))?;
        let (wa, wb) = ((w.part)(whole, at, at + mid), (w.part)(whole, at + mid, n));
        ensure!(a == wa && b == wb, "split_at_checked({mid}): {a:?} and {b:?}, expected {wa:?} and {wb:?}");
        ensure!(pa == wa && pb == wb, "split_at({mid}): {pa:?} and {pb:?}, expected {wa:?} and {wb:?}");
        ensure_eq!((w.num)(&a.len()), mid, "length of the first part");
        ensure_eq!((w.num)(&b.len()), len - mid, "length of the second part");
        ensure!(a.len() == (w.mk)(mid), "the first part's length differs from the position");
        inner += (mid > 0 && mid < len) as u32;
        // go on with the second part, or with the first
        if c % 7 == 0 {
            let (x, y) = b.split_at(S::Length::default());
            ensure!(x == (w.part)(whole, n, n) && y == b, "split at nothing");
        }
        pieces.push(a);
        rest = b;
        at += mid;
    }
    pieces.push(rest);
    let total: usize = pieces.iter().map(|p| (w.num)(&p.len())).sum();
    ensure_eq!(total, n, "lengths of the parts together");
    Ok(inner)
}

fn items<T: Clone + PartialEq + Debug>(v: &[T], cuts: &[u32]) -> Result<u32, String> {
    let k = splits::<[T]>(
        v,
        cuts,
        &Split { mk: &|n| n, num: &|n| *n, fits: &|_, _| true, part: &|_, a, b| &v[a..b] },
    )?;
    // counting items
    let m: usize = v.measure();
    ensure_eq!(m, v.len(), "items counted");
    let mut meter = 7usize;
    let mut at = 0;
    for c in cuts {
        let to = (at + *c as usize % (v.len() + 1)).min(v.len());
        meter = Meter::<[T]>::advance(meter, &v[at..to]);
        at = to;
        ensure_eq!(Meter::<[T]>::metrics(&meter), 7 + at, "items counted piece by piece");
    }
    Ok(k)
}

fn position<EOL: EndOfLine + Debug>(start: [u16; 3], text: &[char], cuts: &[u32]) -> LineColumn<EOL> {
    let mut at = LineColumn::<EOL>::default();
    at.total_count = start[0] as usize;
    at.line = start[1] as usize;
    at.column = start[2] as usize;
    let mut m = LineColumnMeter::<EOL>::new(at);
    let mut i = 0;
    for c in cuts {
        let j = (i + *c as usize % 4).min(text.len());
        m = m.advance(&text[i..j].iter().collect::<String>());
        i = j;
    }
    m.advance(&text[i..].iter().collect::<String>()).metrics()
}
fn positions<EOL: EndOfLine + Debug>(start: [u16; 3], a: &[char], b: &[char], cuts: &[u32]) -> Result<bool, String> {
    let (x, y) = (position::<EOL>(start, a, cuts), position::<EOL>(start, b, cuts));
    let key = |p: &LineColumn<EOL>| (p.total_count, p.line, p.column);
    // of any two positions
    ensure!((x == y) == (key(&x) == key(&y)), "{x:?} == {y:?} is {}", x == y);
    ensure!((x != y) != (x == y), "{x:?} != {y:?} is {}", x != y);
    let z = x.clone();
    ensure!(z == x && key(&z) == key(&x), "{x:?} cloned: {z:?}");
    // of positions in one text: as far apart as the text between them
    let whole: Vec<char> = a.iter().chain(b).copied().collect();
    let z = position::<EOL>(start, &whole, cuts);
    for (p, q) in [(&x, &z), (&z, &x), (&x, &x)] {
        let want = p.total_count.cmp(&q.total_count);
        ensure!(p.cmp(q) == want, "{p:?} compared to {q:?}: {:?}", p.cmp(q));
        ensure!(p.partial_cmp(q) == Some(want), "{p:?} compared to {q:?}: {:?}", p.partial_cmp(q));
        ensure!((p < q) == (want == Ordering::Less) && (p >= q) == (want != Ordering::Less), "{p:?} < {q:?}: {}", p < q);
        ensure!((p == q) == (want == Ordering::Equal), "{p:?} == {q:?}: {}", p == q);
    }
    ensure!((x == z) == b.is_empty(), "{x:?} and {z:?}, {} characters on: {}", b.len(), x == z);
    Ok(key(&x).0 == key(&y).0 && key(&x) != key(&y))
}

fn empty(n: usize, cuts: &[u64]) -> Result<bool, String> {
    // items of no size take no memory, however many
    let v: &[()] = unsafe { std::slice::from_raw_parts(std::ptr::NonNull::dangling().as_ptr(), n) };
    ensure_eq!(Measureable::<usize>::measure(v), n, "items counted");
    let mut rest = v;
    let mut meter = 0usize;
    let mut at = 0usize;
    let mut inner = false;
    for c in cuts {
        let len = SequenceSegment::len(rest);
        ensure_eq!(len, n - at, "length of what is left");
        let mid = match c % 8 {
            0 => *c as usize,
            1 => len,
            2 => len.wrapping_add(1),
            3 => len - len.min((*c >> 3) as usize % 70_000),
            4 => len.min(1 << (c >> 3 & 63)),
            5 => len / 2,
            _ => *c as usize % len.max(1),
        };
        let checked = rest.split_at_checked(mid);
        let plain = catch(|| SequenceSegment::split_at(rest, mid));
        if mid > len {
            ensure!(checked.is_none(), "split_at_checked({mid}) of {len} gave something");
            ensure!(plain.is_err(), "split_at({mid}) of {len} gave something");
            continue;
        }
        let Some((a, b)) = checked else { return Err(format!("split_at_checked({mid}) of {len} gave nothing")) };
        ensure_eq!((a.len(), b.len()), (mid, len - mid), "lengths of the parts of {len}");
        let (a, b) = plain.map_err(|e| format!("split_at({mid}) of {len}: {e}"))?;
        ensure_eq!((a.len(), b.len()), (mid, len - mid), "lengths of the parts of {len}");
        meter = Meter::<[()]>::advance(meter, a);
        at += mid;
        ensure_eq!(Meter::<[()]>::metrics(&meter), at, "items counted piece by piece");
        inner |= mid > 0 && mid < len;
        rest = b;
    }
    ensure_eq!(Meter::<[()]>::advance(meter, rest), n, "items counted piece by piece");
    Ok(inner)
}

struct C25;
impl Check for C25 {
    type Case = Case25;
    fn id(&self) -> &'static str {
        "C25"
    }
    fn rule(&self) -> &'static str {
        "text, items (bytes, numbers, strings, zero-sized) and a user-defined segment split at generated positions (inside characters, at and far past the end), pieces split on; byte distances of text, characters and numbers; item counts over pieces; positions of two texts. Oracle: slicing, and numbers. Non-trivial: a split with two non-empty parts, two different distances, or different positions that agree in their total"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(6_000_000, 100_000_000)
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Case25> {
        let cut = prop_oneof![8 => 0u32..64, 2 => pbt::fw::sizes(0..70_000), 1 => (1u32 << 24)..(1 << 24) + 20];
        let cuts = prop::collection::vec(cut, 0..6);
        let far = || {
            prop_oneof![
                3 => 0u64..300,
                2 => (0u32..64, 0u64..4).prop_map(|(s, d)| (1u64 << s).wrapping_add(d).wrapping_sub(2)),
                1 => any::<u64>(),
            ]
        };
        let eols = prop_oneof![4 => prop::sample::select(vec!['\n', '\r', 'a', 'é', '😀', '\u{b}', '\u{2028}']), 1 => any::<char>()];
        let text = prop::collection::vec(eols, 0..8);
        prop_oneof![
            3 => (gen::text(0..12), prop_oneof![6000 => Just(1u16), 700 => 1u16..40, 1 => 2000u16..12_000], cuts.clone())
                .prop_map(|(chars, repeat, cuts)| Case25::Text { chars, repeat, cuts }),
            3 => (prop_oneof![10_000 => 0u32..20, 1000 => pbt::fw::sizes(0..3000), 1 => pbt::fw::sizes(65_500..140_000)], 0u8..5, cuts.clone()).prop_map(|(n, of, cuts)| Case25::Items { n, of, cuts }),
            1 => (far(), prop::collection::vec(far(), 0..6)).prop_map(|(n, cuts)| Case25::Empty { n, cuts }),
            2 => (far(), far(), gen::text(0..5)).prop_map(|(a, b, text)| Case25::Distance { a, b, text }),
            2 => (any::<[u16; 3]>(), text.clone(), text, 0u8..3, cuts)
                .prop_map(|(start, a, b, eol, cuts)| Case25::Positions { start, a, b, eol, cuts }),
        ]
        .boxed()
    }
    fn run(&self, c: &Case25, ob: &mut Obs) -> Result<(), String> {
        match c {
            Case25::Text { chars, repeat, cuts } => {
                ob.label("text");
                let s: String = chars.iter().collect::<String>().repeat(*repeat as usize);
                let s = &s[..];
                ob.label_if(s.len() > 65_536, "text beyond 65536 bytes");
                let k = splits::<str>(
                    s,
                    cuts,
                    &Split {
                        mk: &|n| BytesDelta::from_bytes(n),
                        num: &|n| n.to_bytes(),
                        fits: &|s, n| s.is_char_boundary(n),
                        part: &|_, a, b| &s[a..b],
                    },
                )?;
                ob.nontrivial = k > 0;
            }
            Case25::Items { n, of, cuts } => {
                ob.label("items");
                let n = *n as usize;
                ob.label_if(n > 65_536, "beyond 65536 items");
                let k = match of {
                    0 => items::<u8>(&(0..n).map(|i| (i * 7) as u8).collect::<Vec<_>>(), cuts)?,
                    1 => items::<()>(&vec![(); n], cuts)?,
                    2 => items::<String>(&(0..n).map(|i| format!("{i}")).collect::<Vec<_>>(), cuts)?,
                    3 => items::<u64>(&(0..n as u64).collect::<Vec<_>>(), cuts)?,
                    _ => {
                        ob.label("a user-defined segment");
                        let v: Vec<u16> = (0..n as u16).collect();
                        splits::<Own>(
                            Own::of(&v),
                            cuts,
                            &Split { mk: &Off, num: &|n| n.0, fits: &|_, _| true, part: &|_, a, b| Own::of(&v[a..b]) },
                        )?
                    }
                };
                ob.nontrivial = k > 0;
            }
            Case25::Empty { n, cuts } => {
                ob.label("items of no size, up to 2^64-1");
                ob.nontrivial = empty(*n as usize, cuts)?;
            }
            Case25::Distance { a, b, text } => {
                ob.label("distances");
                let (a, b) = (*a as usize, *b as usize);
                let (x, y) = (BytesDelta::from_bytes(a), BytesDelta::from_bytes(b));
                ensure_eq!(x.to_bytes(), a, "a distance of {a}");
                ensure!(x.cmp(&y) == a.cmp(&b), "{x:?} compared to {y:?}: {:?}", x.cmp(&y));
                ensure!(x.partial_cmp(&y) == a.partial_cmp(&b), "{x:?} compared to {y:?}: {:?}", x.partial_cmp(&y));
                ensure!((x == y) == (a == b) && (x < y) == (a < b) && (x <= y) == (a <= b), "{x:?} and {y:?}");
                ensure_eq!(x.max(y).to_bytes(), a.max(b), "the longer one");
                ensure_eq!(BytesDelta::ZERO.to_bytes(), 0, "no distance");
                ensure_eq!(BytesDelta::default().to_bytes(), 0, "default distance");
                let s: String = text.iter().collect();
                ensure_eq!(BytesDelta::from_str(&s).to_bytes(), s.len(), "distance of {s:?}");
                let mut sum = 0;
                for c in text {
                    ensure_eq!(BytesDelta::from_char(*c).to_bytes(), c.len_utf8(), "distance of {c:?}");
                    sum += BytesDelta::from_char(*c).to_bytes();
                }
                ensure_eq!(sum, s.len(), "distances of the characters of {s:?}");
                ob.nontrivial = a != b;
            }
            Case25::Positions { start, a, b, eol, cuts } => {
                ob.label("positions");
                let differ = match eol {
                    0 => positions::<LF>(*start, a, b, cuts)?,
                    1 => positions::<CR>(*start, a, b, cuts)?,
                    _ => positions::<CRLF>(*start, a, b, cuts)?,
                };
                ob.nontrivial = differ;
                ob.label_if(differ, "different positions, same total");
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C26

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Case26 {
    Sides { a: u32, b: u32, which: u8 },
    Location { text: Vec<char>, at: u8, to: u8 },
    Strategy { ask: u64, answers: Vec<u64>, how: Vec<u8> },
    Fut { waits: Vec<u8>, value: u32, stop: Option<u8>, some: bool },
    Func { text: Vec<char>, take: u8, outcome: u8, waits: u8, once: bool },
    Report { a: u64, b: u64, c: u64 },
}

/// asked for a capacity, it notes the question and gives the next answer
struct Asked {
    asked: RefCell<Vec<usize>>,
    answers: Vec<usize>,
}
impl BufferStrategy for Asked {
    fn calc_capacity(&self, min: usize) -> usize {
        let mut a = self.asked.borrow_mut();
        a.push(min);
        self.answers[(a.len() - 1) % self.answers.len()]
    }
}
fn ask(s: impl BufferStrategy, n: usize, how: &[u8], k: &mut dyn FnMut(usize)) {
    fn go(s: &dyn Fn(usize) -> usize, n: usize, k: &mut dyn FnMut(usize)) {
        k(s(n))
    }
    match how {
        [] => go(&|n| s.calc_capacity(n), n, k),
        [0] => go(&|n| BufferStrategy::calc_capacity(&&s, n), n, k),
        [1] => {
            let s = Rc::new(s);
            go(&|n| BufferStrategy::calc_capacity(&s, n), n, k)
        }
        [2] => {
            let s = Arc::new(s);
            go(&|n| BufferStrategy::calc_capacity(&s, n), n, k)
        }
        [0, x, ..] => ask1(&s, n, *x, k),
        [1, x, ..] => ask1(Rc::new(s), n, *x, k),
        [_, x, ..] => ask1(Arc::new(s), n, *x, k),
        _ => go(&|n| s.calc_capacity(n), n, k),
    }
}
fn ask1(s: impl BufferStrategy, n: usize, how: u8, k: &mut dyn FnMut(usize)) {
    match how {
        0 => k(BufferStrategy::calc_capacity(&&s, n)),
        1 => k(BufferStrategy::calc_capacity(&Rc::new(s), n)),
        _ => k(BufferStrategy::calc_capacity(&Arc::new(s), n)),
    }
}

/// pending once per entry, woken as often as it says
struct Slow {
    waits: Vec<u8>,
    at: usize,
    value: Option<Tracked>,
    polls: Rc<Cell<usize>>,
    waker: Waker,
    strange: Rc<Cell<bool>>,
}
impl Future for Slow {
    type Output = Tracked;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Tracked> {
        self.polls.set(self.polls.get() + 1);
        if !cx.waker().will_wake(&self.waker) {
            self.strange.set(true);
        }
        let at = self.at;
        if at < self.waits.len() {
            self.at += 1;
            for _ in 0..self.waits[at] {
                cx.waker().wake_by_ref();
            }
            return Poll::Pending;
        }
        Poll::Ready(self.value.take().unwrap())
    }
}

fn sides(a: u32, b: u32, which: u8) -> Result<(), String> {
    type E = Either<Tracked, Tracked>;
    let (t, u) = (|| Tracked::new(a), || Tracked::new(b));
    match which {
        0 => ensure_eq!(E::First(t()).unwrap_first().get()?, a, "the first"),
        1 => ensure_eq!(E::Last(u()).unwrap_last().get()?, b, "the last"),
        2 => ensure!(catch(|| E::Last(u()).unwrap_first().val).is_err(), "unwrap_first of the last gave something"),
        3 => ensure!(catch(|| E::First(t()).unwrap_last().val).is_err(), "unwrap_last of the first gave something"),
        4 => {
            ensure_eq!(Either::<Tracked, Never>::First(t()).always_first().get()?, a, "the only");
            ensure_eq!(Either::<Never, Tracked>::Last(u()).always_last().get()?, b, "the only");
        }
        5 => {
            ensure_eq!(EitherBoth::<Tracked, Never>::First(t()).always_first().get()?, a, "the only");
            ensure_eq!(EitherBoth::<Never, Tracked>::Last(u()).always_last().get()?, b, "the only");
        }
        6 => {
            type N = Either<Never, EitherBoth<Never, Result<Never, Never>>>;
            ensure_eq!(Either::<Tracked, N>::First(t()).always_first().get()?, a, "the only");
            ensure_eq!(EitherBoth::<N, Tracked>::Last(u()).always_last().get()?, b, "the only");
        }
        7 => {
            let e: Either<u16, u32> = if a % 2 == 0 { Either::First(a as u16) } else { Either::Last(a) };
            let want = if a % 2 == 0 { a as u16 as u64 } else { a as u64 };
            ensure_eq!(e.clone().unify::<u64>(), want, "either, as one type");
            ensure_eq!(e.unify::<u64>(), want, "either, as one type");
        }
        8 => {
            ensure!(matches!(E::First(t()).clone(), Either::First(x) if x.get()? == a), "first, cloned");
            ensure!(matches!(E::Last(u()).clone(), Either::Last(x) if x.get()? == b), "last, cloned");
            type B = EitherBoth<Tracked, Tracked>;
            ensure!(matches!(B::First(t()).clone(), EitherBoth::First(x) if x.get()? == a), "first, cloned");
            ensure!(matches!(B::Last(u()).clone(), EitherBoth::Last(x) if x.get()? == b), "last, cloned");
            let both = B::Both(t(), u()).clone();
            ensure!(matches!(both, EitherBoth::Both(x, y) if x.get()? == a && y.get()? == b), "both, cloned");
        }
        _ => {
            let (f, m): (Fatal<Tracked>, Miss<Tracked>) = (t().into(), u().into());
            ensure!(f.should_terminate() && !m.should_terminate(), "classes of fatal and miss");
            ensure_eq!(f.0.get()?, a, "what is in the fatal error");
            ensure_eq!(m.0.get()?, b, "what is in the miss");
            ensure!(f.0.get()? == a, "moved");
        }
    }
    Ok(())
}

fn location(text: &[char], at: u8, to: u8) -> Result<(), String> {
    let s: String = text.iter().collect();
    let bytes = |k: usize| BytesDelta::from_bytes(text[..k].iter().map(|c| c.len_utf8()).sum());
    let at = at as usize % (text.len() + 1);
    let to = to as usize % (text.len() - at + 1) + at;
    let one = |s| exec::run(s, 3);
    // text
    let here = one(Sequence::advance(&s[..], bytes(at)))?;
    let anchor = RewindSequence::anchor(&here);
    let there = one(Sequence::advance(&s[..], bytes(to)))?;
    let l = UnknownLocation::from(there);
    let r: &&str = unsafe { l.as_ref().unwrap() };
    ensure_eq!(*r, there, "what is at the unknown location");
    ensure!(std::ptr::eq(*r, there), "what is at the unknown location was replaced");
    let same = unsafe { l.clone().unwrap() };
    ensure!(std::ptr::eq(same, there), "what is at the unknown location was replaced");
    ensure_eq!(exec::run(l.rewind(anchor), 3)?, here, "rewound from an unknown location");
    // items, counted
    let v: Vec<u32> = text.iter().map(|c| *c as u32).collect();
    let base = (&v[..]).into_measured_with::<usize>(3);
    let here = exec::run(base.advance(at), 3)?;
    let anchor = here.anchor();
    let there = exec::run(here.advance(to - at), 3)?;
    let l: UnknownLocation<_> = there.into();
    let back = exec::run(l.rewind(anchor), 3)?;
    ensure_eq!(parcom_core::MeasuredSequence::metrics(&back), 3 + at, "items passed, after rewinding from an unknown location");
    let mut back = back;
    let left = exec::run(parcom_core::SegmentStream::next(&mut back.segments(), 0), 3)?.map(|s| s.to_vec());
    ensure!(left.as_deref() == Some(&v[at..]), "left after rewinding from an unknown location: {left:?}");
    // results
    type R<'a> = ParseResult<&'a str, Tracked, Miss<Tracked>>;
    let r: R = done(Tracked::new(1), &s[..]);
    let Ok((o, rest)) = r else { return Err("done() is a failure".into()) };
    ensure!(o.get()? == 1 && std::ptr::eq(rest, &s[..]), "done(): {o:?}, {rest:?}");
    let r: R = fail(Tracked::new(2), &s[..]);
    let Err((e, rest)) = r else { return Err("fail() is a success".into()) };
    ensure!(e.0.get()? == 2 && std::ptr::eq(unsafe { rest.unwrap() }, &s[..]), "fail(): {e:?}");
    let r: R = fail(Miss(Tracked::new(3)), UnknownLocation::from(&s[..]));
    let Err((e, rest)) = r else { return Err("fail() is a success".into()) };
    ensure!(e.0.get()? == 3 && std::ptr::eq(unsafe { rest.unwrap() }, &s[..]), "fail(): {e:?}");
    Ok(())
}

fn optional(waits: &[u8], value: u32, stop: Option<u8>, some: bool) -> Result<(), String> {
    let count = Arc::new(Count::default());
    let waker: Waker = count.clone().into();
    let mut cx = Context::from_waker(&waker);
    let polls = Rc::new(Cell::new(0));
    let strange = Rc::new(Cell::new(false));
    let inner = Slow {
        waits: waits.to_vec(),
        at: 0,
        value: Some(Tracked::new(value)),
        polls: polls.clone(),
        waker: waker.clone(),
        strange: strange.clone(),
    };
    let mut fut = Box::pin(if some { OptionFuture::some(inner) } else { OptionFuture::none() });
    let mut woken = 0;
    for k in 0..=waits.len() {
        if stop.is_some_and(|s| s as usize == k) {
            break;
        }
        let r = fut.as_mut().poll(&mut cx);
        if !some {
            ensure!(matches!(r, Poll::Ready(None)), "an absent future gave {r:?}");
            ensure_eq!(count.get(), 0, "wakes");
            break;
        }
        ensure_eq!(polls.get(), k + 1, "polls of the inner future");
        if k < waits.len() {
            woken += waits[k] as usize;
            ensure!(r.is_pending(), "ready before the inner future: {r:?}");
        } else {
            let Poll::Ready(Some(v)) = r else { return Err(format!("the inner future is ready, the outer is {r:?}")) };
            ensure_eq!(v.get()?, value, "what the future gave");
        }
        ensure_eq!(count.get(), woken, "wakes");
    }
    ensure!(!strange.get(), "polled with another waker");
    drop(fut);
    Ok(())
}

fn func(text: &[char], take: u8, outcome: u8, waits: u8, once: bool) -> Result<(), String> {
    let s: String = text.iter().collect();
    let s = &s[..];
    let take = take as usize % (text.len() + 1);
    let n = BytesDelta::from_bytes(text[..take].iter().map(|c| c.len_utf8()).sum());
    let calls = Cell::new(0);
    let given = Cell::new(None);
    let body = |i: &str| {
        calls.set(calls.get() + 1);
        given.set(Some((i.as_ptr() as usize, i.len())));
    };
    struct Nap(u8);
    impl Future for Nap {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            if self.0 == 0 {
                return Poll::Ready(());
            }
            self.0 -= 1;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
    type Er = Either<Miss<Tracked>, Fatal<Tracked>>;
    let p = |i: &'_ str| {
        body(i);
        let i: &str = unsafe { &*(i as *const str) };
        async move {
            Nap(waits).await;
            let rest = i.advance(n).await;
            match outcome {
                0 => done::<&str, _, Er>(Tracked::new(10), rest),
                1 => fail(Either::First(Miss(Tracked::new(11))), rest),
                _ => fail(Either::Last(Fatal(Tracked::new(12))), rest),
            }
        }
    };
    let r = if once {
        exec::run(ParserOnce::parse_once(&p, s), 1000)?
    } else {
        exec::run(Parser::parse(&p, s), 1000)?
    };
    ensure_eq!(calls.get(), 1, "calls of the function");
    ensure!(given.get() == Some((s.as_ptr() as usize, s.len())), "the function was given another input");
    let want = &s[n.to_bytes()..];
    match (outcome, r) {
        (0, Ok((o, rest))) => ensure!(o.get()? == 10 && std::ptr::eq(rest, want), "output {o:?}, rest {rest:?}"),
        (1, Err((Either::First(e), rest))) => {
            ensure!(e.0.get()? == 11 && std::ptr::eq(unsafe { rest.unwrap() }, want), "error {e:?}")
        }
        (k, Err((Either::Last(e), rest))) if k > 1 => {
            ensure!(e.0.get()? == 12 && std::ptr::eq(unsafe { rest.unwrap() }, want), "error {e:?}")
        }
        (k, r) => return Err(format!("outcome {k} of the function came out as {:?}", r.map_err(|e| e.0))),
    }
    Ok(())
}

struct C26;
impl Check for C26 {
    type Case = Case26;
    fn id(&self) -> &'static str {
        "C26"
    }
    fn rule(&self) -> &'static str {
        "values in Either and EitherBoth (accessors, clones, conversions), errors in Fatal and Miss, sequences in UnknownLocation, results of done and fail, functions as parsers, buffer strategies behind references and shared pointers, optional futures, load reports. Oracle: what was put in. Items are tracked: dropped exactly once. Non-trivial: two different values, a non-empty text, or a future that is not ready at once"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(4_000_000, 80_000_000)
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Case26> {
        let num = || prop_oneof![3 => 0u64..100, 1 => any::<u64>(), 1 => (0u32..64).prop_map(|s| 1u64 << s)];
        prop_oneof![
            2 => (any::<u32>(), any::<u32>(), 0u8..10).prop_map(|(a, b, which)| Case26::Sides { a, b, which }),
            2 => (gen::text(0..10), any::<u8>(), any::<u8>()).prop_map(|(text, at, to)| Case26::Location { text, at, to }),
            1 => (num(), prop::collection::vec(num(), 1..3), prop::collection::vec(0u8..3, 0..3))
                .prop_map(|(ask, answers, how)| Case26::Strategy { ask, answers, how }),
            2 => (prop::collection::vec(0u8..3, 0..6), any::<u32>(), prop_oneof![3 => Just(None), 1 => (0u8..6).prop_map(Some)], prop::bool::weighted(0.85))
                .prop_map(|(waits, value, stop, some)| Case26::Fut { waits, value, stop, some }),
            2 => (gen::text(0..10), any::<u8>(), 0u8..3, prop_oneof![Just(0u8), 0u8..5], any::<bool>())
                .prop_map(|(text, take, outcome, waits, once)| Case26::Func { text, take, outcome, waits, once }),
            1 => (num(), num(), num()).prop_map(|(a, b, c)| Case26::Report { a, b, c }),
        ]
        .boxed()
    }
    fn run(&self, c: &Case26, ob: &mut Obs) -> Result<(), String> {
        tracked::reset();
        match c {
            Case26::Sides { a, b, which } => {
                ob.label("alternatives");
                ob.nontrivial = a != b;
                sides(*a, *b, *which)?;
            }
            Case26::Location { text, at, to } => {
                ob.label("locations and results");
                ob.nontrivial = text.len() > 1;
                location(text, *at, *to)?;
            }
            Case26::Strategy { ask: n, answers, how } => {
                ob.label("strategies");
                ob.nontrivial = !how.is_empty();
                let s = Asked { asked: RefCell::default(), answers: answers.iter().map(|a| *a as usize).collect() };
                let mut got = vec![];
                ask(&s, *n as usize, how, &mut |x| got.push(x));
                ensure_eq!(got, vec![answers[0] as usize], "the answer to {n}");
                ensure_eq!(*s.asked.borrow(), vec![*n as usize], "questions");
            }
            Case26::Fut { waits, value, stop, some } => {
                ob.label("optional futures");
                ob.nontrivial = *some && !waits.is_empty();
                optional(waits, *value, *stop, *some)?;
            }
            Case26::Func { text, take, outcome, waits, once } => {
                ob.label("functions as parsers");
                ob.nontrivial = !text.is_empty();
                func(text, *take, *outcome, *waits, *once)?;
            }
            Case26::Report { a, b, c } => {
                ob.label("load reports");
                let (a, b, c) = (*a as usize, *b as usize, *c as usize);
                ob.nontrivial = a != b && b != c;
                let r = LoadInfo::new(a, b, c);
                ensure_eq!((r.commited(), r.uncommited(), r.buffer_capacity(), r.is_done()), (a, b, c, false), "a report");
                let r = LoadInfo::done(a);
                ensure_eq!((r.commited(), r.uncommited(), r.buffer_capacity(), r.is_done()), (a, 0, 0, true), "the last report");
            }
        }
        tracked::settled()
    }
}

fn main() {
    pbt::fw::main(&[&C25, &C26]);
}
