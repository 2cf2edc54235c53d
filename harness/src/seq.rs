//! `SegSeq`: a sequence that delivers given content in given pieces, at given times, and watches that it is
//! used legally.
use parcom_core::measured::Metrics;
use parcom_core::{primitive::BytesDelta, RewindSequence, SegmentStream, Sequence, SequenceSegment};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::fmt::Debug;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

/// Text or items.
pub trait Kind: 'static + Sized {
    type Seg: ?Sized + 'static + SequenceSegment<Length = Self::Len> + PartialEq + Debug;
    type Len: 'static + Copy + Ord + Default + Debug;
    type Owned: Clone + Debug + 'static;
    const NAME: &'static str;
    fn own(chars: &[char]) -> Self::Owned;
    fn seg(o: &Self::Owned, from: usize, to: usize) -> &Self::Seg;
    fn to_len(n: usize) -> Self::Len;
    fn of_len(n: Self::Len) -> usize;
    /// size of one character in length units
    fn width(c: char) -> usize;
    fn chars(s: &Self::Seg) -> Vec<char>;
}
pub struct StrK;
pub struct ItemK;
impl Kind for StrK {
    type Seg = str;
    type Len = BytesDelta;
    type Owned = String;
    const NAME: &'static str = "text";
    fn own(chars: &[char]) -> String {
        chars.iter().collect()
    }
    fn seg(o: &String, from: usize, to: usize) -> &str {
        &o[from..to]
    }
    fn to_len(n: usize) -> BytesDelta {
        BytesDelta::from_bytes(n)
    }
    fn of_len(n: BytesDelta) -> usize {
        n.to_bytes()
    }
    fn width(c: char) -> usize {
        c.len_utf8()
    }
    fn chars(s: &str) -> Vec<char> {
        s.chars().collect()
    }
}
impl Kind for ItemK {
    type Seg = [char];
    type Len = usize;
    type Owned = Vec<char>;
    const NAME: &'static str = "items";
    fn own(chars: &[char]) -> Vec<char> {
        chars.to_vec()
    }
    fn seg(o: &Vec<char>, from: usize, to: usize) -> &[char] {
        &o[from..to]
    }
    fn to_len(n: usize) -> usize {
        n
    }
    fn of_len(n: usize) -> usize {
        n
    }
    fn width(_: char) -> usize {
        1
    }
    fn chars(s: &[char]) -> Vec<char> {
        s.to_vec()
    }
}

/// How content is delivered. `cuts` are fractions (of 256) where pieces end; repeated cuts make empty pieces.
#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq, Eq)]
pub struct Delivery {
    /// character indices modulo (len + 1); sorted on use, duplicates give empty pieces
    pub cuts: Vec<u16>,
    /// keep the empty remainder of a piece after advancing to its end
    pub keep_empty: bool,
    /// suspensions per operation, used cyclically
    pub pend: Vec<u8>,
}

pub struct Ctx {
    pub ops: Cell<u64>,
    pub budget: u64,
    pend: Vec<u8>,
    pend_i: Cell<usize>,
    max_seen: Cell<usize>,
    /// a piece after the last one was asked for
    asked_end: Cell<bool>,
    /// piece ends, as in `Inner`
    ends: Vec<usize>,
    faults: RefCell<Vec<String>>,
    pub suspensions: Cell<u64>,
    pub advances: Cell<u64>,
    pub rewinds: Cell<u64>,
}
impl Ctx {
    fn op(&self) -> u8 {
        self.ops.set(self.ops.get() + 1);
        if self.ops.get() > self.budget {
            panic!("sequence operation budget exhausted: parsing does not end ({} operations)", self.budget);
        }
        if self.pend.is_empty() {
            return 0;
        }
        let i = self.pend_i.get();
        self.pend_i.set(i + 1);
        let n = self.pend[i % self.pend.len()];
        self.suspensions.set(self.suspensions.get() + n as u64);
        n
    }
    fn fault(&self, s: String) {
        self.faults.borrow_mut().push(s)
    }
    /// Nothing was asked for after the piece that has the last of the first `n` (in length units) in it.
    pub fn prompt(&self, n: usize) -> Result<(), String> {
        let until = self.ends.iter().copied().find(|e| *e >= n);
        let seen = self.max_seen.get();
        if seen > until.unwrap_or(seen) {
            return Err(format!(
                "asked for more input than decides the outcome: the first {n} decide it, they have arrived with the piece that ends at {}, and the one that ends at {seen} was asked for",
                until.unwrap()
            ));
        }
        match until {
            Some(e) if self.asked_end.get() => Err(format!(
                "asked for more input than decides the outcome: the first {n} decide it, they have arrived with the piece that ends at {e}, and what follows the last piece was asked for"
            )),
            _ => Ok(()),
        }
    }
    pub fn legal(&self) -> Result<(), String> {
        match self.faults.borrow().first() {
            Some(f) => Err(format!("illegal use of the sequence: {f}")),
            None => Ok(()),
        }
    }
}

struct Inner<K: Kind> {
    data: K::Owned,
    len: usize,
    /// piece ends, in length units, ascending, possibly repeated; the last is `len` unless there are no pieces
    ends: Vec<usize>,
    keep_empty: bool,
    ctx: Rc<Ctx>,
}

pub struct SegSeq<K: Kind> {
    inner: Rc<Inner<K>>,
    pos: usize,
}

impl<K: Kind> SegSeq<K> {
    pub fn new(chars: &[char], d: &Delivery, budget: u64) -> (Self, Rc<Ctx>) {
        let mut offs = vec![0];
        for c in chars {
            offs.push(offs.last().unwrap() + K::width(*c));
        }
        let len = *offs.last().unwrap();
        let mut ends: Vec<usize> = d.cuts.iter().map(|c| offs[*c as usize % offs.len()]).collect();
        ends.sort();
        if len > 0 && ends.last() != Some(&len) {
            ends.push(len);
        }
        // empty pieces are read again by every operation
        let budget = budget.saturating_mul(1 + ends.len() as u64 / 24);
        let ctx = Rc::new(Ctx {
            ops: Cell::new(0),
            budget,
            pend: d.pend.clone(),
            pend_i: Cell::new(0),
            max_seen: Cell::new(0),
            asked_end: Cell::new(false),
            ends: ends.clone(),
            faults: RefCell::default(),
            suspensions: Cell::new(0),
            advances: Cell::new(0),
            rewinds: Cell::new(0),
        });
        let inner = Inner { data: K::own(chars), len, ends, keep_empty: d.keep_empty, ctx: ctx.clone() };
        (SegSeq { inner: Rc::new(inner), pos: 0 }, ctx)
    }
    pub fn pos(&self) -> usize {
        self.pos
    }
    pub fn rest_chars(&self) -> Vec<char> {
        K::chars(K::seg(&self.inner.data, self.pos, self.inner.len))
    }
}

pub struct After<T> {
    n: u8,
    v: Option<T>,
}
impl<T> Unpin for After<T> {}
impl<T> Future for After<T> {
    type Output = T;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        let me = self.get_mut();
        if me.n > 0 {
            me.n -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        Poll::Ready(me.v.take().expect("polled after completion"))
    }
}

pub struct Pieces<'a, K: Kind> {
    seq: &'a Inner<K>,
    at: usize,
    idx: usize,
}
impl<'a, K: Kind> SegmentStream for Pieces<'a, K> {
    type Length = K::Len;
    type Segment = K::Seg;
    type Next<'b>
        = After<Option<&'b K::Seg>>
    where
        Self: 'b;
    fn next(&mut self, _: K::Len) -> Self::Next<'_> {
        let n = self.seq.ctx.op();
        let v = match self.seq.ends.get(self.idx) {
            None => {
                self.seq.ctx.asked_end.set(true);
                None
            }
            Some(end) => {
                let s = K::seg(&self.seq.data, self.at, *end);
                self.at = *end;
                self.idx += 1;
                let m = &self.seq.ctx.max_seen;
                m.set(m.get().max(*end));
                Some(s)
            }
        };
        After { n, v: Some(v) }
    }
}

impl<K: Kind> Sequence for SegSeq<K> {
    type Length = K::Len;
    type Segment = K::Seg;
    type Segments<'a>
        = Pieces<'a, K>
    where
        Self: 'a;
    type Advance = After<Self>;
    fn segments(&mut self) -> Pieces<'_, K> {
        let i = &*self.inner;
        let mut idx = i.ends.iter().position(|e| *e >= self.pos).unwrap_or(i.ends.len());
        if self.pos > 0 && !i.keep_empty {
            idx = i.ends.iter().position(|e| *e > self.pos).unwrap_or(i.ends.len());
        }
        Pieces { seq: i, at: self.pos, idx }
    }
    fn advance(mut self, delta: K::Len) -> After<Self> {
        let c = self.inner.ctx.clone();
        let n = c.op();
        c.advances.set(c.advances.get() + 1);
        let to = self.pos.saturating_add(K::of_len(delta));
        if to > c.max_seen.get() {
            c.fault(format!(
                "advanced from {} to {to}, past the {} that was read",
                self.pos,
                c.max_seen.get()
            ));
        }
        self.pos = to.min(self.inner.len);
        // a cut inside a character would be a mis-sized advance: report it here, not as a slicing panic
        let tail_ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let _ = K::seg(&self.inner.data, self.pos, self.inner.len);
        }))
        .is_ok();
        if !tail_ok {
            panic!("advanced to {}, inside a character", self.pos);
        }
        After { n, v: Some(self) }
    }
}

pub struct SegAnchor<K: Kind> {
    inner: Rc<Inner<K>>,
    pos: usize,
}
impl<K: Kind> RewindSequence for SegSeq<K> {
    type Anchor = SegAnchor<K>;
    type Rewind = After<Self>;
    fn anchor(&self) -> SegAnchor<K> {
        SegAnchor { inner: self.inner.clone(), pos: self.pos }
    }
    fn rewind(mut self, a: SegAnchor<K>) -> After<Self> {
        let c = self.inner.ctx.clone();
        let n = c.op();
        c.rewinds.set(c.rewinds.get() + 1);
        if !Rc::ptr_eq(&a.inner, &self.inner) {
            c.fault("rewound to an anchor of another sequence".into());
        }
        if a.pos > self.pos {
            c.fault(format!("rewound forward from {} to {}", self.pos, a.pos));
        }
        self.pos = a.pos;
        After { n, v: Some(self) }
    }
}

/// What the checks need from a sequence under test.
pub trait Subject<K: Kind>: RewindSequence<Segment = K::Seg, Length = K::Len> {
    fn rest(&mut self) -> Vec<char>;
    /// another sequence at the same position of the same input
    fn fork(&self) -> Option<Self> {
        None
    }
}
impl<K: Kind> Subject<K> for SegSeq<K> {
    fn fork(&self) -> Option<Self> {
        Some(SegSeq { inner: self.inner.clone(), pos: self.pos })
    }
    fn rest(&mut self) -> Vec<char> {
        self.rest_chars()
    }
}
impl Subject<StrK> for &str {
    fn rest(&mut self) -> Vec<char> {
        self.chars().collect()
    }
}
impl Subject<ItemK> for &[char] {
    fn rest(&mut self) -> Vec<char> {
        self.to_vec()
    }
}

impl<'a, M: Metrics<str>> Subject<StrK> for parcom_core::primitive::str::Measured<'a, M>
where
    M::Meter: Clone,
{
    fn rest(&mut self) -> Vec<char> {
        crate::fw::exec::run(drain::<StrK, _>(self), 1 << 20).unwrap()
    }
}
impl<'a, M: Metrics<[char]>> Subject<ItemK> for parcom_core::primitive::slice::Measured<'a, char, M>
where
    M::Meter: Clone,
{
    fn rest(&mut self) -> Vec<char> {
        crate::fw::exec::run(drain::<ItemK, _>(self), 1 << 20).unwrap()
    }
}

/// reads all pieces still offered
pub async fn drain<K: Kind, S: Sequence<Segment = K::Seg, Length = K::Len>>(s: &mut S) -> Vec<char> {
    let mut out = vec![];
    let mut st = s.segments();
    while let Some(p) = st.next(K::to_len(0)).await {
        out.extend(K::chars(p));
    }
    out
}

pub mod gen {
    use super::Delivery;
    use proptest::prelude::*;

    pub fn delivery() -> BoxedStrategy<Delivery> {
        let cuts = prop_oneof![
            40 => Just(vec![]),
            60 => proptest::collection::vec(any::<u16>(), 0..4),
            40 => proptest::collection::vec(0u16..12, 0..12),
            20 => Just((0..24u16).collect::<Vec<_>>()),
            20 => Just((0..12u16).flat_map(|i| [i, i]).collect::<Vec<_>>()),
            // one place with very many empty pieces
            1 => (prop_oneof![1 => Just(0u16), 1 => 0u16..12], 12usize..300).prop_map(|(at, n)| vec![at; n]),
        ];
        let pend = prop_oneof![
            2 => Just(vec![]),
            2 => proptest::collection::vec(0u8..3, 1..6),
            1 => Just(vec![1u8]),
        ];
        (cuts, any::<bool>(), pend)
            .prop_map(|(cuts, keep_empty, pend)| Delivery { cuts, keep_empty, pend })
            .boxed()
    }

    /// Few letters, all character widths, and near-collisions in their encodings.
    pub const ALPHABET: &[char] = &['a', 'b', 'é', 'è', 'あ', '😀', '(', 'ぃ', '😁', '\u{7ff}'];

    pub fn ch() -> BoxedStrategy<char> {
        prop_oneof![
            12 => proptest::sample::select(&ALPHABET[..6]),
            3 => proptest::sample::select(ALPHABET),
            1 => any::<char>(),
        ]
        .boxed()
    }
    pub fn text(r: std::ops::Range<usize>) -> BoxedStrategy<Vec<char>> {
        proptest::collection::vec(ch(), r).boxed()
    }
}

/// a distance past the end, which is `r` ahead
pub fn far(r: usize, k: usize) -> usize {
    match k {
        255 => usize::MAX,
        // what is left of it after cutting off its upper part may be a proper distance
        250..=254 => (1 << [8, 16, 31, 32, 63][k - 250]) + r + (k - 250),
        248..=249 => (1usize << [32, 63][k - 248]).max(r),
        240..=247 => (1 << 32) + (r * (k - 240) / 7),
        _ => r + k,
    }
}
