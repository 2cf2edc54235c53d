//! Cases run inside an interpreter that schedules threads at random, lets loads that are not ordered by the
//! program read old values, and reports invalid memory accesses, data races and deadlocks.
//!
//! `weak ENGINE N` runs N random cases (all randomness comes from the interpreter's seed);
//! `weak ENGINE case a,b,c` runs one. A case is a list of choices; where it ends, every further choice is 0.
#[path = "../../src/feed.rs"]
#[allow(dead_code)]
mod feed;

use feed::{NoLoader, NoSource, With};
use parcom_core::{Parser, ParseResult, SegmentStream, Sequence};
use parcom_internals::future::notify::Notify;
use parcom_internals::ShortVec;
use parcom_parsers::primitive::{any_item, atom, the_item};
use parcom_runners::default_runner::DefaultSequence;
use parcom_sequence_core::{BufferWriter, SequenceBuffer, SequenceBuilder, SequenceControl, SequenceLoader, SequenceSource};
use parcom_sequence_sources::iterator_source::IteratorSource;
use parcom_sequence_sources::utf8_validator::Utf8Validator;
use parcom_sequences::generic::{GenericSequenceBuffer, GenericSequenceBuilder};
use parcom_sequences::BufferStrategy;
use std::cell::RefCell;
use std::future::Future;
use std::hash::{BuildHasher, Hasher};
use std::marker::PhantomData;
use std::pin::{pin, Pin};
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::thread::{self, Thread};

// ---------------------------------------------------------------- choices

struct Choices {
    list: Vec<u32>,
    i: usize,
}
impl Choices {
    /// below n
    fn to(&mut self, n: u32) -> u32 {
        let c = self.list.get(self.i).copied().unwrap_or(0);
        self.i += 1;
        c % n
    }
    fn yes(&mut self) -> bool {
        self.to(2) == 1
    }
}
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545_f491_4f6c_dd1d) >> 20
    }
}

/// what happened in the case: bits of `SEEN`
static SEEN: AtomicUsize = AtomicUsize::new(0);
const PENDING: usize = 1;
const MEANWHILE: usize = 2;
const LONG: usize = 4;
fn seen(what: usize) {
    SEEN.fetch_or(what, Relaxed);
}

// ---------------------------------------------------------------- waiting

struct Unpark(Thread);
impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.0.unpark()
    }
}
fn block_on<F: Future>(f: F) -> F::Output {
    let w = Waker::from(Arc::new(Unpark(thread::current())));
    let mut f = pin!(f);
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut Context::from_waker(&w)) {
            return v;
        }
        seen(PENDING);
        // no wake ever: the interpreter reports the deadlock
        thread::park();
    }
}
/// Brings two threads to chosen steps of each other, without ordering any of their memory accesses.
#[derive(Default)]
struct Meet {
    produced: AtomicUsize,
    polled: AtomicUsize,
}
impl Meet {
    fn until(x: &AtomicUsize, n: usize) {
        // the other one may be blocked
        for _ in 0..40 {
            if x.load(Relaxed) >= n {
                return;
            }
            thread::yield_now();
        }
    }
    /// the producer has come to its next step; it stays there until the reader has polled n times more
    fn step(&self, n: u32) {
        self.produced.store(self.produced.load(Relaxed) + 1, Relaxed);
        Self::until(&self.polled, self.polled.load(Relaxed) + n as usize);
    }
}
/// polls at chosen steps of the producer
struct At<'a, F> {
    meet: &'a Meet,
    steps: std::vec::IntoIter<usize>,
    f: Pin<&'a mut F>,
}
impl<F: Future> Future for At<'_, F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        if let Some(n) = self.steps.next() {
            Meet::until(&self.meet.produced, n);
        }
        let before = self.meet.produced.load(Relaxed);
        let r = self.f.as_mut().poll(cx);
        if self.meet.produced.load(Relaxed) != before {
            seen(MEANWHILE);
        }
        self.meet.polled.store(self.meet.polled.load(Relaxed) + 1, Relaxed);
        r
    }
}
fn block_on_at<F: Future>(c: &mut Choices, meet: &Meet, f: F) -> F::Output {
    let mut at = 0;
    let steps: Vec<usize> = (0..6)
        .map(|_| {
            at += c.to(5) as usize;
            at
        })
        .collect();
    block_on(At { meet, steps: steps.into_iter(), f: pin!(f) })
}
fn once<F: Future>(f: Pin<&mut F>) -> Poll<F::Output> {
    f.poll(&mut Context::from_waker(Waker::noop()))
}

// ---------------------------------------------------------------- C17

/// Waits created before the last send complete; a wait created after it does not.
fn notify(c: &mut Choices) {
    let (waiters, early, rounds) = (1 + c.to(3) as usize, c.to(3) as usize, 1 + c.to(2) as usize);
    let plans: Vec<Vec<(u32, bool)>> = (0..waiters).map(|_| (0..rounds).map(|_| (c.to(3), c.yes())).collect()).collect();
    let n = Arc::new(Notify::new());
    for round in 0..rounds {
        let created = Arc::new(AtomicUsize::new(0));
        let mut ts = vec![];
        for p in &plans {
            let (n, created, (polls, drop_one)) = (n.clone(), created.clone(), p[round]);
            ts.push(thread::spawn(move || {
                if drop_one {
                    let _ = once(pin!(n.wait()));
                }
                let mut w = pin!(n.wait());
                created.fetch_add(1, Release);
                for _ in 0..polls {
                    if once(w.as_mut()).is_ready() {
                        return;
                    }
                    seen(PENDING);
                }
                block_on(w)
            }));
        }
        // sends that may come before or after the waits
        for _ in 0..early {
            let n = n.clone();
            ts.push(thread::spawn(move || n.send()));
        }
        while created.load(Acquire) < waiters {
            thread::yield_now();
        }
        n.send();
        for t in ts {
            t.join().unwrap();
        }
        assert!(once(pin!(n.wait())).is_pending(), "a wait completed without a send after its creation");
    }
}

// ---------------------------------------------------------------- C18, C22

struct Extra(u32);
impl BufferStrategy for Extra {
    fn calc_capacity(&self, min: usize) -> usize {
        min + self.0 as usize
    }
}

/// loads, commits and signals in another thread
fn produce<T, S, L>(c: &mut Choices, seq: &DefaultSequence<S, With<GenericSequenceBuffer<T>>>, mut l: L) -> (thread::JoinHandle<()>, Arc<Meet>)
where
    S: SequenceSource<Item = T>,
    With<GenericSequenceBuffer<T>>: SequenceBuilder<S, Buffer = GenericSequenceBuffer<T>>,
    L: SequenceLoader + Send + 'static,
{
    let (notify, done) = seq.verif_producer_handles();
    let pump: Vec<(u32, bool, u32)> = (0..4).map(|_| (1 + c.to(2), c.yes(), c.to(4))).collect();
    let (before_end, after_end) = (c.to(4), c.to(4));
    let meet = Arc::new(Meet::default());
    let m = meet.clone();
    let p = thread::spawn(move || {
        let mut i = 0;
        loop {
            let (n, force, hold) = pump[i % pump.len()];
            i += 1;
            for _ in 0..n {
                let Ok(info) = block_on(l.load()) else { panic!("loading valid data failed") };
                if info.is_done() {
                    m.step(before_end);
                    done.store(true, SeqCst);
                    m.step(after_end);
                    notify.send();
                    return;
                }
            }
            if force {
                l.force_commit();
            }
            m.step(hold);
            notify.send();
        }
    });
    (p, meet)
}
type Seq = DefaultSequence<NoSource<u8>, With<GenericSequenceBuffer<u8>>>;

fn chunks(c: &mut Choices) -> (Vec<u8>, Vec<Vec<u8>>) {
    let mut next = b'a';
    let chunks: Vec<Vec<u8>> = (0..c.to(5))
        .map(|_| {
            (0..c.to(4))
                .map(|_| {
                    next += 1;
                    next - 1
                })
                .collect()
        })
        .collect();
    (chunks.concat(), chunks)
}
/// everything up to the end of the input
async fn rest<S: Sequence<Segment = [u8], Length = usize>>(s: &mut S) -> Vec<u8> {
    let mut got = vec![];
    let mut st = s.segments();
    while let Some(x) = st.next(0).await {
        got.extend_from_slice(x);
    }
    got
}

fn stream(c: &mut Choices) {
    let (data, chunks) = chunks(c);
    let (b, l) = GenericSequenceBuilder::verif_new(Extra(c.to(5))).build(IteratorSource::new(chunks));
    let mut seq: Seq = DefaultSequence::new(b, NoLoader(PhantomData));
    let ops: Vec<(u32, u32)> = (0..c.to(4)).map(|_| (c.to(2), c.to(5))).collect();
    let skip = c.yes();
    let (p, meet) = produce(c, &seq, l);
    block_on_at(c, &meet, async {
        let mut at = 0;
        for (op, n) in ops {
            match op {
                0 => {
                    let mut got = vec![];
                    let mut st = seq.segments();
                    for _ in 0..n {
                        match st.next(0).await {
                            Some(x) => got.extend_from_slice(x),
                            None => {
                                assert_eq!(got, data[at..], "end of input (what was read, what there is)");
                                break;
                            }
                        }
                    }
                    assert!(data[at..].starts_with(&got), "read {got:?} at {at} of {data:?}");
                }
                _ => {
                    seq = seq.advance(n as usize).await;
                    at = data.len().min(at + n as usize);
                }
            }
        }
        if skip {
            seq = seq.advance(data.len() + 1).await;
            at = data.len();
        }
        assert_eq!(rest(&mut seq).await, data[at..], "the rest");
    });
    p.join().unwrap();
}

fn parse(c: &mut Choices) {
    let (data, chunks) = chunks(c);
    let builder = GenericSequenceBuilder::verif_new(Extra(c.to(5)));
    let program: Vec<(u32, u32)> = (0..c.to(5)).map(|_| (c.to(5), c.to(5))).collect();
    let validate = c.yes();
    type Out = (Vec<Option<u8>>, Option<Vec<u8>>);
    async fn run<S: Sequence<Segment = [u8], Length = usize>>(program: &[(u32, u32)], data: &[u8], mut s: S) -> Out {
        let (mut out, mut at) = (vec![], 0);
        for &(op, n) in program {
            let next = &data[at.min(data.len())..];
            let lit = |n: usize| next[..n.min(next.len())].to_vec();
            let r: Result<(u8, usize, S), ()> = match op {
                0 => match any_item::<u8, S>().parse(s).await {
                    Ok((b, s)) => Ok((b, 1, s)),
                    Err(_) => Err(()),
                },
                1 => match the_item(next.first().copied().unwrap_or(0)).parse(s).await {
                    Ok((_, s)) => Ok((1, 1, s)),
                    Err(_) => Err(()),
                },
                2 | 3 => {
                    let l = lit(n as usize);
                    let k = l.len();
                    let r: ParseResult<S, _, _> = atom(l).parse(s).await;
                    match r {
                        Ok((_, s)) => Ok((2, k, s)),
                        Err(_) => Err(()),
                    }
                }
                _ => {
                    let mut l = lit(n as usize);
                    l.push(0xff);
                    match atom(l).parse(s).await {
                        Ok((_, s)) => Ok((3, 0, s)),
                        Err(_) => Err(()),
                    }
                }
            };
            match r {
                Ok((v, k, rest)) => {
                    out.push(Some(v));
                    at += k;
                    s = rest;
                }
                Err(()) => {
                    out.push(None);
                    return (out, None);
                }
            }
        }
        let left = rest(&mut s).await;
        (out, Some(left))
    }
    let want = block_on(run(&program, &data, &data[..]));
    let src = IteratorSource::new(chunks);
    let (seq, (p, meet)): (Seq, _);
    if validate {
        let (b, l) = builder.build(Utf8Validator::new(src));
        seq = DefaultSequence::new(b, NoLoader(PhantomData));
        (p, meet) = produce(c, &seq, l);
    } else {
        let (b, l) = builder.build(src);
        seq = DefaultSequence::new(b, NoLoader(PhantomData));
        (p, meet) = produce(c, &seq, l);
    }
    let got = block_on_at(c, &meet, run(&program, &data, seq));
    assert_eq!(got, want, "streamed, in memory");
    p.join().unwrap();
}

// ---------------------------------------------------------------- C12

/// One thread loads and commits, another looks and skips; whatever it sees is a prefix of what remains.
fn buffer(c: &mut Choices) {
    let (data, chunks) = chunks(c);
    let data: Vec<Box<u8>> = data.into_iter().map(Box::new).collect();
    let chunks: Vec<Vec<Box<u8>>> = chunks.into_iter().map(|x| x.into_iter().map(Box::new).collect()).collect();
    let (mut b, mut l) = GenericSequenceBuilder::verif_new(Extra(c.to(5))).build(IteratorSource::new(chunks));
    let pump: Vec<(bool, u32)> = (0..4).map(|_| (c.yes(), c.to(4))).collect();
    let ops: Vec<(usize, Option<usize>)> = (0..c.to(8)).map(|_| (c.to(4) as usize, c.yes().then(|| c.to(4) as usize))).collect();
    let drop_loader = c.yes();
    let meet = Arc::new(Meet::default());
    let m = meet.clone();
    let p = thread::spawn(move || {
        let mut i = 0;
        loop {
            let (force, hold) = pump[i % pump.len()];
            i += 1;
            let Ok(info) = block_on(l.load());
            if info.is_done() {
                break;
            }
            if force {
                l.force_commit();
            }
            m.step(hold);
        }
        // the last one to go may be either of them
        (!drop_loader).then_some(l)
    });
    let (mut at, mut seen_to, mut stage) = (0, 0, 0);
    for (wait, skip) in ops {
        stage += wait;
        Meet::until(&meet.produced, stage);
        let before = meet.produced.load(Relaxed);
        let got: Vec<Box<u8>> = b.segments().flatten().cloned().collect();
        assert!(data[at..].starts_with(&got), "visible {got:?} at {at} of {data:?}");
        assert!(at + got.len() >= seen_to, "what was visible is gone");
        seen_to = at + got.len();
        if let Some(n) = skip {
            let left = b.advance(n);
            assert!(n - left >= got.len().min(n), "less skipped than was visible");
            at += n - left;
        }
        meet.polled.store(meet.polled.load(Relaxed) + 1, Relaxed);
        if meet.produced.load(Relaxed) != before {
            seen(MEANWHILE);
        }
        if stage > 0 && seen_to < data.len() {
            seen(PENDING);
        }
    }
    if c.to(4) == 0 {
        // the reader leaves early
        drop(b);
        p.join().unwrap();
        return;
    }
    let _l = p.join().unwrap();
    let got: Vec<Box<u8>> = b.segments().flatten().cloned().collect();
    assert_eq!(got, data[at..], "everything (visible, the source's)");
}

// ---------------------------------------------------------------- C23

/// Reads, skips and parses that are given up after some polls while another thread loads on; nothing is left
/// behind (the interpreter counts), and a sequence that is still there reads on.
fn leave(c: &mut Choices) {
    let (data, chunks) = chunks(c);
    let data: Vec<Box<u8>> = data.into_iter().map(Box::new).collect();
    let chunks: Vec<Vec<Box<u8>>> = chunks.into_iter().map(|x| x.into_iter().map(Box::new).collect()).collect();
    let (b, l) = GenericSequenceBuilder::verif_new(Extra(c.to(5))).build(IteratorSource::new(chunks));
    let mut seq: DefaultSequence<NoSource<Box<u8>>, With<GenericSequenceBuffer<Box<u8>>>> = DefaultSequence::new(b, NoLoader(PhantomData));
    let (p, meet) = produce(c, &seq, l);
    let w = Waker::from(Arc::new(Unpark(thread::current())));
    let mut cx = Context::from_waker(&w);
    let (mut at, mut stage) = (0, 0);
    for _ in 0..c.to(6) {
        let (op, polls) = (c.to(4), c.to(5) as usize);
        let steps: Vec<usize> = (0..polls)
            .map(|_| {
                stage += c.to(3) as usize;
                stage
            })
            .collect();
        macro_rules! some {
            ($f:expr) => {{
                let mut f = At { meet: &meet, steps: steps.clone().into_iter(), f: pin!($f) };
                let mut r = None;
                for _ in 0..polls {
                    if let Poll::Ready(v) = Pin::new(&mut f).poll(&mut cx) {
                        r = Some(v);
                        break;
                    }
                    seen(PENDING);
                }
                r
            }};
        }
        match op {
            0 | 1 => {
                let mut st = seq.segments();
                if let Some(Some(x)) = some!(st.next(0)) {
                    assert!(data[at..].starts_with(x), "read {x:?} at {at} of {data:?}");
                }
            }
            2 => {
                let n = c.to(4) as usize;
                match some!(seq.advance(n)) {
                    Some(s) => seq = s,
                    None => return p.join().unwrap(),
                }
                at = data.len().min(at + n);
            }
            _ => {
                let n = c.to(3) as usize;
                let lit = data[at..data.len().min(at + n)].to_vec();
                at += lit.len();
                let parser = atom(lit);
                match some!(Parser::parse(&parser, seq)) {
                    Some(Ok((_, s))) => seq = s,
                    Some(Err(_)) => panic!("what is there was refused"),
                    None => return p.join().unwrap(),
                }
            }
        }
    }
    if c.yes() {
        // the reader goes first
        drop(seq);
        return p.join().unwrap();
    }
    block_on(async {
        let mut got = vec![];
        let mut st = seq.segments();
        while let Some(x) = st.next(0).await {
            got.extend_from_slice(x);
        }
        assert_eq!(got, data[at..], "the rest");
    });
    p.join().unwrap();
}

// ---------------------------------------------------------------- C15

fn text(c: &mut Choices) {
    let mut data: Vec<u8> = (0..c.to(10)).flat_map(|_| ["a", "é", "あ", "😀"][c.to(4) as usize].bytes().collect::<Vec<_>>()).collect();
    if c.to(3) == 0 && !data.is_empty() {
        let i = c.to(60) as usize % data.len();
        match c.to(3) {
            0 => data.truncate(i),
            1 => data[i] ^= 0x80,
            _ => data[i] = 0xc0 | c.to(60) as u8,
        }
    }
    let mut ends: Vec<usize> = (0..c.to(6)).map(|_| c.to(60) as usize % (data.len() + 1)).collect();
    ends.sort();
    ends.push(data.len());
    let (mut at, mut chunks) = (0, vec![]);
    for e in ends {
        chunks.push(data[at..e].to_vec());
        at = e;
    }
    if chunks.len() > 2 {
        seen(LONG);
    }
    let n = chunks.len();
    let (b, mut l) = GenericSequenceBuilder::verif_new(Extra(c.to(5))).build(Utf8Validator::new(IteratorSource::new(chunks)));
    let mut err = false;
    for _ in 0..=n {
        match block_on(l.load()) {
            Ok(i) if i.is_done() => break,
            Ok(_) => {}
            Err(_) => {
                err = true;
                break;
            }
        }
        if c.to(3) == 0 {
            l.force_commit();
        }
    }
    l.force_commit();
    let got: Vec<u8> = b.segments().flatten().copied().collect();
    for s in b.segments() {
        assert!(std::str::from_utf8(s).is_ok(), "a piece that is not text: {s:?}");
    }
    match std::str::from_utf8(&data) {
        Ok(_) => {
            assert!(!err, "valid text was refused");
            assert_eq!(got, data, "text (delivered, given)");
        }
        Err(e) => {
            assert!(err, "invalid text was accepted");
            assert!(data[..e.valid_up_to()].starts_with(&got), "delivered {got:?} of {data:?}");
        }
    }
}

// ---------------------------------------------------------------- C19

trait Item: PartialEq + std::fmt::Debug + Clone {
    fn make(n: u32) -> Self;
}
impl Item for Box<u32> {
    fn make(n: u32) -> Self {
        Box::new(n)
    }
}
impl Item for u8 {
    fn make(n: u32) -> Self {
        n as u8
    }
}
impl Item for () {
    fn make(_: u32) {}
}
#[repr(align(64))]
#[derive(Clone, PartialEq, Debug)]
struct Wide(u64);
impl Item for Wide {
    fn make(n: u32) -> Self {
        Wide(n as u64)
    }
}
/// padding bytes stay uninitialised
impl Item for (u8, Option<u32>) {
    fn make(n: u32) -> Self {
        (n as u8, (n % 3 == 0).then_some(n))
    }
}

fn vector(c: &mut Choices) {
    fn run<T: Item, const N: usize>(c: &mut Choices) {
        let cap = c.to(6) as usize;
        let (mut v, mut m) = (if c.yes() { ShortVec::<T, N>::with_capacity(cap) } else { ShortVec::new() }, Vec::<T>::new());
        for k in 0..c.to(14) {
            if k == 5 {
                seen(LONG);
            }
            match c.to(10) {
                0..=4 => {
                    v.push(T::make(k));
                    m.push(T::make(k));
                }
                5 => assert_eq!(v.pop(), m.pop(), "popped (small vector, vector)"),
                6 => v.reserve(c.to(9) as usize),
                7 => v.reserve_exact(c.to(9) as usize),
                8 => {
                    if !m.is_empty() {
                        let i = c.to(m.len() as u32) as usize;
                        v.as_slice_mut()[i] = T::make(100 + k);
                        m[i] = T::make(100 + k);
                    }
                }
                _ => v.as_slice_mut().reverse().then_reverse(&mut m),
            }
            assert_eq!(v.as_slice(), &m[..], "contents (small vector, vector)");
            assert_eq!(v.is_empty(), m.is_empty());
            if let Some(last) = m.last() {
                assert_eq!(unsafe { &*v.as_ptr().add(m.len() - 1) }, last, "through the pointer");
            }
        }
    }
    trait Then {
        fn then_reverse<T>(self, m: &mut Vec<T>);
    }
    impl Then for () {
        fn then_reverse<T>(self, m: &mut Vec<T>) {
            m.reverse()
        }
    }
    fn sized<const N: usize>(c: &mut Choices) {
        match c.to(5) {
            0 => run::<Box<u32>, N>(c),
            1 => run::<u8, N>(c),
            2 => run::<(), N>(c),
            3 => run::<Wide, N>(c),
            _ => run::<(u8, Option<u32>), N>(c),
        }
    }
    match c.to(4) {
        0 => sized::<0>(c),
        1 => sized::<1>(c),
        2 => sized::<2>(c),
        _ => sized::<4>(c),
    }
}

// ---------------------------------------------------------------- C16

/// what a source does at each load, and what it has delivered
struct Script<T> {
    loads: Vec<(u32, Vec<(u32, u32)>, u32)>,
    i: usize,
    fresh: Box<dyn FnMut() -> T>,
    sent: Rc<RefCell<Vec<T>>>,
}
impl<T: Clone + PartialEq + std::fmt::Debug + 'static> SequenceSource for Script<T> {
    type Item = T;
    type Error = u32;
    type Next<'a, C>
        = std::future::Ready<C::Result>
    where
        C: 'a + SequenceControl<Item = T, Error = u32>;
    fn next<'a, C>(&'a mut self, control: C, _: usize) -> Self::Next<'a, C>
    where
        C: 'a + SequenceControl<Item = T, Error = u32>,
    {
        let Some((min, ops, end)) = self.loads.get(self.i).cloned() else {
            return std::future::ready(control.finish());
        };
        self.i += 1;
        if self.i == 2 {
            seen(LONG);
        }
        let mut w = control.request_writer(min as usize);
        let mut m: Vec<T> = vec![];
        assert!(w.capacity() >= min as usize, "capacity below the request");
        for (op, n) in ops {
            match op {
                0 | 1 => {
                    let x = (self.fresh)();
                    let full = m.len() == w.capacity();
                    assert_eq!(w.push_item(x.clone()).is_err(), full, "refused");
                    if !full {
                        m.push(x);
                    }
                }
                2 => {
                    let len = w.len();
                    let room = w.spare_capacity();
                    let k = room.len().min(n as usize);
                    for r in &mut room[..k] {
                        let x = (self.fresh)();
                        r.write(x.clone());
                        m.push(x);
                    }
                    unsafe { w.set_len(len + k) };
                }
                3 => {
                    let k = m.len().saturating_sub(n as usize);
                    w.shrink_to(k);
                    m.truncate(k);
                }
                _ => {
                    if let (Some(a), Some(b)) = (w.as_mut_slice().first_mut(), m.first_mut()) {
                        let x = (self.fresh)();
                        *a = x.clone();
                        *b = x;
                    }
                }
            }
            assert_eq!(w.as_slice(), &m[..], "contents of the writer (writer, vector)");
            assert_eq!(w.len(), m.len());
            assert_eq!(w.spare_capacity().len(), w.capacity() - m.len());
        }
        std::future::ready(if end == 0 {
            w.cancel(7)
        } else {
            self.sent.borrow_mut().extend(m);
            w.advance()
        })
    }
}

fn writer(c: &mut Choices) {
    let loads: Vec<_> = (0..c.to(5))
        .map(|_| (c.to(6), (0..c.to(6)).map(|_| (c.to(5), c.to(4))).collect(), c.to(4)))
        .collect();
    let extra = c.to(4);
    fn drive<T, S, E: std::fmt::Debug>(src: S, loads: usize, c: &mut Choices, want: &dyn Fn() -> Vec<T>, extra: u32)
    where
        T: PartialEq + std::fmt::Debug + Clone,
        S: SequenceSource<Item = T, Error = E>,
        E: 'static,
    {
        let (mut b, mut l) = GenericSequenceBuilder::verif_new(Extra(extra)).build(src);
        let mut passed = 0;
        for _ in 0..=loads {
            match block_on(l.load()) {
                Ok(i) if i.is_done() => break,
                Ok(_) | Err(_) => {}
            }
            if c.to(3) == 0 {
                l.force_commit();
            }
            if c.to(4) == 0 {
                let n = c.to(4) as usize;
                passed += n - b.advance(n);
            }
            let got: Vec<T> = b.segments().flatten().cloned().collect();
            let want = want();
            assert!(want[passed..].starts_with(&got), "visible {got:?}, sent {want:?}, passed {passed}");
        }
        l.force_commit();
        let got: Vec<T> = b.segments().flatten().cloned().collect();
        assert_eq!(got, want()[passed..], "everything (visible, sent)");
        // in either order
        if c.yes() {
            drop(b);
        }
    }
    let n = loads.len();
        let sent = Rc::new(RefCell::new(vec![]));
        let mut i = 0;
        let src = Script {
            loads,
            i: 0,
            fresh: Box::new(move || {
                i += 1;
                Box::new(i)
            }),
            sent: sent.clone(),
        };
        drive::<Box<u32>, _, u32>(src, n, c, &|| sent.borrow().clone(), extra)
}

// ----------------------------------------------------------------

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (engine, len): (fn(&mut Choices), usize) = match args[1].as_str() {
        "notify" => (notify, 16),
        "stream" => (stream, 56),
        "parse" => (parse, 66),
        "buffer" => (buffer, 60),
        "leave" => (leave, 70),
        "text" => (text, 40),
        "vector" => (vector, 50),
        "writer" => (writer, 60),
        e => panic!("unknown engine {e}"),
    };
    // drawn in any case, so that a case given runs under the same schedule everywhere
    let mut rng = Rng(std::collections::hash_map::RandomState::new().build_hasher().finish() | 1);
    let mut run = |list| {
        SEEN.store(0, Relaxed);
        engine(&mut Choices { list, i: 0 });
        eprintln!("DONE {}", SEEN.load(Relaxed));
    };
    if args[2] == "case" {
        return run(args[3].split(',').filter_map(|x| x.parse().ok()).collect());
    }
    for _ in 0..args[2].parse::<u32>().unwrap() {
        // enough to compute the list
        eprintln!("CASE {} {len}", rng.0);
        run((0..len).map(|_| rng.next() as u32 % 60).collect());
    }
}
