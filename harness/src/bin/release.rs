//! C24: what the reader has passed is released.
use parcom_core::{Parser, Sequence};
use parcom_parsers::primitive::{any_item, atom};
use parcom_runners::default_runner::DefaultSequence;
use parcom_sequence_core::{
    BufferWriter, SequenceBuffer, SequenceBuilder, SequenceControl, SequenceLoader, SequenceSource,
};
use parcom_sequences::generic::{GenericSequenceBuffer, GenericSequenceBuilder};
use parcom_sequences::BufferStrategy;
use pbt::feed::{NoLoader, NoSource, With};
use pbt::fw::exec::Count;
use pbt::fw::guard::{counters, take_fault, Guard};
use pbt::fw::{catch, Check, Obs, Tier};
use pbt::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::marker::PhantomData;
use std::pin::{pin, Pin};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

#[global_allocator]
static GUARD: Guard = Guard;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}

/// an item that is counted while it lives
struct T {
    val: u32,
    _heap: Box<u32>,
}
const ITEM: i64 = std::mem::size_of::<T>() as i64;
impl T {
    fn new(val: u32) -> T {
        LIVE.set(LIVE.get() + 1);
        T { val, _heap: Box::new(val) }
    }
}
impl Clone for T {
    fn clone(&self) -> T {
        T::new(self.val)
    }
}
impl PartialEq for T {
    fn eq(&self, o: &T) -> bool {
        self.val == o.val
    }
}
impl Drop for T {
    fn drop(&mut self) {
        LIVE.set(LIVE.get() - 1);
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Piece {
    items: u8,
    want: u8,
    /// the source is not ready at once
    naps: u8,
    fails: bool,
}
struct Src {
    plan: Vec<Piece>,
    i: usize,
    left: u32,
    next: u32,
}
struct Nap(bool);
impl Future for Nap {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if std::mem::replace(&mut self.0, true) {
            return Poll::Ready(());
        }
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
impl SequenceSource for Src {
    type Item = T;
    type Error = ();
    type Next<'a, C>
        = Pin<Box<dyn Future<Output = C::Result> + 'a>>
    where
        C: 'a + SequenceControl<Item = T, Error = ()>;
    fn next<'a, C>(&'a mut self, control: C, _: usize) -> Self::Next<'a, C>
    where
        C: 'a + SequenceControl<Item = T, Error = ()>,
    {
        Box::pin(async move {
            if self.left == 0 {
                return control.finish();
            }
            let p = self.plan[self.i % self.plan.len()].clone();
            self.left -= 1;
            for _ in 0..p.naps / 2 {
                Nap(false).await;
            }
            let mut w = control.request_writer(p.want as usize);
            let mut v = self.next;
            for _ in 0..p.items.min(p.want) {
                if w.push_item(T::new(v)).is_err() {
                    break;
                }
                v += 1;
            }
            for _ in 0..p.naps.div_ceil(2) {
                Nap(false).await;
            }
            self.i += 1;
            if p.fails {
                return w.cancel(());
            }
            self.next = v;
            w.advance()
        })
    }
}
/// grants `factor` times what is asked for, and at least `least`
struct Grants {
    factor: usize,
    least: usize,
}
impl BufferStrategy for Grants {
    fn calc_capacity(&self, min: usize) -> usize {
        (min * self.factor).max(self.least)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Load,
    /// a load dropped after so many polls
    GiveUp(u8),
    Commit,
    /// skip as much as that
    Adv(u8),
    /// skip all that is there
    All,
    Read,
    Any,
    /// read so many items as a literal
    Literal(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    plan: Vec<Piece>,
    /// how many pieces the source gives
    pieces: u16,
    factor: u8,
    least: u8,
    /// performed over and over, so many in total
    ops: Vec<Op>,
    rounds: u16,
    /// through the streaming sequence and parsers, or the buffer itself
    parse: bool,
    drop_buffer: bool,
}

/// what was loaded, as the loader reports it
#[derive(Default)]
struct Book {
    /// start and capacity (at most) of each committed piece
    segs: Vec<(u32, i64)>,
    committed: u32,
    held: u32,
    cap: i64,
    ended: bool,
    passed: u32,
    pos: u32,
    most: i64,
}
impl Book {
    fn commit(&mut self, n: u32) {
        self.segs.push((self.committed, self.most));
        self.committed += n;
    }
    /// from which item on the items may still be there
    fn from(&self) -> u32 {
        self.segs.iter().rev().map(|s| s.0).find(|s| *s < self.pos).unwrap_or(0)
    }
    fn check(&self, at: &str, clones: i64, base: i64, extra: i64) -> Result<(), String> {
        let live = LIVE.get() - clones;
        let from = self.from();
        let most = (self.committed - from + self.held) as i64;
        ensure!(
            live <= most,
            "{at}: {live} items are kept, of which {} are needed and {} more may share their segment (position {}, loaded {})",
            self.committed - self.pos + self.held,
            self.pos - from,
            self.pos,
            self.committed + self.held
        );
        let least = (self.committed - self.pos + self.held) as i64;
        ensure!(live >= least, "{at}: {live} items are alive, {least} are still to be read");
        let segs: i64 = self.segs.iter().filter(|s| s.0 >= from).map(|s| s.1 * ITEM + 256).sum();
        let bytes = counters().live_bytes - base;
        let bound = 4096 + extra + segs + (self.most + self.cap) * ITEM + (LIVE.get()) * 8;
        ensure!(bytes <= bound, "{at}: {bytes} bytes are held for {live} items, expected at most {bound}");
        Ok(())
    }
}

fn step<F: Future>(fut: &mut Pin<&mut F>, polls: &mut Option<u8>, mut idle: impl FnMut() -> bool) -> Result<Option<F::Output>, String> {
    let count = Arc::new(Count::default());
    let waker: Waker = count.clone().into();
    let mut cx = Context::from_waker(&waker);
    let mut seen = 0;
    for n in 0u64.. {
        if let Some(p) = polls {
            if *p == 0 {
                return Ok(None);
            }
            *p -= 1;
        }
        if let Poll::Ready(v) = fut.as_mut().poll(&mut cx) {
            return Ok(Some(v));
        }
        ensure!(n < 100_000, "does not end");
        while count.get() == seen {
            if !idle() {
                return Err("suspended, but nothing will wake it".into());
            }
        }
        seen = count.get();
    }
    unreachable!()
}

type Buf = GenericSequenceBuffer<T>;
type Loader = <GenericSequenceBuilder<Grants> as SequenceBuilder<Src>>::Loader;

fn load(loader: &mut Loader, b: &mut Book, polls: Option<u8>) -> Result<(), String> {
    let mut polls = polls;
    let r = {
        let f = pin!(loader.load());
        let mut f = f;
        step(&mut f, &mut polls, || false)?
    };
    if let Some(Ok(i)) = r {
        if i.is_done() {
            b.commit(i.commited() as u32);
            b.held = 0;
            b.ended = true;
            b.cap = 0;
        } else {
            if i.commited() > 0 {
                b.commit(i.commited() as u32);
            }
            b.held = i.uncommited() as u32;
            b.cap = i.buffer_capacity() as i64;
        }
    }
    Ok(())
}

fn run(c: &Case) -> Result<Book, String> {
    if c.plan.is_empty() || c.ops.is_empty() {
        return Ok(Book::default());
    }
    let src = Src { plan: c.plan.clone(), i: 0, left: c.pieces as u32, next: 0 };
    let strategy = Grants { factor: c.factor as usize, least: c.least as usize };
    let most = 255 * c.factor.max(1) as i64 + c.least as i64;
    let (buf, mut loader) = GenericSequenceBuilder::verif_new(strategy).build(src);
    let mut b = Book { most: c.plan.iter().map(|p| p.want as i64 * c.factor as i64).max().unwrap_or(most).max(c.least as i64), ..Book::default() };
    b.segs.reserve(c.pieces as usize * 2 + c.rounds as usize + 8);
    if c.parse {
        return parse(c, buf, loader, b);
    }
    let mut buf: Option<Buf> = Some(buf);
    let base = counters().live_bytes;
    for n in 0..c.rounds as usize {
        let op = &c.ops[n % c.ops.len()];
        match (op, &mut buf) {
            (Op::Load, _) => load(&mut loader, &mut b, None)?,
            (Op::GiveUp(p), _) => load(&mut loader, &mut b, Some(*p))?,
            (Op::Commit, _) => {
                loader.force_commit();
                let n = std::mem::take(&mut b.held);
                b.commit(n);
                b.cap = 0;
            }
            (Op::Read, Some(buf)) => {
                let mut next = b.pos;
                for s in buf.segments() {
                    for i in s {
                        ensure_eq!(i.val, next, "item read");
                        next += 1;
                    }
                }
                ensure_eq!(next, b.committed, "end of the data at");
            }
            (Op::Adv(_) | Op::All | Op::Any | Op::Literal(_), Some(buf)) => {
                let k = match op {
                    Op::Adv(k) | Op::Literal(k) => *k as u32,
                    Op::Any => 1,
                    _ => b.committed - b.pos,
                };
                let left = buf.advance(k as usize) as u32;
                let passed = k.min(b.committed - b.pos);
                ensure_eq!(left, k - passed, "left to advance");
                b.pos += passed;
                b.passed += passed;
            }
            (_, None) => {}
        }
        if buf.is_none() {
            // nobody can read any more
            b.pos = b.committed;
        }
        b.check(&format!("after step {n} {op:?}"), 0, base, 0)?;
        if c.drop_buffer && n == c.rounds as usize / 2 && buf.take().is_some() {
            b.pos = b.committed;
            b.check("after dropping the buffer", 0, base, 0)?;
        }
    }
    drop(loader);
    if let Some(buf) = buf.take() {
        b.held = 0;
        b.check("after dropping the loader", 0, base, 0)?;
        drop(buf);
    }
    ensure_eq!(LIVE.get(), 0, "items alive at the end");
    Ok(b)
}

fn parse(c: &Case, buf: Buf, mut loader: Loader, b: Book) -> Result<Book, String> {
    let mut seq: DefaultSequence<NoSource<T>, With<Buf>> = DefaultSequence::new(buf, NoLoader(PhantomData));
    let (notify, done) = seq.verif_producer_handles();
    let base = counters().live_bytes;
    let b = RefCell::new(b);
    let mut n = 0usize;
    let mut fault = None;
    let force = c.drop_buffer;
    let mut pump = || -> bool {
        let mut b = b.borrow_mut();
        if b.ended || fault.is_some() {
            return false;
        }
        n += 1;
        if let Err(e) = load(&mut loader, &mut b, None) {
            fault = Some(e);
            return false;
        }
        if force && n % 2 == 0 && !b.ended {
            loader.force_commit();
            let held = std::mem::take(&mut b.held);
            b.commit(held);
            b.cap = 0;
        }
        if b.ended {
            done.store(true, SeqCst);
        }
        notify.send();
        true
    };
    let mut alive = true;
    for n in 0..c.rounds as usize {
        let op = &c.ops[n % c.ops.len()];
        let at = b.borrow().pos;
        let took = match op {
            Op::Load | Op::GiveUp(_) | Op::Commit => {
                pump();
                0
            }
            Op::Adv(k) => {
                let f = pin!(seq.advance(*k as usize));
                let mut f = f;
                seq = step(&mut f, &mut None, &mut pump)?.unwrap();
                let b = b.borrow();
                (*k as u32).min(b.committed - at)
            }
            Op::Literal(k) => {
                let lit: Vec<T> = (0..*k as u32).map(|i| T::new(at + i)).collect();
                let p = atom(lit);
                let f = pin!(p.parse(seq));
                let mut f = f;
                match step(&mut f, &mut None, &mut pump)?.unwrap() {
                    Ok((_, s)) => {
                        seq = s;
                        *k as u32
                    }
                    Err(_) => {
                        alive = false;
                        break;
                    }
                }
            }
            Op::All | Op::Any | Op::Read => {
                let p = any_item::<T, _>();
                let f = pin!(p.parse(seq));
                let mut f = f;
                match step(&mut f, &mut None, &mut pump)?.unwrap() {
                    Ok((v, s)) => {
                        ensure_eq!(v.val, at, "any item");
                        seq = s;
                        1
                    }
                    Err(_) => {
                        alive = false;
                        break;
                    }
                }
            }
        };
        let mut b = b.borrow_mut();
        b.pos += took;
        b.passed += took;
        ensure!(b.pos <= b.committed, "{op:?}: more was read than loaded");
        // the waiting list of the signal keeps its room
        b.check(&format!("after step {n} {op:?}"), 0, base, 4096)?;
    }
    if let Some(f) = fault.take() {
        return Err(format!("load: {f}"));
    }
    let mut b = b.into_inner();
    if alive {
        drop(loader);
        b.held = 0;
        b.check("after dropping the loader", 0, base, 4096)?;
    } else {
        // the failed parser has dropped the sequence
        b.pos = b.committed;
        b.check("after the sequence was dropped", 0, base, 4096)?;
        drop(loader);
        return Ok(b);
    }
    Ok(b)
}

struct C24;
impl Check for C24 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C24"
    }
    fn rule(&self) -> &'static str {
        "a source of up to hundreds of pieces (suspensions, failures), capacities granted, and up to hundreds of loads, given-up loads, forced commits, reads, skips, item and literal parses, on the buffer or through the streaming sequence; after every step no item behind the segment of the reader's position is alive, none still to be read is dropped, and the heap held is bounded by the segments still needed. Non-trivial: at least 3 segments lie behind the reader"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(1_500_000, 40_000_000)
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Case> {
        let many = t.pick(300u16, 1500);
        let piece = (0u8..12, prop_oneof![8 => 0u8..12, 1 => 0u8..=255], 0u8..4, prop::bool::weighted(0.05))
            .prop_map(|(items, want, naps, fails)| Piece { items, want, naps, fails });
        let op = prop_oneof![
            4 => Just(Op::Load),
            1 => (0u8..4).prop_map(Op::GiveUp),
            1 => Just(Op::Commit),
            3 => (0u8..20).prop_map(Op::Adv),
            1 => Just(Op::All),
            1 => Just(Op::Read),
            2 => Just(Op::Any),
            1 => (0u8..9).prop_map(Op::Literal),
        ];
        (
            prop::collection::vec(piece, 1..8),
            prop_oneof![4 => 0u16..30, 1 => 0u16..many],
            1u8..4,
            prop_oneof![2 => Just(0u8), 1 => 0u8..40],
            prop::collection::vec(op, 1..10),
            prop_oneof![4 => 0u16..60, 1 => 0u16..many],
            any::<bool>(),
            any::<bool>(),
        )
            .prop_map(|(plan, pieces, factor, least, ops, rounds, parse, drop_buffer)| Case {
                plan,
                pieces,
                factor,
                least,
                ops,
                rounds,
                parse,
                drop_buffer,
            })
            .boxed()
    }
    fn run(&self, c: &Case, ob: &mut Obs) -> Result<(), String> {
        LIVE.set(0);
        take_fault();
        let r = catch(|| run(c)).and_then(|r| r);
        let b = match (take_fault(), r) {
            (Some(f), _) => return Err(format!("heap fault: {f}")),
            (None, r) => r?,
        };
        ensure_eq!(LIVE.get(), 0, "items alive after everything was dropped");
        let behind = b.segs.iter().filter(|s| s.0 < b.pos).count();
        ob.nontrivial = behind >= 3;
        ob.label(if c.parse { "through the streaming sequence" } else { "buffer" });
        ob.label_if(behind >= 50, "fifty or more segments passed");
        ob.label_if(b.ended, "loaded to the end");
        Ok(())
    }
}

fn main() {
    pbt::fw::main(&[&C24]);
}
