//! C12-C14, C16, C21: the generic loaded sequence and its writers. C15: UTF-8 validation.
use parcom_sequence_core::{
    BufferWriter, SequenceBuffer, SequenceBuilder, SequenceControl, SequenceLoader, SequenceSource,
};
use parcom_sequence_sources::iterator_source::IteratorSource;
use parcom_sequence_sources::utf8_validator::{Utf8ValidationError, Utf8Validator};
use parcom_sequences::generic::GenericSequenceBuilder;
use parcom_sequences::BufferStrategy;
use parcom_runners::default_runner::DefaultSequence;
use pbt::feed::{NoLoader, NoSource, With};
use pbt::fw::exec::Count;
use pbt::fw::guard::Guard;
use pbt::fw::tracked::{self, Tracked};
use pbt::fw::{catch, exec, Check, Obs, Tier};
use pbt::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::fmt::Debug;
use std::future::Future;
use std::marker::PhantomData;
use std::mem::MaybeUninit;
/// distances from here on: far past the end
const FAR: u32 = u32::MAX - 255;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

#[global_allocator]
static GUARD: Guard = Guard;

type Fut<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;

struct Pend(u8);
impl Future for Pend {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

trait Item: Sized + 'static {
    const ZST: bool = false;
    fn make(v: u32) -> Self;
    fn val(&self) -> Result<u32, String>;
    fn norm(v: u32) -> u32 {
        v
    }
}
impl Item for Tracked {
    fn make(v: u32) -> Self {
        Tracked::new(v)
    }
    fn val(&self) -> Result<u32, String> {
        self.get()
    }
}
impl Item for () {
    const ZST: bool = true;
    fn make(_: u32) {}
    fn val(&self) -> Result<u32, String> {
        Ok(0)
    }
    fn norm(_: u32) -> u32 {
        0
    }
}
impl Item for u8 {
    fn make(v: u32) -> u8 {
        [b'a', 0xC3, 0xA9, b'b'][v as usize % 4]
    }
    fn val(&self) -> Result<u32, String> {
        Ok(*self as u32)
    }
    fn norm(v: u32) -> u32 {
        Self::make(v) as u32
    }
}
#[repr(align(32))]
struct Wide(u32);
impl Item for Wide {
    fn make(v: u32) -> Wide {
        Wide(v)
    }
    fn val(&self) -> Result<u32, String> {
        Ok(self.0)
    }
}
fn vals<'a, T: Item>(i: impl IntoIterator<Item = &'a T>) -> Result<Vec<u32>, String> {
    i.into_iter().map(|x| x.val()).collect()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum WOp {
    Push,
    /// push up to n, while there is room
    Fill(u32),
    /// write into the spare capacity and set the length
    Raw(u32),
    /// to a number of items; possibly the destructor of a removed item panics
    Shrink(u32, Option<u16>),
    Swap(u8, u8),
    Read,
    Pend(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum End {
    Advance,
    CancelWriter,
    CancelControl,
    /// the source panics: before it asks for a writer, while it holds it, after it handed it in
    Panic(u8),
}
/// what panicking user code says
const BANG: &str = "scripted panic";
/// surplus capacities: the strategy panics, the strategy grants more than there is memory
const BAD_STRATEGY: [u16; 2] = [u16::MAX, u16::MAX - 1];
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Chunk {
    want: u32,
    ops: Vec<WOp>,
    /// suspensions before the writer is requested and after it was handed in
    pend: [u8; 2],
    /// the source does its work when asked, not when polled
    eager: bool,
    end: End,
}

#[derive(Default)]
struct Shared {
    /// how often the source was asked
    asked: u32,
    writer_faults: Vec<String>,
    content_faults: Vec<String>,
    next: u32,
    /// what the current load has handed in, if it has
    handed: Option<Vec<u32>>,
    /// a writer was used in the current load
    wrote: bool,
    finished: bool,
    code: u32,
    full: u64,
    shrunk: u64,
    bombs: u64,
}
struct Script<T> {
    plan: Rc<Vec<Chunk>>,
    i: usize,
    sh: Rc<RefCell<Shared>>,
    t: PhantomData<T>,
}

impl<T: Item> SequenceSource for Script<T> {
    type Item = T;
    type Error = u32;
    type Next<'a, C>
        = Fut<'a, C::Result>
    where
        C: 'a + SequenceControl<Item = T, Error = u32>;
    fn next<'a, C>(&'a mut self, control: C, _: usize) -> Self::Next<'a, C>
    where
        C: 'a + SequenceControl<Item = T, Error = u32>,
    {
        self.sh.borrow_mut().asked += 1;
        let eager = self.plan.get(self.i).is_none_or(|c| c.eager);
        let mut fut: Fut<'a, C::Result> = Box::pin(self.step(control, eager));
        if eager {
            match fut.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
                Poll::Ready(r) => return Box::pin(std::future::ready(r)),
                Poll::Pending => unreachable!(),
            }
        }
        fut
    }
}
impl<T: Item> Script<T> {
    async fn step<C: SequenceControl<Item = T, Error = u32>>(&mut self, control: C, eager: bool) -> C::Result {
        let sh = self.sh.clone();
        let Some(c) = self.plan.get(self.i).cloned() else {
            sh.borrow_mut().finished = true;
            return control.finish();
        };
        let p = |n: u8| Pend(if eager { 0 } else { n });
        p(c.pend[0]).await;
        let code = 1000 + self.i as u32;
        if c.end == End::Panic(0) {
            self.i += 1;
            panic!("{BANG}");
        }
        if c.end == End::CancelControl {
            self.i += 1;
            sh.borrow_mut().code = code;
            return control.cancel(code);
        }
        self.i += 1;
        let mut w = control.request_writer(c.want as usize);
        sh.borrow_mut().wrote = true;
        let cap = w.capacity();
        let counted = std::any::type_name::<T>() == std::any::type_name::<Tracked>();
        let mut model: Vec<u32> = vec![];
        let fault = |s: String| sh.borrow_mut().writer_faults.push(s);
        if cap < c.want as usize {
            fault(format!("capacity {cap} for a request of {}", c.want));
        }
        if w.len() != 0 || !w.as_slice().is_empty() {
            fault(format!("a new writer holds {} items", w.len()));
        }
        let fresh = || {
            let mut s = sh.borrow_mut();
            s.next += 1;
            s.next
        };
        for op in &c.ops {
            match op {
                WOp::Push => {
                    let v = fresh();
                    match w.push_item(T::make(v)) {
                        Ok(()) => {
                            if model.len() >= cap {
                                fault(format!("pushed item {} into a writer of capacity {cap}", model.len() + 1));
                            }
                            model.push(v);
                        }
                        Err(back) => {
                            if back.val() != Ok(T::norm(v)) {
                                fault(format!("the item handed back is {:?}, pushed {v}", back.val()));
                            }
                            if model.len() < cap {
                                fault(format!("push refused with {} of {cap} items held", model.len()));
                            } else {
                                sh.borrow_mut().full += 1;
                            }
                            if model.len() < c.want as usize {
                                sh.borrow_mut()
                                    .content_faults
                                    .push(format!("an item was refused with {} of the {} requested items held", model.len(), c.want));
                            }
                        }
                    }
                }
                WOp::Fill(n) => {
                    for _ in 0..*n {
                        let v = fresh();
                        if w.push_item(T::make(v)).is_ok() {
                            model.push(v);
                        } else if model.len() < cap {
                            fault(format!("push refused with {} of {cap} items held", model.len()));
                            if model.len() < c.want as usize {
                                sh.borrow_mut()
                                    .content_faults
                                    .push(format!("an item was refused with {} of the {} requested items held", model.len(), c.want));
                            }
                            break;
                        } else {
                            sh.borrow_mut().full += 1;
                            break;
                        }
                    }
                    if model.len() > cap {
                        fault(format!("holds {} items with capacity {cap}", model.len()));
                    }
                }
                WOp::Raw(n) => {
                    let len = w.len();
                    let spare: &mut [MaybeUninit<T>] = w.spare_capacity();
                    let room = spare.len();
                    if room != cap.wrapping_sub(len) {
                        fault(format!("spare capacity {room} with {len} of {cap} items"));
                    }
                    // only ever touch what the writer really has room for
                    let k = (*n as usize).min(room).min(cap.saturating_sub(model.len()));
                    for slot in &mut spare[..k] {
                        let v = fresh();
                        slot.write(T::make(v));
                        model.push(v);
                    }
                    // SAFETY: k more items were written
                    unsafe { w.set_len(len + k) };
                }
                WOp::Shrink(n, bomb) => {
                    let to = *n as usize % (model.len() + 1);
                    let before = tracked::live();
                    let gone = model.len() - to;
                    // how many are left: exactly `to`, unless a destructor panicked on the way
                    let mut left = to;
                    let mut bombed = false;
                    match bomb {
                        Some(b) if gone > 0 && counted => {
                            tracked::arm(Some(model[to + *b as usize % gone]));
                            bombed = pbt::fw::catch(|| w.shrink_to(to)).is_err();
                            tracked::arm(None);
                            if bombed && (to..model.len()).contains(&w.len()) {
                                left = w.len();
                            }
                            sh.borrow_mut().bombs += bombed as u64;
                        }
                        _ => w.shrink_to(to),
                    }
                    model.truncate(left);
                    if gone > 0 {
                        sh.borrow_mut().shrunk += 1;
                    }
                    // items may be leaked when a destructor panics, but what is left is alive and nothing is dropped twice
                    if counted && !bombed {
                        let dropped = before - tracked::live();
                        if dropped != gone as i64 {
                            fault(format!("shrinking by {gone} dropped {dropped} items"));
                        }
                    }
                }
                WOp::Swap(i, j) => {
                    if !model.is_empty() {
                        let (i, j) = (*i as usize % model.len(), *j as usize % model.len());
                        let s = w.as_mut_slice();
                        if s.len() == model.len() {
                            s.swap(i, j);
                            model.swap(i, j);
                        }
                    }
                }
                WOp::Read => {}
                WOp::Pend(n) => p(*n).await,
            }
            if matches!(op, WOp::Pend(_)) {
                continue;
            }
            let want: Vec<u32> = model.iter().map(|v| T::norm(*v)).collect();
            match vals(w.as_slice()) {
                Ok(v) if v == want => {}
                r => fault(format!("after {op:?}: contents {r:?}, written {want:?}")),
            }
            if w.len() != model.len() {
                fault(format!("after {op:?}: length {}, written {}", w.len(), model.len()));
            }
            if w.capacity() != cap {
                fault(format!("after {op:?}: capacity {} was {cap}", w.capacity()));
            }
            let spare = w.spare_capacity().len();
            if spare != cap.wrapping_sub(model.len()) {
                fault(format!("after {op:?}: spare capacity {spare}, length {}, capacity {cap}", model.len()));
            }
        }
        if c.end == End::Panic(1) {
            panic!("{BANG}");
        }
        if c.end == End::CancelWriter {
            sh.borrow_mut().code = code;
            return w.cancel(code);
        }
        sh.borrow_mut().handed = Some(model.iter().map(|v| T::norm(*v)).collect());
        let r = w.advance();
        p(c.pend[1]).await;
        if c.end == End::Panic(2) {
            panic!("{BANG}");
        }
        r
    }
}

/// the chunks of the plan as an iterator
struct Chunks {
    script: Script<Tracked>,
}
impl Iterator for Chunks {
    type Item = Vec<Tracked>;
    fn next(&mut self) -> Option<Vec<Tracked>> {
        let mut sh = self.script.sh.borrow_mut();
        sh.asked += 1;
        let Some(c) = self.script.plan.get(self.script.i) else {
            sh.finished = true;
            return None;
        };
        self.script.i += 1;
        let first = sh.next + 1;
        sh.next += c.want as u32;
        sh.wrote = true;
        let v: Vec<u32> = (first..first + c.want as u32).collect();
        sh.handed = Some(v.clone());
        Some(v.into_iter().map(Tracked::new).collect())
    }
}

struct Strat {
    extra: Vec<u16>,
    i: Cell<usize>,
    calls: Cell<u64>,
}
impl BufferStrategy for Strat {
    fn calc_capacity(&self, min: usize) -> usize {
        self.calls.set(self.calls.get() + 1);
        let i = self.i.get();
        self.i.set(i + 1);
        let extra = if self.extra.is_empty() { 0 } else { self.extra[i % self.extra.len()] };
        if extra == BAD_STRATEGY[0] {
            panic!("{BANG}");
        }
        min + if extra == BAD_STRATEGY[1] { isize::MAX as usize } else { extra as usize }
    }
}
fn strat(extra: &[u16]) -> Strat {
    Strat { extra: extra.to_vec(), i: Cell::new(0), calls: Cell::new(0) }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Load,
    /// poll a load at most n times, then drop it if it is not done
    Abandon(u8),
    Force,
    /// from FAR on: far past the end
    Adv(u32),
    Read,
    /// look at the first n segments only
    Some(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Kind {
    Tracked,
    Unit,
    Wide,
    /// through the UTF-8 validator (writers only)
    Utf8,
    /// the library's source over an iterator of chunks (of the wanted sizes)
    Iter,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    plan: Vec<Chunk>,
    extra: Vec<u16>,
    ops: Vec<Op>,
    /// load until done at the end
    drain: bool,
    loader_first: bool,
}

fn visible<T: Item, B: SequenceBuffer<Segment = [T]>>(b: &B) -> Result<Vec<u32>, String> {
    let mut out = vec![];
    for s in b.segments() {
        out.extend(vals(s)?);
    }
    Ok(out)
}

/// drives a load: Ok(Some(r)) done, Ok(None) dropped before it was
fn drive<F: Future>(fut: F, max: Option<u8>) -> Result<Option<F::Output>, String> {
    match max {
        None => exec::run(fut, 100_000).map(Some),
        Some(n) => {
            let mut fut = Box::pin(fut);
            let w: Waker = Arc::new(Count::default()).into();
            for _ in 0..n {
                if let Poll::Ready(r) = fut.as_mut().poll(&mut Context::from_waker(&w)) {
                    return Ok(Some(r));
                }
            }
            Ok(None)
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Prop {
    C12,
    C13,
    C14,
    C16,
}
#[derive(Default)]
struct Stats {
    loads: u64,
    commits: u64,
    failed: u64,
    failed_dirty: u64,
    abandoned: u64,
    panicked: u64,
    abandoned_dirty: u64,
    done: bool,
    across: bool,
    full: u64,
    shrunk: u64,
    bombs: u64,
}

struct World<T, B> {
    buf: Option<B>,
    /// everything loaded so far; more than one possibility after a load was dropped that had handed its items in
    alts: Vec<Vec<u32>>,
    skipped: usize,
    seen: usize,
    t: PhantomData<T>,
}
impl<T: Item, B: SequenceBuffer<Segment = [T], Length = usize>> World<T, B> {
    /// checks the visible content; returns how many items were ever visible
    fn look(&mut self, what: &str, complete: bool) -> Result<usize, String> {
        let v = visible::<T, B>(self.buf.as_ref().unwrap())?;
        let end = self.skipped + v.len();
        let skipped = self.skipped;
        let before = self.alts.clone();
        self.alts
            .retain(|a| a.get(skipped..end) == Some(&v[..]) && (!complete || a.len() == end));
        ensure!(
            !self.alts.is_empty(),
            "{what}: visible after skipping {skipped}: {v:?}{}, loaded so far {:?}",
            if complete { " (all must be visible)" } else { "" },
            before[0]
        );
        ensure!(end >= self.seen, "{what}: {} items were visible, now {end}", self.seen);
        self.seen = end;
        Ok(end)
    }
}

fn play<T: Item, S, E>(
    prop: Prop,
    c: &Case,
    wrap: impl FnOnce(Script<T>) -> S,
    code: impl Fn(&E) -> Option<u32>,
    contents: bool,
    st: &mut Stats,
) -> Result<(), String>
where
    S: SequenceSource<Item = T, Error = E>,
{
    let sh = Rc::new(RefCell::new(Shared::default()));
    let script = Script::<T> { plan: Rc::new(c.plan.clone()), i: 0, sh: sh.clone(), t: PhantomData };
    let builder = GenericSequenceBuilder::verif_new(strat(&c.extra));
    let (buf, loader) = builder.build(wrap(script));
    let mut w: World<T, _> = World { buf: Some(buf), alts: vec![vec![]], skipped: 0, seen: 0, t: PhantomData };
    let mut loader = Some(loader);
    let mut ops: VecDeque<Op> = c.ops.iter().cloned().collect();
    if c.drain {
        ops.extend((0..c.plan.len() + 2).map(|_| Op::Load));
    }
    let mut dirty = false;
    for op in ops {
        let what = format!("{op:?}");
        match &op {
            Op::Load | Op::Abandon(_) => {
                {
                    let mut s = sh.borrow_mut();
                    s.handed = None;
                    s.wrote = false;
                    s.finished = false;
                    s.asked = 0;
                }
                let max = if let Op::Abandon(n) = &op { Some(*n) } else { None };
                let vis = w.seen;
                let r = match catch(|| drive(loader.as_mut().unwrap().load(), max)) {
                    Ok(r) => r?,
                    Err(e) if e.contains(BANG) || e.contains("capacity overflow") => {
                        st.panicked += 1;
                        None
                    }
                    Err(e) => return Err(e),
                };
                let (handed, wrote, finished, want_code) = {
                    let mut s = sh.borrow_mut();
                    (s.handed.take(), s.wrote, s.finished, s.code)
                };
                if !contents {
                    continue;
                }
                match r {
                    Some(Ok(i)) => {
                        st.loads += 1;
                        if prop == Prop::C12 {
                            let n = sh.borrow().asked;
                            ensure!(n <= 1, "{what}: the source was asked for {n} chunks: what came with the first one waits for the others");
                        }
                        if let Some(h) = &handed {
                            w.alts.iter_mut().for_each(|a| a.extend(h));
                        }
                        let now = w.look(&what, i.is_done())?;
                        if prop == Prop::C13 {
                            ensure_eq!(i.commited(), now - vis, "{what}: reported as committed (visible before: {vis})");
                            w.alts.retain(|a| a.len() - now == i.uncommited());
                            ensure!(
                                !w.alts.is_empty(),
                                "{what}: reported {} uncommitted with {now} visible, after loading {handed:?}",
                                i.uncommited()
                            );
                            ensure!(
                                i.buffer_capacity() >= i.uncommited(),
                                "{what}: capacity {} uncommitted {}",
                                i.buffer_capacity(),
                                i.uncommited()
                            );
                            ensure_eq!(i.is_done(), finished, "{what}: reported as done");
                            if i.is_done() {
                                ensure_eq!((i.uncommited(), i.buffer_capacity()), (0, 0), "{what}: done, with (uncommitted, capacity)");
                            }
                        }
                        if i.is_done() {
                            st.done = true;
                        }
                        if now > vis {
                            st.commits += 1;
                        }
                    }
                    Some(Err(e)) => {
                        st.failed += 1;
                        st.failed_dirty += (wrote && w.alts[0].len() > 0) as u64;
                        dirty |= wrote;
                        if prop == Prop::C14 {
                            ensure_eq!(code(&e), Some(want_code), "{what}: error");
                        }
                        let now = w.look(&what, false)?;
                        ensure_eq!(now, vis, "{what}: items visible after a failed load");
                    }
                    None => {
                        st.abandoned += 1;
                        st.abandoned_dirty += (wrote && w.alts[0].len() > 0) as u64;
                        dirty |= wrote;
                        let now;
                        if let Some(h) = handed {
                            // its items were handed in: they may have been taken or not
                            let more: Vec<Vec<u32>> = w.alts.iter().map(|a| [&a[..], &h[..]].concat()).collect();
                            w.alts.extend(more);
                            w.alts.truncate(64);
                            w.look(&what, finished && false)?;
                        } else {
                            now = w.look(&what, false)?;
                            ensure!(
                                now == vis || finished,
                                "{what}: {now} items visible after an abandoned load, {vis} before"
                            );
                        }
                    }
                }
            }
            Op::Force => {
                loader.as_mut().unwrap().force_commit();
                if contents {
                    w.look(&what, true)?;
                }
            }
            Op::Adv(n) => {
                let have = w.seen - w.skipped;
                let n = if *n >= FAR { pbt::seq::far(have, (*n - FAR) as usize) } else { *n as usize % (have + 4) };
                let left = w.buf.as_mut().unwrap().advance(n);
                if contents {
                    ensure_eq!(left, n.saturating_sub(have), "{what}: left of advancing by {n} over {have} visible items");
                    w.skipped += n.min(have);
                    st.across |= n > 0;
                    w.look(&what, false)?;
                }
            }
            Op::Read => {
                if contents {
                    w.look(&what, false)?;
                }
            }
            Op::Some(n) => {
                if contents {
                    let mut got = vec![];
                    for s in w.buf.as_ref().unwrap().segments().take(*n as usize) {
                        got.extend(vals(s)?);
                    }
                    let all = visible::<T, _>(w.buf.as_ref().unwrap())?;
                    ensure!(all.starts_with(&got), "{what}: {got:?} of {all:?}");
                }
            }
        }
    }
    let _ = dirty;
    {
        let s = sh.borrow();
        st.full = s.full;
        st.shrunk = s.shrunk;
        st.bombs = s.bombs;
        if prop == Prop::C16 {
            if let Some(f) = s.writer_faults.first() {
                return Err(format!("writer: {f}"));
            }
        } else if let Some(f) = s.content_faults.first() {
            return Err(format!("source data: {f}"));
        }
    }
    if contents && c.drain {
        ensure!(st.done, "the source is exhausted, but no load reported it");
    }
    if c.loader_first {
        loader = None;
        if contents {
            w.look("loader dropped", false)?;
        }
    }
    drop(w.buf.take());
    drop(loader);
    Ok(())
}

fn run_case(prop: Prop, c: &Case, st: &mut Stats) -> Result<(), String> {
    tracked::reset();
    let id = |e: &u32| Some(*e);
    let contents = prop != Prop::C16;
    match c.kind {
        Kind::Tracked => play::<Tracked, _, u32>(prop, c, |s| s, id, contents, st)?,
        Kind::Unit => play::<(), _, u32>(prop, c, |s| s, id, contents, st)?,
        Kind::Wide => play::<Wide, _, u32>(prop, c, |s| s, id, contents, st)?,
        Kind::Iter => play::<Tracked, _, parcom_core::Never>(
            prop,
            c,
            |script| IteratorSource::new(Chunks { script }),
            |_| None,
            contents,
            st,
        )?,
        Kind::Utf8 => play::<u8, _, Utf8ValidationError<u32>>(
            prop,
            c,
            Utf8Validator::new,
            |e| match e {
                Utf8ValidationError::Inner(e) => Some(*e),
                _ => None,
            },
            false,
            st,
        )?,
    }
    if st.bombs > 0 {
        return match tracked::faults().first() {
            Some(f) => Err(format!("drop accounting: {f}")),
            None => Ok(()),
        };
    }
    tracked::settled()
}

struct Mix {
    fail: u32,
    abandon: u32,
    writer: bool,
}
/// `huge`: chunks of thousands of items, too; more than 1: of nearly 2^16
fn chunk(m: &Mix, t: Tier, huge: u8) -> BoxedStrategy<Chunk> {
    let big = t.pick(24u32, 80);
    let much = if huge > 0 { t.pick(2_500u32, 20_000) } else { 6 };
    let mut want = prop_oneof![2 => Just(0u32), 12 => 1u32..6, 4 => 6u32..big, 1 => pbt::fw::sizes(5..much)].boxed();
    if huge > 1 {
        want = prop_oneof![2 => want, 2 => 65_000u32..66_000, 2 => pbt::fw::sizes(20_000..100_000), 1 => 131_000u32..132_000].boxed();
    }
    // exactly what was asked for, mostly
    let exact = want.clone().prop_flat_map(|w| {
        let push = if w < 100 { vec![WOp::Push; w as usize] } else { vec![WOp::Fill(w)] };
        (Just(w), prop_oneof![3 => Just(push), 1 => Just(vec![WOp::Fill(w)]), 1 => Just(vec![WOp::Raw(w)]), 1 => (0..=w).prop_map(|k| vec![WOp::Fill(k)]), 1 => (0..=w).prop_map(move |k| vec![WOp::Fill(k), WOp::Pend(1), WOp::Raw(w - k)])])
    });
    let bomb = if m.writer { proptest::option::weighted(0.1, any::<u16>()).boxed() } else { Just(None).boxed() };
    let few = move |n: u32| if huge > 1 { prop_oneof![1 => 0..n, 1 => pbt::fw::sizes(0..100_000)].boxed() } else { prop_oneof![30 => 0..n, 1 => pbt::fw::sizes(0..much.max(n))].boxed() };
    let wop = prop_oneof![
        6 => Just(WOp::Push),
        3 => few(12).prop_map(WOp::Fill),
        3 => few(8).prop_map(WOp::Raw),
        3 => (any::<u32>(), bomb.clone()).prop_map(|(n, b)| WOp::Shrink(n, b)),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| WOp::Swap(a, b)),
        1 => Just(WOp::Read),
        1 => (0u8..3).prop_map(WOp::Pend),
    ];
    let free = (want, proptest::collection::vec(wop, 0..14));
    let body = if m.writer { prop_oneof![1 => exact, 4 => free].boxed() } else { prop_oneof![3 => exact, 1 => free].boxed() };
    let end = prop_oneof![
        10 => Just(End::Advance),
        m.fail => Just(End::CancelWriter),
        m.fail.div_ceil(2) => Just(End::CancelControl),
        m.abandon.min(1) => (0u8..3).prop_map(End::Panic),
    ];
    let pend = prop_oneof![2 => Just([0u8, 0]), 1 => [0u8..3, 0u8..3]];
    (body, pend, prop_oneof![3 => Just(false), 1 => Just(true)], end)
        .prop_map(|((want, ops), pend, eager, end)| Chunk { want, ops, pend, eager, end })
        .boxed()
}
fn case(m: Mix, t: Tier, kinds: BoxedStrategy<Kind>) -> BoxedStrategy<Case> {
    // mostly short histories; some long ones, and some over chunks of thousands of items
    let ordinary = sized(&m, t, kinds.clone(), 0, 10, 24);
    let long = sized(&m, t, kinds.clone(), 0, t.pick(120, 500), t.pick(240, 1000));
    let huge = sized(&m, t, kinds.clone(), 1, 8, 24);
    let giant = sized(&m, t, kinds, 2, 4, 12);
    prop_oneof![8000 => ordinary, 40 => long, 80 => huge, 3 => giant].boxed()
}
fn sized(m: &Mix, t: Tier, kinds: BoxedStrategy<Kind>, huge: u8, chunks: usize, ops: usize) -> BoxedStrategy<Case> {
    let op = prop_oneof![
        8 => Just(Op::Load),
        m.abandon => (0u8..6).prop_map(Op::Abandon),
        2 => Just(Op::Force),
        3 => prop_oneof![9 => (0..FAR).prop_map(Op::Adv), 1 => (FAR + 235..=u32::MAX).prop_map(Op::Adv)],
        1 => Just(Op::Read),
        1 => (0u8..4).prop_map(Op::Some),
    ];
    let surplus = if huge > 0 { prop_oneof![1 => 0u16..40, 1 => 0u16..5_000].boxed() } else { (0u16..40).boxed() };
    let bad = (any::<bool>(), proptest::collection::vec(0u16..4, 0..3)).prop_map(|(o, v)| [&v[..], &[BAD_STRATEGY[o as usize]]].concat());
    let extra = prop_oneof![
        m.abandon.min(1) => bad,
        4 => Just(vec![]),
        4 => proptest::collection::vec(0u16..4, 1..4),
        4 => proptest::collection::vec(surplus, 1..4),
    ];
    (
        kinds,
        proptest::collection::vec(chunk(m, t, huge), 0..chunks),
        extra,
        proptest::collection::vec(op, 0..ops),
        any::<bool>(),
        any::<bool>(),
    )
        .prop_map(|(kind, plan, extra, ops, drain, loader_first)| Case { kind, plan, extra, ops, drain, loader_first })
        .boxed()
}
fn kinds(utf8: u32) -> BoxedStrategy<Kind> {
    prop_oneof![6 => Just(Kind::Tracked), 1 => Just(Kind::Unit), 1 => Just(Kind::Wide), 3 => Just(Kind::Iter), utf8 => Just(Kind::Utf8)].boxed()
}

macro_rules! loaded {
    ($c:ident, $id:literal, $n:expr, $rule:literal, $mix:expr, $utf8:expr, |$st:ident| $non:expr) => {
        struct $c;
        impl Check for $c {
            type Case = Case;
            fn id(&self) -> &'static str {
                $id
            }
            fn rule(&self) -> &'static str {
                $rule
            }
            fn cases(&self, t: Tier) -> u64 {
                t.pick($n, $n * 12)
            }
            fn strategy(&self, t: Tier) -> BoxedStrategy<Case> {
                case($mix, t, kinds($utf8))
            }
            fn run(&self, c: &Case, ob: &mut Obs) -> Result<(), String> {
                let mut st = Stats::default();
                let r = run_case(Prop::$c, c, &mut st);
                let $st = &st;
                ob.nontrivial = $non;
                ob.label_if(st.commits > 0, "a load committed items");
                ob.label_if(st.failed_dirty > 0, "a load failed after writing, with items loaded before");
                ob.label_if(st.abandoned_dirty > 0, "a load was dropped after writing, with items loaded before");
                ob.label_if(st.panicked > 0, "the source or the strategy panicked");
                ob.label_if(st.done, "loaded to the end");
                ob.label_if(st.full > 0, "a push was refused");
                ob.label_if(st.shrunk > 0, "shrunk");
                ob.label_if(c.plan.len() > 10, "a long history");
                ob.label_if(c.plan.iter().any(|k| k.want > 500), "a chunk of more than 500 items");
                ob.label_if(c.plan.iter().any(|k| k.want > 60_000), "a chunk of more than 60000 items");
                ob.label_if(st.bombs > 0, "a destructor panicked while shrinking");
                ob.label(match c.kind {
                    Kind::Tracked => "tracked items",
                    Kind::Unit => "zero-sized items",
                    Kind::Wide => "over-aligned items",
                    Kind::Utf8 => "validated bytes",
                    Kind::Iter => "the iterator source",
                });
                r
            }
        }
    };
}
loaded!(
    C12,
    "C12",
    1_000_000,
    "a scripted source (chunks requested and written in several ways, suspending anywhere, eager or lazy), capacities with any surplus, and a history of loads, forced commits, advances and reads; the visible content is compared with what the source handed in after every step, items are drop-counted, and the heap is guarded. Non-trivial: two or more loads, a commit and an advance",
    Mix { fail: 0, abandon: 0, writer: false },
    0,
    |st| st.loads >= 2 && st.commits > 0 && st.across
);
loaded!(
    C13,
    "C13",
    1_000_000,
    "histories as for C12, also with failing and dropped loads; the report of every load is compared with what became visible and what is loaded but not visible. Non-trivial: three or more loads and a commit",
    Mix { fail: 1, abandon: 1, writer: false },
    0,
    |st| st.loads >= 3 && st.commits > 0
);
loaded!(
    C14,
    "C14",
    1_000_000,
    "histories dense in loads that fail before or after writing, and loads dropped before or during their work; after each, the visible content is as before, and at the end everything from successful loads is there once. Non-trivial: a load failed or was dropped after writing while earlier items were loaded",
    Mix { fail: 4, abandon: 6, writer: false },
    0,
    |st| st.failed_dirty + st.abandoned_dirty > 0
);
loaded!(
    C16,
    "C16",
    1_000_000,
    "sources that use their writers as vectors: pushes to and past the capacity, raw writes into the spare capacity, shrinking, swapping, reading back, cancelling and dropping; generic writers over drop-counted, zero-sized and over-aligned items, and the UTF-8 validator's writers; against a vector of fixed capacity, with a guarded heap. Non-trivial: a push was refused or a writer shrunk",
    Mix { fail: 2, abandon: 2, writer: true },
    3,
    |st| st.full + st.shrunk > 0
);

// ------------------------------------------------------------------------------------------- C15

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Feed {
    /// deliver up to the next cut; how the bytes are written
    Give { how: u8, pend: u8 },
    /// write some of it, then fail
    FailWriter(u8),
    FailControl,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case15 {
    /// so many characters of this kind come before the bytes
    pad: (u32, char),
    bytes: Vec<u8>,
    cuts: Vec<u32>,
    feed: Vec<Feed>,
    extra: Vec<u16>,
    /// directly against a recording control, or through a generic sequence (with forced commits)
    direct: bool,
    force: u8,
    iterator: bool,
    /// drop loads after this many polls
    abandon: Option<u8>,
}
struct Bytes {
    data: Rc<Vec<u8>>,
    ends: Vec<usize>,
    i: usize,
    at: usize,
    feed: Vec<Feed>,
    k: usize,
    /// bytes given so far
    given: Rc<Cell<usize>>,
}
impl SequenceSource for Bytes {
    type Item = u8;
    type Error = u32;
    type Next<'a, C>
        = Fut<'a, C::Result>
    where
        C: 'a + SequenceControl<Item = u8, Error = u32>;
    fn next<'a, C>(&'a mut self, control: C, _: usize) -> Self::Next<'a, C>
    where
        C: 'a + SequenceControl<Item = u8, Error = u32>,
    {
        Box::pin(async move {
            let feed = if self.feed.is_empty() {
                Feed::Give { how: 0, pend: 0 }
            } else {
                self.feed[self.k % self.feed.len()].clone()
            };
            self.k += 1;
            let code = self.k as u32;
            let piece = self.ends.get(self.i).map(|e| &self.data[self.at..*e]);
            match (feed, piece) {
                // the plan is endless: errors only now and then
                (Feed::FailControl, _) => control.cancel(code),
                (Feed::FailWriter(n), Some(p)) => {
                    let mut w = control.request_writer(p.len());
                    for b in p.iter().take(n as usize) {
                        let _ = w.push_item(*b);
                    }
                    Pend(n % 2).await;
                    w.cancel(code)
                }
                (_, None) => control.finish(),
                (Feed::Give { how, pend }, Some(p)) => {
                    Pend(pend).await;
                    let mut w = control.request_writer(p.len());
                    match how % 4 {
                        0 => p.iter().for_each(|b| {
                            let _ = w.push_item(*b);
                        }),
                        1 => {
                            let n = w.len();
                            let spare = w.spare_capacity();
                            let k = p.len().min(spare.len());
                            for (s, b) in spare.iter_mut().zip(p) {
                                s.write(*b);
                            }
                            unsafe { w.set_len(n + k) };
                        }
                        2 => {
                            // something else first
                            for _ in 0..p.len() {
                                let _ = w.push_item(0xFF);
                            }
                            w.shrink_to(0);
                            p.iter().for_each(|b| {
                                let _ = w.push_item(*b);
                            });
                        }
                        _ => {
                            let half = p.len() / 2;
                            p[..half].iter().for_each(|b| {
                                let _ = w.push_item(*b);
                            });
                            Pend(pend).await;
                            p[half..].iter().for_each(|b| {
                                let _ = w.push_item(*b);
                            });
                        }
                    }
                    self.at += p.len();
                    self.given.set(self.at);
                    self.i += 1;
                    w.advance()
                }
            }
        })
    }
}

/// a control that records what it is given
struct Rec<'a> {
    extra: usize,
    out: &'a mut Out,
}
#[derive(Default)]
struct Out {
    pieces: Vec<Vec<u8>>,
}
enum RecRes {
    Piece,
    Err(Utf8ValidationError<u32>),
    Finish,
}
struct RecW<'a> {
    buf: Vec<u8>,
    out: &'a mut Out,
}
impl<'a> SequenceControl for Rec<'a> {
    type Item = u8;
    type Result = RecRes;
    type Error = Utf8ValidationError<u32>;
    type Writer = RecW<'a>;
    fn request_writer(self, n: usize) -> RecW<'a> {
        RecW { buf: Vec::with_capacity(n + self.extra), out: self.out }
    }
    fn cancel(self, e: Self::Error) -> RecRes {
        RecRes::Err(e)
    }
    fn finish(self) -> RecRes {
        RecRes::Finish
    }
}
impl<'a> BufferWriter for RecW<'a> {
    type Segment = [u8];
    type Item = u8;
    type Result = RecRes;
    type Error = Utf8ValidationError<u32>;
    fn capacity(&self) -> usize {
        self.buf.capacity()
    }
    fn len(&self) -> usize {
        self.buf.len()
    }
    fn as_ptr(&self) -> *const u8 {
        self.buf.as_ptr()
    }
    fn as_mut_ptr(&mut self) -> *mut u8 {
        self.buf.as_mut_ptr()
    }
    unsafe fn set_len(&mut self, n: usize) {
        self.buf.set_len(n)
    }
    fn advance(self) -> RecRes {
        self.out.pieces.push(self.buf);
        RecRes::Piece
    }
    fn cancel(self, e: Self::Error) -> RecRes {
        RecRes::Err(e)
    }
}

#[derive(Debug, PartialEq)]
enum Ending {
    Done,
    Invalid,
}

/// prints the ends of long data only
struct Ends<'a>(&'a [u8]);
impl std::fmt::Debug for Ends<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let n = self.0.len();
        if n <= 60 {
            return write!(f, "{:x?}", self.0);
        }
        write!(f, "{:x?} ({n} bytes) {:x?}", &self.0[..8], &self.0[n - 40..])
    }
}
struct C15;
impl C15 {
    /// how many bytes of what came are whole characters, from the start
    fn whole_chars(&self, c: &Case15, given: &Cell<usize>) -> usize {
        let came = &c.bytes[..given.get()];
        std::str::from_utf8(came).map_or_else(|e| e.valid_up_to(), |s| s.len())
    }
    fn judge(&self, c: &Case15, delivered: &[u8], ending: &Ending) -> Result<(), String> {
        let valid = std::str::from_utf8(&c.bytes);
        let upto = match &valid {
            Ok(_) => c.bytes.len(),
            Err(e) => e.valid_up_to(),
        };
        ensure!(
            c.bytes[..upto].starts_with(delivered),
            "delivered {:x?} of {:x?}, of which {upto} bytes are valid",
            Ends(delivered),
            Ends(&c.bytes)
        );
        match (valid, ending) {
            (Ok(_), Ending::Invalid) => Err(format!("valid text reported as invalid: {:x?}", Ends(&c.bytes))),
            (Err(_), Ending::Done) => Err(format!("the stream ended normally: {:x?}, valid up to {upto}", Ends(&c.bytes))),
            (Ok(_), Ending::Done) => {
                ensure_eq!(delivered.len(), c.bytes.len(), "bytes delivered of the valid text {:x?}", Ends(&c.bytes));
                Ok(())
            }
            _ => Ok(()),
        }
    }
}
fn split(c: &Case15) -> Vec<usize> {
    let mut ends: Vec<usize> = c.cuts.iter().map(|k| *k as usize % (c.bytes.len() + 1)).collect();
    ends.push(c.bytes.len());
    ends.sort();
    ends
}
fn whole(p: &[u8]) -> Result<(), String> {
    ensure!(std::str::from_utf8(p).is_ok(), "a delivered piece is not valid by itself: {:x?}", Ends(p));
    Ok(())
}

impl Check for C15 {
    type Case = Case15;
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "byte streams (text of all character widths, with bytes replaced, removed, truncated or overlong forms inserted) cut anywhere, fed with suspensions, different writing styles and errors of the inner source; validated into a recording control or a generic sequence with forced commits and dropped loads; against str::from_utf8 of the whole. Non-trivial: a cut or the end falls inside a character, or the stream is invalid"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(2_500_000, 25_000_000)
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Case15> {
        let ch = prop_oneof![
            2 => Just('a'), 2 => Just('é'), 2 => Just('あ'), 2 => Just('😀'),
            1 => prop_oneof![Just('\0'), Just('\u{7f}'), Just('\u{80}'), Just('\u{7ff}'), Just('\u{800}'), Just('\u{d7ff}'), Just('\u{e000}'), Just('\u{ffff}'), Just('\u{10000}'), Just('\u{10ffff}')],
            1 => any::<char>(),
        ];
        let text = proptest::collection::vec(ch, 0..t.pick(12, 40)).prop_map(|v| v.into_iter().collect::<String>().into_bytes());
        let bad = prop_oneof![
            Just(vec![0xC0u8, 0x80]),
            Just(vec![0xED, 0xA0, 0x80]),
            Just(vec![0xF4, 0x90, 0x80, 0x80]),
            Just(vec![0xF5]),
            Just(vec![0xFF]),
            Just(vec![0x80]),
            Just(vec![0xE3, 0x81]),
            Just(vec![0xF0, 0x9F, 0x98]),
            Just(vec![0xF0]),
            Just(vec![0xC3]),
            Just(vec![0xE0, 0x80, 0x80]),
            proptest::collection::vec(any::<u8>(), 1..4),
        ];
        let bytes = prop_oneof![
            3 => text.clone(),
            2 => (text.clone(), any::<u16>()).prop_map(|(mut v, k)| { let n = k as usize % (v.len() + 1); v.truncate(n); v }),
            2 => (text.clone(), bad.clone(), any::<u16>()).prop_map(|(mut v, b, k)| { let n = k as usize % (v.len() + 1); v.splice(n..n, b); v }),
            1 => (text.clone(), any::<u16>(), any::<u8>()).prop_map(|(mut v, k, b)| { if !v.is_empty() { let n = k as usize % v.len(); v[n] = b; } v }),
            1 => (text.clone(), any::<u16>()).prop_map(|(mut v, k)| { if !v.is_empty() { let n = k as usize % v.len(); v.remove(n); } v }),
            1 => (text, bad).prop_map(|(mut v, b)| { v.extend(b); v }),
        ];
        let cuts = prop_oneof![
            1 => Just(vec![]),
            3 => proptest::collection::vec(any::<u32>(), 0..8),
            1 => Just((0..64u32).collect::<Vec<_>>()),
        ];
        let give = (any::<u8>(), 0u8..2).prop_map(|(how, pend)| Feed::Give { how, pend });
        let feed = prop_oneof![
            3 => proptest::collection::vec(give.clone(), 0..5),
            1 => (give.clone(), proptest::collection::vec(prop_oneof![4 => give, 1 => (0u8..6).prop_map(Feed::FailWriter), 1 => Just(Feed::FailControl)], 0..6)).prop_map(|(g, mut v)| { v.push(g); v }),
        ];
        let extra = prop_oneof![1 => Just(vec![]), 1 => proptest::collection::vec(prop_oneof![20 => 0u16..20, 1 => pbt::fw::sizes(0..5000).prop_map(|n| n as u16)], 1..4)];
        let pad = prop_oneof![
            2400 => Just((0u32, 'a')),
            40 => (pbt::fw::sizes(0..t.pick(5_000u32, 100_000)), prop_oneof![Just('a'), Just('é'), Just('あ'), Just('😀')]),
            // a chunk beyond 64 KiB
            1 => (prop_oneof![Just(('a', 65_500u32)), Just(('é', 32_750)), Just(('あ', 21_830)), Just(('😀', 16_370))], prop_oneof![0u32..50, 0u32..40_000]).prop_map(|((c, n), k)| (n + k, c)),
        ];
        let abandon = prop_oneof![3 => Just(None), 1 => (0u8..3).prop_map(Some)];
        (pad, bytes, cuts, feed, extra, any::<bool>(), 0u8..4, prop_oneof![5 => Just(false), 1 => Just(true)], abandon)
            .prop_map(|(pad, bytes, cuts, feed, extra, direct, force, iterator, abandon)| Case15 {
                pad,
                bytes,
                cuts,
                feed,
                extra,
                direct,
                force,
                iterator,
                abandon,
            })
            .boxed()
    }
    fn run(&self, c: &Case15, ob: &mut Obs) -> Result<(), String> {
        let mut c = c.clone();
        if c.pad.0 > 0 {
            let mut b = c.pad.1.to_string().repeat(c.pad.0 as usize).into_bytes();
            b.append(&mut c.bytes);
            c.bytes = b;
            ob.label("thousands of characters");
        }
        let c = &c;
        let ends = split(c);
        let valid = std::str::from_utf8(&c.bytes);
        let inside = match valid {
            Ok(s) => ends.iter().any(|e| !s.is_char_boundary(*e)),
            Err(_) => false,
        };
        let errors = c.feed.iter().any(|f| !matches!(f, Feed::Give { .. }));
        ob.nontrivial = inside || valid.is_err();
        ob.label(if valid.is_ok() { "valid" } else { "invalid" });
        ob.label_if(inside, "cut inside a character");
        ob.label_if(
            valid.is_err_and(|e| e.error_len().is_none()),
            "ends inside a character",
        );
        ob.label_if(errors && !c.iterator, "inner errors");
        let limit = (ends.len() + 2) * (c.feed.len() + 2) + 10;
        if c.iterator {
            ob.label("iterator source");
            let mut pieces = vec![];
            let mut at = 0;
            for e in &ends {
                pieces.push(c.bytes[at..*e].to_vec());
                at = *e;
            }
            let src = Utf8Validator::new(IteratorSource::<_, u8>::new(pieces));
            return self.generic(c, src, limit, |_| None, false, None);
        }
        let given = Rc::new(Cell::new(0));
        let src = Bytes { data: Rc::new(c.bytes.clone()), ends, i: 0, at: 0, feed: c.feed.clone(), k: 0, given: given.clone() };
        let mut src = Utf8Validator::new(src);
        if !c.direct {
            ob.label("into a generic sequence");
            return self.generic(c, src, limit, |e| Some(*e), c.abandon.is_some(), Some(&given));
        }
        ob.label("into a recording control");
        let mut out = Out::default();
        let mut last_code = 0;
        for n in 0..limit {
            let extra = c.extra.get(n % c.extra.len().max(1)).copied().unwrap_or(0) as usize;
            let control = Rec { extra, out: &mut out };
            let r = exec::run(src.next(control, 0), 1000)?;
            for p in &out.pieces {
                whole(p)?;
            }
            match r {
                RecRes::Piece => {}
                RecRes::Err(Utf8ValidationError::Inner(code)) => {
                    ensure!(errors, "an error the source did not raise");
                    ensure!(code as usize == n + 1 && code > last_code, "inner error {code} at call {}", n + 1);
                    last_code = code;
                }
                RecRes::Err(Utf8ValidationError::InvalidSequence) => {
                    return self.judge(c, &out.pieces.concat(), &Ending::Invalid);
                }
                RecRes::Finish => return self.judge(c, &out.pieces.concat(), &Ending::Done),
            }
            let got = out.pieces.concat();
            ensure!(c.bytes.starts_with(&got), "delivered {:x?} of {:x?}", Ends(&got), Ends(&c.bytes));
            let (n, upto) = (given.get(), self.whole_chars(c, &given));
            ensure!(got.len() >= upto, "of {n} bytes that came {upto} are whole characters, and {} were delivered: {:x?}", got.len(), Ends(&c.bytes));
        }
        Err(format!("no end after {limit} calls"))
    }
}
impl C15 {
    fn generic<S, E>(
        &self,
        c: &Case15,
        src: S,
        limit: usize,
        code: impl Fn(&E) -> Option<u32>,
        abandon: bool,
        given: Option<&Cell<usize>>,
    ) -> Result<(), String>
    where
        S: SequenceSource<Item = u8, Error = Utf8ValidationError<E>>,
    {
        let (buf, mut loader) = GenericSequenceBuilder::verif_new(strat(&c.extra)).build(src);
        let view = || -> Result<Vec<u8>, String> {
            let mut v = vec![];
            for s in buf.segments() {
                whole(s)?;
                v.extend(s);
            }
            ensure!(c.bytes.starts_with(&v), "delivered {:x?} of {:x?}", Ends(&v), Ends(&c.bytes));
            Ok(v)
        };
        let mut calls = 0;
        for n in 0..limit * 4 {
            // a load is only dropped on every other turn, so that this ends
            let max = (abandon && n % 2 == 0).then(|| c.abandon.unwrap());
            if max.is_none_or(|m| m > 0) {
                calls += 1;
            }
            let r = drive(loader.load(), max)?;
            match r {
                None => {
                    view()?;
                }
                Some(Ok(i)) => {
                    if c.force > 0 && n % c.force as usize == 0 {
                        loader.force_commit();
                    }
                    let v = view()?;
                    if i.is_done() {
                        return self.judge(c, &v, &Ending::Done);
                    }
                    if let Some(given) = given.filter(|_| c.force == 1) {
                        let (n, upto) = (given.get(), self.whole_chars(c, given));
                        ensure!(v.len() >= upto, "of {n} bytes that came {upto} are whole characters, and {} were delivered: {:x?}", v.len(), Ends(&c.bytes));
                    }
                }
                Some(Err(Utf8ValidationError::Inner(e))) => {
                    view()?;
                    if let Some(k) = code(&e) {
                        ensure_eq!(k, calls, "inner error");
                    }
                }
                Some(Err(Utf8ValidationError::InvalidSequence)) => {
                    view()?;
                    loader.force_commit();
                    let v = view()?;
                    return self.judge(c, &v, &Ending::Invalid);
                }
            }
        }
        Err(format!("no end after {limit} loads"))
    }
}

// ------------------------------------------------------------------------------------------- C21

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Way {
    BufferFirst,
    LoaderFirst,
    /// advance by the given permille of the items, then drop
    /// over 1000: far past the end
    Advance(u16, bool),
    /// advance bit by bit
    Steps(u8, bool),
    /// keep only the loader's end and load more
    BufferThenLoad,
    /// through the streaming sequence: skip by the given permille while (or after) everything is loaded in bursts
    Stream { permille: u16, burst: Option<u16>, again: bool },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case21 {
    segments: u32,
    per: u8,
    empty_every: u8,
    way: Way,
}
struct C21;
struct Counting {
    left: u32,
    per: u8,
    empty_every: u8,
    n: u32,
}
impl SequenceSource for Counting {
    type Item = Tracked;
    type Error = u32;
    type Next<'a, C>
        = std::future::Ready<C::Result>
    where
        C: 'a + SequenceControl<Item = Tracked, Error = u32>;
    fn next<'a, C>(&'a mut self, control: C, _: usize) -> Self::Next<'a, C>
    where
        C: 'a + SequenceControl<Item = Tracked, Error = u32>,
    {
        if self.left == 0 {
            return std::future::ready(control.finish());
        }
        self.left -= 1;
        let k = if self.empty_every > 0 && self.left % self.empty_every as u32 == 0 { 0 } else { self.per };
        let mut w = control.request_writer(k as usize);
        for _ in 0..k {
            let _ = w.push_item(Tracked::new(self.n));
            self.n += 1;
        }
        std::future::ready(w.advance())
    }
}

fn long(c: &Case21) -> Result<(), String> {
    tracked::reset();
    let (mut buf, mut loader) = GenericSequenceBuilder::verif_new(strat(&[])).build(Counting {
        left: c.segments,
        per: c.per,
        empty_every: c.empty_every,
        n: 0,
    });
    let load_all = |loader: &mut parcom_sequences::generic::GenericSequenceLoader<Tracked, Counting, Strat>, max: u32| {
        for _ in 0..max {
            match exec::run(loader.load(), 10) {
                Ok(Ok(i)) if i.is_done() => return true,
                Ok(Ok(_)) => loader.force_commit(),
                _ => return false,
            }
        }
        false
    };
    if let Way::BufferThenLoad = c.way {
        load_all(&mut loader, c.segments / 2);
        drop(buf);
        ensure_eq!(tracked::live(), 0, "items alive without the buffer");
        ensure!(load_all(&mut loader, u32::MAX), "not loaded to the end");
        drop(loader);
        return tracked::settled();
    }
    if let Way::Stream { permille, burst, again } = c.way {
        use parcom_core::{SegmentStream, Sequence};
        use std::sync::atomic::Ordering::SeqCst;
        type Buf = parcom_sequences::generic::GenericSequenceBuffer<Tracked>;
        let mut seq: DefaultSequence<NoSource<Tracked>, With<Buf>> = DefaultSequence::new(buf, NoLoader(PhantomData));
        let (notify, done) = seq.verif_producer_handles();
        let mut ended = false;
        let mut pump = |loader: &mut _, n| {
            if ended {
                return false;
            }
            ended = load_all(loader, n);
            if ended {
                done.store(true, SeqCst);
            }
            notify.send();
            true
        };
        if burst.is_none() {
            pump(&mut loader, u32::MAX);
        }
        let n = burst.unwrap_or(1).max(1) as u32;
        let total = (0..c.segments).filter(|k| c.empty_every == 0 || k % c.empty_every as u32 != 0).count() * c.per as usize;
        let skip = total * permille as usize / 1000;
        let mut at = 0;
        for _ in 0..1 + again as u8 {
            {
                let mut st = seq.segments();
                let first = loop {
                    match exec::run_with(st.next(0), 1 << 20, || pump(&mut loader, n))? {
                        Some(s) if s.is_empty() => {}
                        Some(s) => break Some(s[0].get()?),
                        None => break None,
                    }
                };
                ensure_eq!(first, (at < total).then_some(at as u32), "first item after skipping {at}");
            }
            seq = exec::run_with(seq.advance(skip), 1 << 20, || pump(&mut loader, n))?;
            at = (at + skip).min(total);
        }
        let mut next = at as u32;
        {
            let mut st = seq.segments();
            while let Some(s) = exec::run_with(st.next(0), 1 << 20, || pump(&mut loader, n))? {
                for i in s {
                    ensure_eq!(i.get()?, next, "item");
                    next += 1;
                }
            }
        }
        ensure_eq!(next as usize, total, "items read");
        if again {
            drop(seq);
            drop(loader);
        } else {
            drop(loader);
            drop(seq);
        }
        return tracked::settled();
    }
    ensure!(load_all(&mut loader, u32::MAX), "not loaded to the end");
    let mut next = 0;
    for s in buf.segments() {
        for i in s {
            ensure_eq!(i.get()?, next, "item");
            next += 1;
        }
    }
    ensure_eq!(tracked::live(), next as i64, "items alive");
    let total = next as usize;
    let check = |b: &parcom_sequences::generic::GenericSequenceBuffer<Tracked>, at: usize| -> Result<(), String> {
        let first = b.segments().flatten().next().map(|i| i.get());
        ensure_eq!(first, (at < total).then_some(Ok(at as u32)), "first item after skipping {at}");
        Ok(())
    };
    match c.way {
        Way::BufferFirst => {
            drop(buf);
            drop(loader);
        }
        Way::LoaderFirst => {
            drop(loader);
            check(&buf, 0)?;
            drop(buf);
        }
        Way::Advance(p, loader_first) => {
            let n = if p > 1000 { pbt::seq::far(total, p as usize - 1001) } else { total * p as usize / 1000 };
            ensure_eq!(buf.advance(n), n.saturating_sub(total), "left of advancing");
            let n = n.min(total);
            check(&buf, n)?;
            if loader_first {
                drop(loader);
                check(&buf, n)?;
                drop(buf);
            } else {
                drop(buf);
                drop(loader);
            }
        }
        Way::Steps(k, past) => {
            let mut at = 0;
            for i in 0..k as usize {
                let n = total / (k as usize + 1) + i;
                let left = buf.advance(n);
                let to = (at + n).min(total);
                ensure_eq!(left, at + n - to, "left of advancing");
                at = to;
                check(&buf, at)?;
            }
            if past {
                ensure_eq!(buf.advance(total), at, "left of advancing past the end");
                check(&buf, total)?;
            }
        }
        Way::BufferThenLoad | Way::Stream { .. } => {}
    }
    Ok(())
}

impl Check for C21 {
    type Case = Case21;
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "a loaded sequence of up to 75,000 segments (thorough: 200,000), some empty, read, advanced over in one or many steps, directly or through the streaming sequence, and dropped in any order, on a 256 KiB stack, with drop-counted items and a guarded heap. Non-trivial: at least 2,000 segments"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(800, 8_000)
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Case21> {
        let n = prop_oneof![10 => 0u32..50, 30 => pbt::fw::sizes(2_000..t.pick(30_000, 200_000)), 3 => 65_536u32..75_000];
        let way = prop_oneof![
            2 => Just(Way::BufferFirst),
            2 => Just(Way::LoaderFirst),
            4 => (prop_oneof![9 => 0u16..=1000, 1 => 1236u16..=1256], any::<bool>()).prop_map(|(p, l)| Way::Advance(p, l)),
            2 => (1u8..6, any::<bool>()).prop_map(|(k, p)| Way::Steps(k, p)),
            1 => Just(Way::BufferThenLoad),
            4 => (0u16..=1000, prop_oneof![1 => Just(None), 1 => (1u16..2000).prop_map(Some), 1 => (1u16..8).prop_map(Some), 1 => (60_000..=u16::MAX).prop_map(Some)], any::<bool>())
                .prop_map(|(permille, burst, again)| Way::Stream { permille, burst, again }),
        ];
        (n, 1u8..4, prop_oneof![2 => Just(0u8), 1 => 1u8..5], way)
            .prop_map(|(segments, per, empty_every, way)| Case21 { segments, per, empty_every, way })
            .boxed()
    }
    fn run(&self, c: &Case21, ob: &mut Obs) -> Result<(), String> {
        ob.nontrivial = c.segments >= 2000;
        ob.label_if(c.segments >= 65_536, "at least 65536 segments");
        ob.label(match c.way {
            Way::BufferFirst => "buffer dropped first",
            Way::LoaderFirst => "loader dropped first",
            Way::Advance(..) => "advanced once",
            Way::Steps(..) => "advanced in steps",
            Way::BufferThenLoad => "loaded on without the buffer",
            Way::Stream { .. } => "through the streaming sequence",
        });
        let c = c.clone();
        std::thread::Builder::new()
            .stack_size(256 << 10)
            .spawn(move || {
                let r = catch(|| long(&c)).and_then(|r| r).and_then(|()| tracked::settled());
                match pbt::fw::guard::take_fault() {
                    Some(f) => Err(format!("heap fault: {f}")),
                    None => r,
                }
            })
            .unwrap()
            .join()
            .unwrap_or_else(|_| Err("panic".into()))
    }
}

fn main() {
    pbt::fw::main(&[&C12, &C13, &C14, &C15, &C16, &C21]);
}
