//! C18: the streaming sequence against producer schedules. C22: streamed against in-memory parsing.
use parcom_core::{
    IterativeParser, IterativeParserOnce, IterativeParserState, ParseError, ParseResult, Parser, ParserOnce, SegmentStream,
    Sequence, UnknownLocation,
};
use parcom_parsers::primitive::{any_item, atom, the_item};
use parcom_parsers::{IterativeParserExtension, ParserExtension};
use parcom_runners::default_runner::DefaultSequence;
use parcom_sequence_core::{SequenceBuffer, SequenceBuilder, SequenceControl, SequenceLoader, SequenceSource};
use parcom_util::error::{Fatal, Miss};
use pbt::feed::{NoLoader, NoSource, With};
use pbt::fw::exec::{self, Count};
use pbt::fw::guard::Guard;
use pbt::fw::tracked::{self, Tracked};
use pbt::fw::{Check, Obs, Tier};
use pbt::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::marker::PhantomData;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

#[global_allocator]
static GUARD: Guard = Guard;

// ---------------------------------------------------------------- C18

#[derive(Clone, Debug, Serialize, Deserialize)]
enum POp {
    Append(u32),
    Signal,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum ROp {
    /// look at up to n segments
    Look(u32),
    /// poll for a segment n times, then give up on it
    Glance(u32),
    Adv(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Inject {
    producer: Vec<POp>,
    /// the reader's own steps; then it reads (or skips) everything
    reader: Vec<ROp>,
    /// how many producer steps run at each point
    gaps: Vec<u8>,
    finish_by_skipping: bool,
    move_sequence: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Threads {
    chunks: Vec<u8>,
    commit: Vec<bool>,
    extra: Vec<u8>,
    reader: Vec<ROp>,
    choices: Vec<u8>,
    finish_by_skipping: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Case18 {
    Inject(Inject),
    Threads(Threads),
}
/// reads or skips everything, and asks for the end
const ALL: u32 = u32::MAX;
/// from here on: far past the end
const FAR: u32 = u32::MAX - 255;
fn distance(n: u32, total: usize) -> usize {
    match n {
        ALL => total + 1,
        FAR.. => pbt::seq::far(total, (n - FAR) as usize + 1),
        _ => n as usize,
    }
}
struct C18;

#[derive(Clone, Copy, PartialEq, Debug)]
enum PStep {
    Append(u32),
    Signal,
    End,
}

struct World {
    segs: RefCell<Vec<Box<[Tracked]>>>,
    steps: RefCell<std::collections::VecDeque<PStep>>,
    gaps: Vec<u8>,
    gap_i: Cell<usize>,
    next: Cell<u32>,
    busy: Cell<bool>,
    notify: RefCell<Option<(Arc<parcom_internals::future::notify::Notify>, Arc<AtomicBool>)>>,
    inside: Cell<u64>,
    pos: Cell<usize>,
    /// what the last signal announced
    signalled: Cell<usize>,
    ended: Cell<bool>,
}
impl World {
    /// runs the producer's next step; None when it has finished
    fn step(&self) -> Option<PStep> {
        let s = self.steps.borrow_mut().pop_front()?;
        self.busy.set(true);
        let n = self.notify.borrow().clone().unwrap();
        match s {
            PStep::Append(k) => {
                let seg: Box<[Tracked]> = (0..k)
                    .map(|_| {
                        let v = self.next.get();
                        self.next.set(v + 1);
                        Tracked::new(v)
                    })
                    .collect();
                self.segs.borrow_mut().push(seg);
            }
            PStep::Signal => {
                self.signalled.set(self.next.get() as usize);
                self.ended.set(n.1.load(Ordering::SeqCst));
                n.0.send()
            }
            PStep::End => n.1.store(true, Ordering::SeqCst),
        }
        self.busy.set(false);
        Some(s)
    }
    /// a point at which the producer may be scheduled
    fn point(&self) {
        if self.busy.get() || self.notify.borrow().is_none() || self.gaps.is_empty() {
            return;
        }
        let i = self.gap_i.get();
        self.gap_i.set(i + 1);
        for _ in 0..self.gaps[i % self.gaps.len()] {
            if self.step().is_some() {
                self.inside.set(self.inside.get() + 1);
            }
        }
    }
    fn items(&self) -> usize {
        self.segs.borrow().iter().map(|s| s.len()).sum()
    }
}
struct MockBuf {
    w: Rc<World>,
    seg: usize,
    off: usize,
}
struct MockIter<'a> {
    w: Rc<World>,
    seg: usize,
    off: usize,
    _p: PhantomData<&'a ()>,
}
impl<'a> Iterator for MockIter<'a> {
    type Item = &'a [Tracked];
    fn next(&mut self) -> Option<&'a [Tracked]> {
        self.w.point();
        let r = {
            let s = self.w.segs.borrow();
            s.get(self.seg).map(|b| {
                let b: *const [Tracked] = &b[self.off..];
                self.seg += 1;
                self.off = 0;
                // SAFETY: boxed segments are never moved or dropped while the world lives, and `'a` is within it
                unsafe { &*b }
            })
        };
        self.w.point();
        r
    }
}
impl SequenceBuffer for MockBuf {
    type Length = usize;
    type Segment = [Tracked];
    type Iter<'a> = MockIter<'a>;
    fn advance(&mut self, n: usize) -> usize {
        self.w.point();
        let mut left = n;
        {
            let s = self.w.segs.borrow();
            while let Some(b) = s.get(self.seg) {
                let here = b.len() - self.off;
                if left < here {
                    self.off += left;
                    left = 0;
                    break;
                }
                left -= here;
                self.off = 0;
                self.seg += 1;
            }
        }
        self.w.pos.set(self.w.pos.get() + (n - left));
        self.w.point();
        left
    }
    fn segments(&self) -> MockIter<'_> {
        self.w.point();
        MockIter { w: self.w.clone(), seg: self.seg, off: self.off, _p: PhantomData }
    }
}

/// counts wakes; being woken from within a poll is one more point at which the producer may run
struct PointWaker {
    n: AtomicU64,
    world: SendRc,
}
struct SendRc(Rc<World>);
// SAFETY: only used on the thread that made it
unsafe impl Send for SendRc {}
unsafe impl Sync for SendRc {}
impl Wake for PointWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.n.fetch_add(1, Ordering::SeqCst);
        self.world.0.point();
    }
}

/// `needs`: how many of all items must be there for it to finish (it also does at the end)
fn drive<F: Future>(w: &Rc<World>, fut: F, needs: usize, max_polls: Option<u32>) -> Result<Option<F::Output>, String> {
    let mut fut = std::pin::pin!(fut);
    let mut polls = 0u32;
    loop {
        // every poll may come with another waker
        let wk = Arc::new(PointWaker { n: AtomicU64::new(0), world: SendRc(w.clone()) });
        let waker: Waker = wk.clone().into();
        if max_polls.is_some_and(|m| polls >= m) {
            return Ok(None);
        }
        polls += 1;
        if polls > 100_000 {
            return Err("not finished after 100000 polls: the reader goes on waking itself".into());
        }
        if let Poll::Ready(v) = fut.as_mut().poll(&mut Context::from_waker(&waker)) {
            return Ok(Some(v));
        }
        ensure!(
            wk.n.load(Ordering::SeqCst) > 0 || !(w.ended.get() || w.signalled.get() >= needs),
            "the reader is suspended although what it waits for was signalled: {needs} items, of {}, ended {}",
            w.signalled.get(),
            w.ended.get()
        );
        while wk.n.load(Ordering::SeqCst) == 0 {
            match w.step() {
                None => return Err("the reader is suspended, the producer has finished, and nothing will wake the reader".into()),
                Some(PStep::Signal) => {
                    ensure!(wk.n.load(Ordering::SeqCst) > 0, "the producer's signal did not wake the suspended reader")
                }
                Some(_) => {}
            }
        }
    }
}

fn inject(c: &Inject, ob: &mut Obs) -> Result<(), String> {
    tracked::reset();
    let mut steps: std::collections::VecDeque<PStep> = c
        .producer
        .iter()
        .map(|p| match p {
            POp::Append(n) => PStep::Append(*n),
            POp::Signal => PStep::Signal,
        })
        .collect();
    // every append is followed by a signal, and so is the end
    steps.push_back(PStep::Signal);
    steps.push_back(PStep::End);
    steps.push_back(PStep::Signal);
    let total: usize = steps.iter().map(|s| if let PStep::Append(n) = s { *n as usize } else { 0 }).sum();
    let w = Rc::new(World {
        segs: Default::default(),
        steps: RefCell::new(steps),
        gaps: c.gaps.clone(),
        gap_i: Cell::new(0),
        next: Cell::new(0),
        busy: Cell::new(false),
        notify: RefCell::new(None),
        inside: Cell::new(0),
        pos: Cell::new(0),
        signalled: Cell::new(0),
        ended: Cell::new(false),
    });
    let mut seq: DefaultSequence<NoSource<Tracked>, With<MockBuf>> =
        DefaultSequence::new(MockBuf { w: w.clone(), seg: 0, off: 0 }, NoLoader(PhantomData));
    *w.notify.borrow_mut() = Some(seq.verif_producer_handles());
    let mut pos = 0usize;
    let mut facts = [false; 5];
    let mut ops = c.reader.clone();
    ops.push(if c.finish_by_skipping { ROp::Adv(ALL) } else { ROp::Look(ALL) });
    ops.push(ROp::Look(3));
    for op in &ops {
        match op {
            ROp::Look(_) | ROp::Glance(_) => {
                let mut st = seq.segments();
                let mut at = pos;
                let n = if let ROp::Look(n) = op { *n as usize } else { 3 };
                let mut glanced = false;
                for k in 0..n {
                    let max = match op {
                        ROp::Glance(p) if k == 0 => Some(*p),
                        _ => None,
                    };
                    let Some(r) = drive(&w, st.next(0), at + 1, max)? else {
                        facts[0] = true;
                        glanced = true;
                        continue;
                    };
                    match r {
                        Some(seg) => {
                            for i in seg {
                                let v = i.get()?;
                                ensure!(v as usize == at, "read item {v} at position {at} (read from {pos})");
                                at += 1;
                            }
                        }
                        None => {
                            ensure!(
                                at == total,
                                "end of input at position {at}, but {total} items were appended in all ({} by now, glanced {glanced})",
                                w.items()
                            );
                            facts[1] = true;
                            // and it stays the end
                            let again = drive(&w, st.next(0), at + 1, None)?;
                            ensure!(matches!(again, Some(None)), "a segment after the end of input");
                            break;
                        }
                    }
                }
                if n == ALL as usize {
                    ensure!(facts[1] || n < c.producer.len(), "no end of input");
                }
            }
            ROp::Adv(n) => {
                let n = distance(*n, total);
                let to = pos.saturating_add(n).min(total);
                if to > w.items() {
                    facts[2] = true;
                }
                let fut = seq.advance(n);
                seq = drive(&w, fut, pos.saturating_add(n), None)?.unwrap();
                if c.move_sequence {
                    seq = *Box::new(seq);
                }
                ensure_eq!(w.pos.get(), to, "position after advancing by {n} from {pos} of {total}");
                pos = to;
                facts[3] |= n > 0;
            }
        }
    }
    drop(seq);
    ob.label("producer steps inside polls");
    ob.label_if(total > 65_536, "beyond 65536 items");
    ob.nontrivial = w.inside.get() > 1 && total > 0 && facts[3];
    ob.label_if(w.inside.get() > 0, "steps inside polls");
    ob.label_if(facts[0], "gave up on a segment");
    ob.label_if(facts[1], "saw the end");
    ob.label_if(facts[2], "advanced beyond what was there");
    *w.notify.borrow_mut() = None;
    w.segs.borrow_mut().clear();
    drop(w);
    tracked::settled()
}

/// chunks of items, one load each
struct Chunks {
    sizes: std::collections::VecDeque<u8>,
    next: u32,
}
impl SequenceSource for Chunks {
    type Item = u32;
    type Error = ();
    type Next<'a, C>
        = std::future::Ready<C::Result>
    where
        C: 'a + SequenceControl<Item = u32, Error = ()>;
    fn next<'a, C>(&'a mut self, control: C, _: usize) -> Self::Next<'a, C>
    where
        C: 'a + SequenceControl<Item = u32, Error = ()>,
    {
        use parcom_sequence_core::BufferWriter;
        let Some(n) = self.sizes.pop_front() else {
            return std::future::ready(control.finish());
        };
        let mut w = control.request_writer(n as usize);
        for _ in 0..n {
            let _ = w.push_item(self.next);
            self.next += 1;
        }
        std::future::ready(w.advance())
    }
}
struct Strat {
    extra: Vec<u8>,
    i: AtomicU64,
}
impl Strat {
    fn new(e: &[u8]) -> Strat {
        Strat { extra: e.to_vec(), i: AtomicU64::new(0) }
    }
    fn cap(&self, min: usize) -> usize {
        let i = self.i.fetch_add(1, Ordering::Relaxed) as usize;
        min + if self.extra.is_empty() { 0 } else { self.extra[i % self.extra.len()] as usize }
    }
}
impl parcom_sequences::BufferStrategy for Strat {
    fn calc_capacity(&self, min: usize) -> usize {
        self.cap(min)
    }
}

#[cfg(feature = "sched")]
mod threads {
    use super::*;
    use s_runners::default_runner::DefaultSequence;
    use s_sequences::generic::{GenericSequenceBuffer, GenericSequenceBuilder};
    use std::sync::Mutex;
    impl s_sequences::BufferStrategy for Strat {
        fn calc_capacity(&self, min: usize) -> usize {
            self.cap(min)
        }
    }
    #[derive(Default)]
    pub struct Out {
        pub fault: Option<String>,
        pub facts: [bool; 4],
    }

    pub fn run(c: &Threads, ob: &mut Obs) -> Result<(), String> {
        let out = Arc::new(Mutex::new(Out::default()));
        let (c2, o2) = (c.clone(), out.clone());
        pbt::sched::explore(&c.choices, move || {
            let mut o = Out::default();
            if let Err(e) = scenario(&c2, &mut o) {
                o.fault = Some(e);
            }
            *o2.lock().unwrap() = o;
        })
        .map_err(|e| if e.contains("deadlock") { format!("the reader was never woken: {e}") } else { e })?;
        let o = out.lock().unwrap();
        if let Some(f) = &o.fault {
            return Err(f.clone());
        }
        ob.label("threads");
        ob.nontrivial = o.facts[0];
        ob.label_if(o.facts[0], "threads: the reader was suspended");
        ob.label_if(o.facts[1], "threads: saw the end");
        Ok(())
    }

    struct Suspends<'a, F> {
        f: Pin<Box<F>>,
        seen: &'a mut bool,
    }
    impl<F: Future> Future for Suspends<'_, F> {
        type Output = F::Output;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
            let r = self.f.as_mut().poll(cx);
            *self.seen |= r.is_pending();
            r
        }
    }
    fn wait<F: Future>(seen: &mut bool, f: F) -> F::Output {
        shuttle::future::block_on(Suspends { f: Box::pin(f), seen })
    }

    fn scenario(c: &Threads, out: &mut Out) -> Result<(), String> {
        let total: usize = c.chunks.iter().map(|n| *n as usize).sum();
        let src = Chunks { sizes: c.chunks.iter().copied().collect(), next: 0 };
        let (buf, mut loader) = GenericSequenceBuilder::verif_new(Strat::new(&c.extra)).build(src);
        let mut seq: DefaultSequence<NoSource<u32>, With<GenericSequenceBuffer<u32>>> =
            DefaultSequence::new(buf, NoLoader(PhantomData));
        let (notify, done) = seq.verif_producer_handles();
        let commit = c.commit.clone();
        let producer = shuttle::thread::spawn(move || {
            let mut i = 0;
            loop {
                let info = match exec::run(loader.load(), 100) {
                    Ok(Ok(i)) => i,
                    _ => panic!("load failed"),
                };
                if info.is_done() {
                    done.store(true, Ordering::SeqCst);
                    notify.send();
                    return;
                }
                if !commit.is_empty() && commit[i % commit.len()] {
                    loader.force_commit();
                    notify.send();
                } else if info.commited() > 0 {
                    notify.send();
                }
                i += 1;
            }
        });
        let mut pos = 0;
        let mut ops = c.reader.clone();
        ops.push(if c.finish_by_skipping { ROp::Adv(ALL) } else { ROp::Look(ALL) });
        ops.push(ROp::Look(2));
        for op in &ops {
            match op {
                ROp::Look(n) | ROp::Glance(n) => {
                    let mut st = seq.segments();
                    let mut at = pos;
                    for _ in 0..*n {
                        match wait(&mut out.facts[0], st.next(0)) {
                            Some(seg) => {
                                for v in seg {
                                    ensure!(*v as usize == at, "read item {v} at position {at} (read from {pos})");
                                    at += 1;
                                }
                            }
                            None => {
                                ensure!(at == total, "end of input at position {at} of {total}");
                                out.facts[1] = true;
                                break;
                            }
                        }
                    }
                }
                ROp::Adv(n) => {
                    let n = distance(*n, total);
                    seq = wait(&mut out.facts[0], seq.advance(n));
                    pos = pos.saturating_add(n).min(total);
                }
            }
        }
        producer.join().unwrap();
        Ok(())
    }
}

impl Check for C18 {
    type Case = Case18;
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "(a) a streaming sequence over a list buffer whose reads, skips and wakes run generated numbers of producer steps (append, signal, end) inside the reader's polls, with the remaining steps run while the reader is suspended; (b) the streaming and the loaded sequence compiled over schedulable atomics, locks and cells, a loading thread and a reading thread under a generated preemption schedule. Oracle: the appended items in order, positions after skips, end only at the end, a suspended reader woken by the next signal. Non-trivial: (a) at least two producer steps inside polls and a skip, (b) a suspended reader"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(700_000, 8_000_000)
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Case18> {
        let much = t.pick(3_000u32, 20_000);
        let len = prop_oneof![30_000 => 0u32..5, 500 => pbt::fw::sizes(0..much), 1 => 65_500u32..70_000];
        let p = prop_oneof![3 => len.clone().prop_map(POp::Append), 2 => Just(POp::Signal)];
        let r = || {
            prop_oneof![
                3 => (0u32..5).prop_map(ROp::Look),
                1 => (0u32..4).prop_map(ROp::Glance),
                4 => prop_oneof![1200 => 0u32..9, 20 => pbt::fw::sizes(0..much), 1 => 65_500u32..70_000, 10 => FAR + 234..ALL].prop_map(ROp::Adv),
            ]
        };
        let gaps = prop_oneof![
            1 => Just(vec![]),
            3 => prop::collection::vec(prop_oneof![3 => Just(0u8), 2 => Just(1u8), 1 => 2u8..6], 1..30),
            2 => prop::collection::vec(prop_oneof![8 => Just(0u8), 1 => 1u8..6], 1..60),
        ];
        let inj = (
            prop_oneof![
                300 => prop::collection::vec(p.clone(), 0..t.pick(10, 20)),
                1 => prop::collection::vec(p, 0..t.pick(600, 3000)),
            ],
            prop_oneof![300 => prop::collection::vec(r(), 0..t.pick(6, 12)), 1 => prop::collection::vec(r(), 0..100)],
            gaps,
            any::<bool>(),
            any::<bool>(),
        )
            .prop_map(|(mut producer, reader, gaps, finish_by_skipping, move_sequence)| {
                // signals follow appends: an append at the end of the list is followed by the final signal
                producer.dedup_by(|a, b| matches!((a, b), (POp::Signal, POp::Signal)));
                Case18::Inject(Inject { producer, reader, gaps, finish_by_skipping, move_sequence })
            });
        if !cfg!(feature = "sched") {
            return inj.boxed();
        }
        let choice = |w: u32| prop_oneof![w => Just(0u8), 3 => 1u8..4];
        let choices = prop_oneof![
            3 => prop::collection::vec(choice(2), 0..60),
            3 => prop::collection::vec(choice(9), 0..90),
            1 => prop::collection::vec(choice(30), 0..120),
        ];
        let thr = (
            prop::collection::vec(0u8..4, 0..5),
            prop::collection::vec(any::<bool>(), 0..3),
            prop::collection::vec(0u8..4, 0..3),
            prop::collection::vec(r(), 0..4),
            choices,
            any::<bool>(),
        )
            .prop_map(|(chunks, commit, extra, reader, choices, finish_by_skipping)| {
                Case18::Threads(Threads { chunks, commit, extra, reader, choices, finish_by_skipping })
            });
        prop_oneof![1 => inj, 1 => thr].boxed()
    }
    fn run(&self, c: &Case18, ob: &mut Obs) -> Result<(), String> {
        match c {
            Case18::Inject(c) => inject(c, ob),
            #[cfg(feature = "sched")]
            Case18::Threads(c) => threads::run(c, ob),
            #[cfg(not(feature = "sched"))]
            Case18::Threads(_) => Ok(()),
        }
    }
    fn assumptions(&self) -> Vec<String> {
        let mut v = vec![
            "the producer keeps the protocol the code documents: a signal after each append, the end marked after the last append and followed by a signal; the producer side itself is not implemented in the repository".into(),
        ];
        v.push(if cfg!(feature = "sched") {
            "the compiled thread schedules are sequentially consistent: weaker memory orderings are explored in the interpreted cases only".into()
        } else {
            "the code did not build over the scheduled std: no thread schedules were explored".to_string()
        });
        v
    }
}

// ---------------------------------------------------------------- C22

#[derive(Clone, Debug, Serialize, Deserialize)]
enum St {
    /// the next n items of the data itself, or with the k-th changed
    Literal(u32, Option<u32>),
    /// a literal that begins with the next items and ends past the data
    Long(u8),
    Any,
    The(bool),
    MapAny,
    /// fold over the items up to a stop value
    Fold { take: Option<u8>, stop: u8, adapt: Vec<Ad> },
    AndThen(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Ad {
    MapEach,
    Scan,
    While(u8),
    Try(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case22 {
    /// so many characters come before the text
    pad: (u32, char),
    text: Vec<char>,
    /// where chunks end (bytes)
    cuts: Vec<u32>,
    extra: Vec<u8>,
    /// loads per pump, forced commits
    pump: Vec<(u8, bool)>,
    before: u8,
    program: Vec<St>,
    validate: bool,
    /// with threads: the schedule
    choices: Option<Vec<u8>>,
}
struct C22;

/// items up to a stop value, which is left unread
struct Items {
    stop: u8,
}
impl<S: Sequence<Segment = [u8], Length = usize>> IterativeParserOnce<S> for Items {
    type Output = u64;
    type Error = Er;
    type StateOnce = ItemsState;
    fn parse_iterative_once(self) -> ItemsState {
        ItemsState { stop: self.stop }
    }
}
impl<S: Sequence<Segment = [u8], Length = usize>> IterativeParser<S> for Items {
    type State<'a> = ItemsState;
    fn parse_iterative(&self) -> ItemsState {
        ItemsState { stop: self.stop }
    }
}
struct ItemsState {
    stop: u8,
}
impl<S: Sequence<Segment = [u8], Length = usize>> IterativeParserState<S> for ItemsState {
    type Output = u64;
    type Error = Er;
    async fn parse_next(&mut self, mut input: S) -> ParseResult<S, Option<u64>, Er> {
        let mut st = input.segments();
        let mut item = None;
        while let Some(s) = st.next(0).await {
            if let Some(i) = s.first() {
                item = Some(*i);
                break;
            }
        }
        drop(st);
        match item {
            Some(i) if i != self.stop => Ok((Some(i as u64), input.advance(1).await)),
            _ => Ok((None, input)),
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
enum Er {
    Miss(u32),
    Fatal(u32),
}
impl ParseError for Er {
    fn should_terminate(&self) -> bool {
        matches!(self, Er::Fatal(_))
    }
}
impl<T> From<Miss<T>> for Er {
    fn from(_: Miss<T>) -> Self {
        Er::Miss(0)
    }
}
impl<T> From<Fatal<T>> for Er {
    fn from(_: Fatal<T>) -> Self {
        Er::Fatal(0)
    }
}

type Boxed<'a, S> = Pin<Box<dyn Future<Output = ParseResult<S, u64, Er>> + 'a>>;

fn fold<'a, S, P>(p: P, ads: &'a [Ad], take: Option<u8>, input: S) -> Boxed<'a, S>
where
    S: Sequence<Segment = [u8], Length = usize> + 'a,
    P: IterativeParser<S, Output = u64, Error = Er> + 'a,
{
    fn fin<'a, S, P>(p: P, take: Option<u8>, input: S) -> Boxed<'a, S>
    where
        S: Sequence<Segment = [u8], Length = usize> + 'a,
        P: IterativeParser<S, Output = u64, Error = Er> + 'a,
    {
        let f = |a: u64, v: u64| a.wrapping_mul(31).wrapping_add(v + 1);
        match take {
            None => Box::pin(async move { p.fold(7u64, f).parse(input).await }),
            Some(n) => Box::pin(async move { p.take(n as usize).fold(7u64, f).parse(input).await }),
        }
    }
    fn one<'a, S, P>(p: P, a: &'a Ad, rest: &'a [Ad], take: Option<u8>, input: S) -> Boxed<'a, S>
    where
        S: Sequence<Segment = [u8], Length = usize> + 'a,
        P: IterativeParser<S, Output = u64, Error = Er> + 'a,
    {
        let m = |v: u64| v.wrapping_mul(3) ^ 5;
        macro_rules! then {
            ($p:expr) => {
                match rest.first() {
                    None => fin($p, take, input),
                    // two levels keep the types finite
                    Some(Ad::MapEach) => fin($p.map_each(m), take, input),
                    Some(Ad::Scan) => fin($p.scan(1u64, |s: &mut u64, v: u64| { *s = s.wrapping_add(v); *s }), take, input),
                    Some(Ad::While(k)) => { let k = *k as u64; fin($p.map_while(move |v: u64| (v % 8 != k).then_some(v)), take, input) }
                    Some(Ad::Try(k)) => { let k = *k as u64; fin($p.try_map_each(move |v: u64| if v % 8 == k { Err(Er::Miss(v as u32)) } else { Ok(v) }), take, input) }
                }
            };
        }
        match a {
            Ad::MapEach => then!(p.map_each(m)),
            Ad::Scan => then!(p.scan(1u64, |s: &mut u64, v: u64| { *s = s.wrapping_add(v); *s })),
            Ad::While(k) => { let k = *k as u64; then!(p.map_while(move |v: u64| (v % 8 != k).then_some(v))) }
            Ad::Try(k) => { let k = *k as u64; then!(p.try_map_each(move |v: u64| if v % 8 == k { Err(Er::Fatal(v as u32)) } else { Ok(v) })) }
        }
    }
    match ads.first() {
        None => fin(p, take, input),
        Some(a) => one(p, a, &ads[1..], take, input),
    }
}

/// what each statement gave, whether it failed, and what was left in the end
type Outcome = (Vec<Result<u64, Er>>, Option<Vec<u8>>);

async fn program<S: Sequence<Segment = [u8], Length = usize>>(c: &Case22, data: &[u8], mut s: S) -> Outcome {
    let mut out = vec![];
    // where the in-memory reading would be: used to make literals that match
    let mut at = 0usize;
    for st in &c.program {
        let next = &data[at.min(data.len())..];
        let r: ParseResult<S, (u64, usize), Er> = match st {
            St::Literal(n, wrong) => {
                let n = (*n as usize).min(next.len());
                let mut lit = next[..n].to_vec();
                if let Some(k) = wrong {
                    if n > 0 {
                        lit[*k as usize % n] ^= 1;
                    }
                }
                atom(lit).map(|()| (1u64, n)).map_err(|e| Er::from(e)).parse(s).await
            }
            St::Long(n) => {
                let mut lit = next.to_vec();
                lit.extend(std::iter::repeat_n(b'z', *n as usize + 1));
                atom(lit).map(|()| (2u64, 0usize)).map_err(|e| Er::from(e)).parse(s).await
            }
            St::Any => any_item::<u8, S>().map(|b| (b as u64, 1)).map_err(|e| Er::from(e)).parse(s).await,
            St::The(right) => {
                let b = next.first().copied().unwrap_or(b'q');
                the_item(if *right { b } else { b ^ 1 }).map(|()| (3, 1)).map_err(|e| Er::from(e)).parse(s).await
            }
            St::MapAny => any_item::<u8, S>().map(|b| b as u64 * 2).map(|v| (v + 1, 1)).map_err(|e| Er::from(e)).parse_once(s).await,
            St::AndThen(k) => {
                let k = *k;
                any_item::<u8, S>()
                    .and_then(move |b| if b % 4 == k { Err(Er::Fatal(b as u32)) } else { Ok((b as u64, 1)) })
                    .parse(s)
                    .await
            }
            St::Fold { take, stop, adapt } => {
                let stop = if *stop < 8 { b'a' + stop } else { 0xff };
                fold(Items { stop }, adapt, *take, s).await.map(|(v, s)| ((v, usize::MAX), s))
            }
        };
        match r {
            Ok(((v, n), rest)) => {
                s = rest;
                out.push(Ok(v));
                // a fold does not say how far it went: literals after it may or may not match
                at = if n == usize::MAX { at } else { at + n };
            }
            Err((e, _)) => {
                // where a failed parser leaves the input is unknown
                out.push(Err(e));
                return (out, None);
            }
        }
    }
    let mut left = vec![];
    {
        let mut segs = s.segments();
        while let Some(x) = segs.next(0).await {
            left.extend_from_slice(x);
        }
    }
    (out, Some(left))
}

macro_rules! streamed {
    ($m:ident, $run:ident, $seqs:ident, $ints:ident) => {
        mod $m {
            use super::*;
            use parcom_sequence_sources::iterator_source::IteratorSource;
            use parcom_sequence_sources::utf8_validator::Utf8Validator;
            use $run::default_runner::DefaultSequence;
            use $seqs::generic::{GenericSequenceBuffer, GenericSequenceBuilder};
            pub type Seq = DefaultSequence<NoSource<u8>, With<GenericSequenceBuffer<u8>>>;
            pub type Step = Box<dyn FnMut() -> bool + Send>;

            /// the sequence, and a function that loads and signals a bit; it returns false at the end
            pub fn make(c: &Case22, chunks: Vec<Vec<u8>>) -> (Seq, Step) {
                let src = IteratorSource::new(chunks);
                if c.validate {
                    let (b, l) = GenericSequenceBuilder::verif_new(Strat::new(&c.extra)).build(Utf8Validator::new(src));
                    with(c, b, l)
                } else {
                    let (b, l) = GenericSequenceBuilder::verif_new(Strat::new(&c.extra)).build(src);
                    with(c, b, l)
                }
            }
            fn with<L>(c: &Case22, b: GenericSequenceBuffer<u8>, mut l: L) -> (Seq, Step)
            where
                L: SequenceLoader<Length = usize, Segment = [u8]> + Send + 'static,
            {
                let seq: Seq = DefaultSequence::new(b, NoLoader(PhantomData));
                let (notify, done) = seq.verif_producer_handles();
                let pump = c.pump.clone();
                let (mut i, mut ended) = (0, false);
                let step = move || {
                    if ended {
                        return false;
                    }
                    let (n, force) = if pump.is_empty() { (1, false) } else { pump[i % pump.len()] };
                    i += 1;
                    for _ in 0..n.max(1) {
                        let info = match exec::run(l.load(), 100) {
                            Ok(Ok(x)) => x,
                            Ok(Err(_)) => panic!("loading valid data failed"),
                            Err(e) => panic!("loading: {e}"),
                        };
                        if info.is_done() {
                            ended = true;
                            done.store(true, Ordering::SeqCst);
                            notify.send();
                            return true;
                        }
                    }
                    if force {
                        l.force_commit();
                    }
                    notify.send();
                    true
                };
                (seq, Box::new(step))
            }
        }
    };
}
streamed!(plain, parcom_runners, parcom_sequences, parcom_internals);
#[cfg(feature = "sched")]
streamed!(sched, s_runners, s_sequences, s_internals);

#[cfg(feature = "sched")]
fn in_threads(c: &Case22, data: &[u8], chunks: Vec<Vec<u8>>, choices: &[u8]) -> Result<Outcome, String> {
    let out = Arc::new(std::sync::Mutex::new(None));
    let (c, data, out2) = (c.clone(), data.to_vec(), out.clone());
    pbt::sched::explore(choices, move || {
        let (seq, mut step) = sched::make(&c, chunks.clone());
        let h = shuttle::thread::spawn(move || while step() {});
        let r = shuttle::future::block_on(program(&c, &data, seq));
        h.join().unwrap();
        *out2.lock().unwrap() = Some(r);
    })?;
    let r = out.lock().unwrap().take();
    r.ok_or_else(|| "no outcome".into())
}

impl Check for C22 {
    type Case = Case22;
    fn id(&self) -> &'static str {
        "C22"
    }
    fn rule(&self) -> &'static str {
        "generated text cut into byte chunks, loaded (optionally through the UTF-8 validator) with generated capacities, bursts and forced commits while a generated program of literals, items, mappings, checked mappings and folds over adapter chains reads the streaming sequence; on one thread with loads while the parser is suspended, or on two threads under a generated preemption schedule (code compiled over schedulable atomics and locks); against the same program over the slice. Non-trivial: at least 3 chunks, 3 statements executed, and loading went on after parsing began"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(1_000_000, 10_000_000)
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Case22> {
        let ch = prop_oneof![8 => prop::sample::select(vec!['a', 'b', 'c', 'd', 'é', 'あ', '😀']), 1 => any::<char>()];
        let ad = prop_oneof![
            Just(Ad::MapEach),
            Just(Ad::Scan),
            (0u8..8).prop_map(Ad::While),
            (0u8..8).prop_map(Ad::Try),
        ];
        let much = t.pick(3_000u32, 20_000);
        let st = prop_oneof![
            5 => (prop_oneof![400 => 0u32..6, 10 => pbt::fw::sizes(0..much), 1 => 65_500u32..140_000], prop_oneof![4 => Just(None), 1 => any::<u32>().prop_map(Some)]).prop_map(|(n, w)| St::Literal(n, w)),
            1 => (0u8..3).prop_map(St::Long),
            4 => Just(St::Any),
            3 => prop_oneof![4 => Just(true), 1 => Just(false)].prop_map(St::The),
            2 => Just(St::MapAny),
            2 => (0u8..5).prop_map(St::AndThen),
            2 => (prop_oneof![2 => (0u8..6).prop_map(Some), 1 => Just(None)], 0u8..10, prop::collection::vec(ad, 0..3))
                .prop_map(|(take, stop, adapt)| St::Fold { take, stop, adapt }),
        ];
        let cuts = prop_oneof![
            3 => prop::collection::vec(any::<u32>(), 0..6),
            2 => prop::collection::vec(0u32..12, 0..16),
            1 => Just((0..40u32).collect::<Vec<_>>()),
        ];
        let choice = |w: u32| prop_oneof![w => Just(0u8), 3 => 1u8..4];
        let choices = prop_oneof![
            2 => prop::collection::vec(choice(2), 0..60),
            2 => prop::collection::vec(choice(9), 0..90),
        ];
        let threads = if cfg!(feature = "sched") {
            prop_oneof![3 => Just(None), 1 => choices.prop_map(Some)].boxed()
        } else {
            Just(None).boxed()
        };
        let wide = || prop::sample::select(vec!['a', 'é', 'あ', '😀']);
        let pad = prop_oneof![30_000 => Just((0u32, 'a')), 500 => (pbt::fw::sizes(0..much), wide()), 4 => (35_000u32..70_000, wide())];
        (
            (pad, prop::collection::vec(ch, 0..t.pick(16, 40))),
            cuts,
            prop::collection::vec(0u8..6, 0..4),
            prop::collection::vec((1u8..4, any::<bool>()), 0..5),
            0u8..3,
            prop::collection::vec(st, 0..t.pick(9, 20)),
            any::<bool>(),
            threads,
        )
            .prop_map(|((pad, text), cuts, extra, pump, before, program, validate, choices)| Case22 {
                pad,
                text,
                cuts,
                extra,
                pump,
                before,
                program,
                validate,
                // schedules are bounded in length
                choices: choices.filter(|_| pad.0 <= 3000),
            })
            .boxed()
    }
    fn run(&self, c: &Case22, ob: &mut Obs) -> Result<(), String> {
        let mut data = c.pad.1.to_string().repeat(c.pad.0 as usize);
        data.extend(&c.text);
        let data = data.into_bytes();
        ob.label_if(c.pad.0 > 0, "thousands of items");
        ob.label_if(data.len() > 65_536, "beyond 65536 bytes");
        let mut ends: Vec<usize> = c.cuts.iter().map(|x| *x as usize % (data.len() + 1)).collect();
        ends.sort();
        ends.push(data.len());
        let mut chunks = vec![];
        let mut at = 0;
        for e in ends {
            chunks.push(data[at..e].to_vec());
            at = e;
        }
        let n_chunks = chunks.len();
        let want = exec::run(program(c, &data, &data[..]), 1 << 20)?;
        let mut steps = 0;
        let got = match &c.choices {
            #[cfg(feature = "sched")]
            Some(ch) => {
                ob.label("on two threads");
                in_threads(c, &data, chunks, ch)?
            }
            _ => {
                let (seq, mut step) = plain::make(c, chunks);
                for _ in 0..c.before {
                    step();
                }
                exec::run_with(program(c, &data, seq), 1 << 20, || {
                    steps += 1;
                    step()
                })?
            }
        };
        ensure_eq!(got.0, want.0, "results of the statements (streamed, in memory)");
        ensure_eq!(got.1, want.1, "data left (streamed, in memory)");
        let ran = want.0.len();
        ob.nontrivial = n_chunks >= 3 && ran >= 3 && (steps > 1 || c.choices.is_some());
        ob.label_if(want.0.last().is_some_and(|r| r.is_err()), "ended by a failure");
        ob.label_if(matches!(want.0.last(), Some(Err(Er::Fatal(_)))), "ended by a fatal error");
        ob.label_if(c.validate, "validated");
        ob.label_if(want.1.as_ref().is_some_and(|l| l.is_empty()) && ran > 0, "read to the end");
        ob.label_if(steps > 1, "loaded while parsing");
        Ok(())
    }
}

fn main() {
    let _ = Count::default();
    pbt::fw::main(&[&C18, &C22]);
}
