//! C23: operations given up at any suspension.
use parcom_core::{
    IterativeParser, IterativeParserOnce, IterativeParserState, Parser, ParserOnce, ParseResult, RewindSequence,
    SegmentStream, Sequence,
};
use parcom_parsers::primitive::{any_item, atom};
use parcom_parsers::{IterativeParserExtension, ParserExtension};
use parcom_runners::default_runner::DefaultSequence;
use parcom_sequence_core::{BufferWriter, SequenceBuilder, SequenceControl, SequenceLoader, SequenceSource};
use parcom_sequences::generic::{GenericSequenceBuffer, GenericSequenceBuilder};
use parcom_sequences::BufferStrategy;
use parcom_util::error::Miss;
use pbt::feed::{NoLoader, NoSource, With};
use pbt::fw::exec::Count;
use pbt::fw::guard::{counters, take_fault, Guard};
use pbt::fw::tracked::{self, Tracked};
use pbt::fw::{catch, Check, Obs, Tier};
use pbt::grammar::{fuse, gen, input_for, mutate, run_rule, sample_it, DynIt, Grammar, It, ItKind, Model, Node, Prims, Run, RunBox, Tape, BLOWN};
use pbt::seq::{gen as sgen, Delivery, ItemK, SegSeq, StrK, Subject};
use pbt::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::marker::PhantomData;
use std::pin::{pin, Pin};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

#[path = "../typed.rs"]
mod typed;

#[global_allocator]
static GUARD: Guard = Guard;

type Fut<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;

/// Polls up to `give_up` times (`idle` between polls), then drops the future. None: given up.
fn upto<F: Future>(fut: F, give_up: Option<u8>, mut idle: impl FnMut() -> bool) -> Result<Option<F::Output>, String> {
    let mut fut = pin!(fut);
    let count = Arc::new(Count::default());
    let waker: Waker = count.clone().into();
    let mut cx = Context::from_waker(&waker);
    let mut seen = 0;
    for n in 0u64.. {
        if give_up.is_some_and(|g| n >= g as u64) {
            return Ok(None);
        }
        if let Poll::Ready(v) = fut.as_mut().poll(&mut cx) {
            return Ok(Some(v));
        }
        ensure!(n < 1_000_000, "does not end");
        if give_up.is_some() {
            // whether it was woken or not
            idle();
            continue;
        }
        while count.get() == seen {
            if !idle() {
                return Err("suspended, but nothing will wake it".into());
            }
        }
        seen = count.get();
    }
    unreachable!()
}

// ------------------------------------------------------------------ grammars

fn grammar<K: Prims>(what: &str, g: &Grammar, input: &[char], d: &Delivery, polls: u64, call: u64, ob: &mut Obs) -> Result<(), String> {
    let before = counters();
    let blown;
    let mut gone = false;
    let discard;
    {
        let (s, ctx) = SegSeq::<K>::new(input, d, 20_000_000);
        let rb = RunBox::new(Run::new(g, true, 40_000));
        let run = rb.get();
        fuse(call);
        let mut r = catch(|| {
            let mut fut: Fut<_> = Box::pin(run_rule::<K, _>(run, s));
            let mut cx = Context::from_waker(Waker::noop());
            for _ in 0..polls {
                if fut.as_mut().poll(&mut cx).is_ready() {
                    return;
                }
            }
            gone = true;
        });
        blown = fuse(0) == 0 && call > 0;
        if blown {
            // given up by unwinding, when the user's code panicked
            r = match r {
                Err(e) if e.contains(BLOWN) => Ok(()),
                Err(e) => Err(e),
                Ok(()) => Err(format!("{what}: a panic of user code was swallowed")),
            };
        }
        discard = run.discard.get();
        if !discard {
            r?;
            if let Some(f) = run.fault.borrow().clone() {
                return Err(format!("{what}: {f}"));
            }
            ctx.legal()?;
        }
    }
    if discard {
        ob.label("discarded: other input too long");
        return Ok(());
    }
    let after = counters();
    ob.label_if(gone, "a parse was given up");
    ob.label_if(blown, "user code panicked");
    ob.nontrivial |= gone && polls >= 3 || blown && call >= 3;
    ensure!(
        after.live == before.live,
        "{what}: {} heap block(s) were not freed after the parse ended: given up at poll {polls}, user code panicking at call {call} (0: never)",
        after.live - before.live
    );
    Ok(())
}

// ---------------------------------------------------------------- iterations

/// Steps of an iteration, some of them given up: the same state goes on from the last item it gave.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Steps {
    it: It,
    aux: Vec<Node>,
    tape: Vec<u16>,
    delivery: Delivery,
    /// after so many polls; None: the step is done
    gives: Vec<Option<u8>>,
    n: u8,
}
/// An optional has one try, which is spent when it is given up: a repetition instead.
fn retriable(i: &It) -> It {
    let kind = match &i.kind {
        ItKind::Optional(n) => ItKind::Repeat(n.clone()),
        ItKind::MapEach(i, k) => ItKind::MapEach(Box::new(retriable(i)), *k),
        ItKind::TryMapEach(i, k) => ItKind::TryMapEach(Box::new(retriable(i)), *k),
        ItKind::MapWhile(i, k) => ItKind::MapWhile(Box::new(retriable(i)), *k),
        ItKind::Scan(i) => ItKind::Scan(Box::new(retriable(i))),
        ItKind::Take(i, n) => ItKind::Take(Box::new(retriable(i)), *n),
        k => k.clone(),
    };
    It { mode: i.mode, kind }
}
fn steps<K: Prims>(what: &str, c: &Steps, it: &It, g: &Grammar, input: &[char], ob: &mut Obs) -> Result<(), String> {
    let before = counters();
    let (mut given, mut after) = (0, 0);
    {
        let mut run = Run::new(g, true, 40_000);
        run.twice_ok = false;
        let rb = RunBox::new(run);
        let run = rb.get();
        let mut m = Model::new(g, input);
        let mut want = m.start(it);
        let mut st = DynIt::<K>::new(run, it).start::<SegSeq<K>>();
        let mut at = 0;
        let mut left = c.n;
        let mut k = 0;
        while left > 0 {
            let (s, ctx) = SegSeq::<K>::new(&input[at..], &c.delivery, 20_000_000);
            let give_up = c.gives.get(k).copied().flatten();
            k += 1;
            // an end or an error may be followed by anything
            let mut ended = false;
            // on the model only if the step is not given up
            let r = catch(|| upto(st.parse_next(s), give_up, || false));
            if run.discard.get() {
                ob.label("discarded: other input too long");
                return Ok(());
            }
            if let Some(f) = run.fault.borrow().clone() {
                return Err(format!("{what}: {f}"));
            }
            match r.and_then(|r| r).map_err(|e| format!("{what}: {e}"))? {
                None => given += 1,
                Some(r) => {
                    left -= 1;
                    let Ok(w) = m.next(&mut want, at) else {
                        ob.label("discarded: evaluation too long");
                        return Ok(());
                    };
                    match (r, w) {
                        (Ok((v, mut r)), Ok((wv, p))) => {
                            ensure_eq!(v, wv, "{what}: step after {given} given up");
                            let rest = r.rest();
                            ensure_eq!(rest, input[p..].to_vec(), "{what}: rest of a step after {given} given up");
                            at = p;
                            ended = v.is_none();
                            after += (v.is_some() && given > 0) as u32;
                        }
                        (Err((e, _)), Err(we)) => {
                            ensure_eq!(e, we, "{what}: error of a step after {given} given up");
                            ended = true;
                        }
                        (Ok((v, _)), Err(e)) => return Err(format!("{what}: a step gave {v:?}, expected error {e:?} ({given} given up)")),
                        (Err((e, _)), Ok(v)) => return Err(format!("{what}: a step failed with {e:?}, expected {v:?} ({given} given up)")),
                    }
                    ctx.legal()?;
                }
            }
            if ended {
                break;
            }
        }
    }
    let now = counters();
    ob.label("an iteration in steps");
    ob.label_if(given > 0, "a step was given up");
    ob.label_if(after > 0, "items after a step given up");
    ob.nontrivial |= after > 0;
    ensure!(now.live == before.live, "{what}: {} heap block(s) were not freed after the iteration", now.live - before.live);
    Ok(())
}

// ------------------------------------------------------------------ streaming

#[derive(Clone, Debug)]
struct T(#[allow(dead_code)] Tracked);
impl PartialEq for T {
    fn eq(&self, o: &T) -> bool {
        self.0.val == o.0.val
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Piece {
    items: u8,
    want: u8,
    /// a suspension before every so many items
    every: u8,
    before: u8,
}
struct Src {
    plan: Vec<Piece>,
    i: usize,
    next: u32,
}
struct Nap(bool);
impl Future for Nap {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if std::mem::replace(&mut self.0, true) {
            return Poll::Ready(());
        }
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
impl SequenceSource for Src {
    type Item = T;
    type Error = ();
    type Next<'a, C>
        = Fut<'a, C::Result>
    where
        C: 'a + SequenceControl<Item = T, Error = ()>;
    fn next<'a, C>(&'a mut self, control: C, _: usize) -> Self::Next<'a, C>
    where
        C: 'a + SequenceControl<Item = T, Error = ()>,
    {
        Box::pin(async move {
            let Some(p) = self.plan.get(self.i).cloned() else { return control.finish() };
            for _ in 0..p.before {
                Nap(false).await;
            }
            let mut w = control.request_writer(p.want as usize);
            let mut v = self.next;
            for k in 0..p.items.min(p.want) {
                if p.every > 0 && k % p.every == 0 {
                    Nap(false).await;
                }
                if w.push_item(T(Tracked::new(v))).is_err() {
                    break;
                }
                v += 1;
            }
            // only now: a load given up before has taken nothing from the source
            self.i += 1;
            self.next = v;
            w.advance()
        })
    }
}
struct Exact;
impl BufferStrategy for Exact {
    fn calc_capacity(&self, min: usize) -> usize {
        min
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Read(u8),
    Adv(u8),
    Any,
    /// the next n items; the last one possibly wrong
    Literal(u8, bool),
    /// gather up to n items
    Gather(u8, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stream {
    plan: Vec<Piece>,
    /// one pump: loads (given up after so many polls), forced commit
    pumps: Vec<(Option<u8>, bool)>,
    /// pumps before the reader starts
    first: u8,
    ops: Vec<(Op, Option<u8>)>,
    /// after an operation was given up: the loader goes on to the end
    rest: bool,
    loader_last: bool,
    handles_first: bool,
}

struct Gather;
struct GatherState;
impl<S: Sequence<Segment = [T], Length = usize>> IterativeParserOnce<S> for Gather {
    type Output = T;
    type Error = Miss<()>;
    type StateOnce = GatherState;
    fn parse_iterative_once(self) -> GatherState {
        GatherState
    }
}
impl<S: Sequence<Segment = [T], Length = usize>> IterativeParser<S> for Gather {
    type State<'a> = GatherState;
    fn parse_iterative(&self) -> GatherState {
        GatherState
    }
}
impl<S: Sequence<Segment = [T], Length = usize>> IterativeParserState<S> for GatherState {
    type Output = T;
    type Error = Miss<()>;
    async fn parse_next(&mut self, input: S) -> ParseResult<S, Option<T>, Miss<()>> {
        match any_item().parse(input).await {
            Ok((v, r)) => Ok((Some(v), r)),
            // SAFETY: a failed `any_item` has consumed nothing
            Err((_, r)) => Ok((None, unsafe { r.unwrap() })),
        }
    }
}

type Buf = GenericSequenceBuffer<T>;
type Seq = DefaultSequence<NoSource<T>, With<Buf>>;

#[derive(Default)]
struct Seen {
    given: u32,
    gone: bool,
    loads: u32,
}
fn streaming(c: &Stream) -> Result<Seen, String> {
    let src = Src { plan: c.plan.clone(), i: 0, next: 0 };
    let (buf, mut loader) = GenericSequenceBuilder::verif_new(Exact).build(src);
    let total: u32 = c.plan.iter().map(|p| p.items.min(p.want) as u32).sum();
    let mut seq: Seq = DefaultSequence::new(buf, NoLoader(PhantomData));
    let (notify, done) = seq.verif_producer_handles();
    let (mut ended, mut n, mut commited, mut gave_up_load) = (false, 0usize, 0usize, 0u32);
    let mut fault: Option<String> = None;
    let mut pump = |all: bool| -> bool {
        if ended || fault.is_some() {
            return false;
        }
        let (give_up, force) = c.pumps.get(n % c.pumps.len().max(1)).cloned().unwrap_or((None, true));
        n += 1;
        // a loader that never gets to the end of a load would never end
        let give_up = if all || n % 3 == 0 { None } else { give_up };
        match upto(loader.load(), give_up, || false) {
            Err(e) => fault = Some(format!("load: {e}")),
            Ok(None) => gave_up_load += 1,
            Ok(Some(Err(()))) => fault = Some("the load failed".into()),
            Ok(Some(Ok(info))) => {
                commited += info.commited();
                if info.is_done() {
                    ended = true;
                } else if force {
                    loader.force_commit();
                    commited += info.uncommited();
                }
            }
        }
        if ended {
            done.store(true, SeqCst);
        }
        notify.send();
        true
    };
    for _ in 0..c.first {
        pump(false);
    }
    let mut at = 0u32;
    let mut alive = Some(seq);
    let mut given = 0u32;
    for (op, give_up) in &c.ops {
        let Some(s) = alive.take() else { break };
        seq = s;
        let left = total - at;
        match op {
            Op::Read(k) => {
                let mut next = at;
                let mut st = seq.segments();
                for _ in 0..*k {
                    match upto(st.next(0), *give_up, || pump(false))? {
                        None => {
                            given += 1;
                            // and again, to the end of it
                        }
                        Some(None) => {
                            ensure_eq!(next, total, "end of the input at");
                            break;
                        }
                        Some(Some(p)) => {
                            for i in p {
                                ensure_eq!(i.0.get()?, next, "item read");
                                next += 1;
                            }
                        }
                    }
                }
                drop(st);
                alive = Some(seq);
            }
            Op::Adv(k) => match upto(seq.advance(*k as usize), *give_up, || pump(false))? {
                None => given += 1,
                Some(s) => {
                    at += left.min(*k as u32);
                    alive = Some(s);
                }
            },
            Op::Any => match upto(any_item::<T, Seq>().parse(seq), *give_up, || pump(false))? {
                None => given += 1,
                Some(Ok((v, s))) => {
                    ensure_eq!(v.0.get()?, at, "any item");
                    at += 1;
                    alive = Some(s);
                }
                Some(Err(_)) => ensure_eq!(left, 0, "items left when none was found"),
            },
            Op::Literal(k, wrong) => {
                let mut lit: Vec<T> = (0..*k as u32).map(|i| T(Tracked::new(at + i))).collect();
                if *wrong && !lit.is_empty() {
                    *lit.last_mut().unwrap() = T(Tracked::new(1 << 30));
                }
                let fits = *k as u32 <= left && (!*wrong || *k == 0);
                let p = ParserExtension::<Seq>::map(atom(lit), |_| Tracked::new(0));
                match upto(ParserExtension::<Seq>::boxed(p).parse_once(seq), *give_up, || pump(false))? {
                    None => given += 1,
                    Some(Ok((_, s))) => {
                        ensure!(fits, "a literal of {k} items (wrong: {wrong}) matched with {left} items left");
                        at += *k as u32;
                        alive = Some(s);
                    }
                    Some(Err(_)) => ensure!(!fits, "a literal of {k} items did not match with {left} items left"),
                }
            }
            Op::Gather(k, kind) => {
                let want: Vec<u32> = (at..total).take(*k as usize).collect();
                let it = IterativeParserExtension::<Seq>::take(Gather, *k as usize);
                let push = |mut v: Vec<T>, t: T| {
                    v.push(t);
                    v
                };
                let r = match kind % 3 {
                    0 => {
                        let p = IterativeParserExtension::<Seq>::fold(it, vec![T(Tracked::new(7))], push);
                        upto(p.parse_once(seq), *give_up, || pump(false))?
                    }
                    1 => {
                        let p = IterativeParserExtension::<Seq>::fold(it, vec![T(Tracked::new(7))], push);
                        upto(p.parse(seq), *give_up, || pump(false))?
                    }
                    _ => {
                        let it = IterativeParserExtension::<Seq>::scan(it, vec![], |seen: &mut Vec<T>, t: T| {
                            seen.push(t.clone());
                            t
                        });
                        let it = IterativeParserExtension::<Seq>::map_each(it, |t| t);
                        let p = IterativeParserExtension::<Seq>::fold(it, vec![T(Tracked::new(7))], push);
                        upto(p.parse(seq), *give_up, || pump(false))?
                    }
                };
                match r {
                    None => given += 1,
                    Some(Ok((v, s))) => {
                        let got = v[1..].iter().map(|t| t.0.get()).collect::<Result<Vec<u32>, _>>()?;
                        ensure_eq!(got, want, "gathered");
                        at += want.len() as u32;
                        alive = Some(s);
                    }
                    Some(Err(_)) => return Err("gathering failed".into()),
                }
            }
        }
    }
    if c.rest {
        while pump(true) {}
    }
    if let Some(f) = fault {
        return Err(f);
    }
    if c.rest {
        ensure_eq!(commited, total as usize, "items reported as committed");
    }
    let seen = Seen { given, gone: alive.is_none() && given > 0, loads: gave_up_load };
    if c.handles_first {
        drop((notify, done));
        if c.loader_last {
            drop(alive);
            drop(loader);
        } else {
            drop(loader);
            drop(alive);
        }
    } else {
        if c.loader_last {
            drop(alive);
            drop(loader);
        } else {
            drop(loader);
            drop(alive);
        }
        notify.send();
        drop((notify, done));
    }
    Ok(seen)
}

// ------------------------------------------------------------------ the check

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Case {
    Grammar { g: Grammar, tape: Vec<u16>, delivery: Delivery, polls: u16, call: u16 },
    Steps(Steps),
    Stream(Stream),
    Typed { c: typed::Case, polls: u16, call: u16 },
}
struct C23;
impl Check for C23 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> &'static str {
        "(a) grammars over all combinators on a segmented, suspending sequence, whose parse is dropped after a generated number of polls, or ended by a panic of the user code (mappings, checks, leaves, operators, conversions, errors) it calls at a generated call; (b) reads, advances, literals, items and folds on a streaming sequence over drop-counted items, and loads of it, dropped after a generated number of polls while the producer goes on; guarded heap, no block and no item may remain or be dropped twice, what is not dropped goes on correctly. (c) parsers of their own types (outputs and errors without size, drop-counted, without values) given up in the same two ways, after which the same parser parses the same input as if nothing had happened. (d) iterations stepped by hand, some steps given up after a generated number of polls and begun again on the same state: the items are those of the list operations. Non-trivial: a parse given up after at least 3 polls or by a panic at the third call or later, an operation given up on a sequence of at least 2 chunks, or an item given after a step was given up"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(800_000, 16_000_000)
    }
    fn stack_size(&self) -> usize {
        256 << 20
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Case> {
        let b = gen::Bias { fail: 2, fatal: 1, reclass: true, iter: 3, modes: true, depth: 5, size: t.pick(16, 30) };
        let pend = prop_oneof![Just(vec![1u8]), prop::collection::vec(0u8..3, 1..5)];
        let gr = (gen::grammar(b), gen::tape(), sgen::delivery(), pend, prop_oneof![3 => 0u16..12, 2 => 0u16..80, 1 => 0u16..1000],
            prop_oneof![3 => Just(0u16), 2 => 1u16..12, 2 => 1u16..60])
            .prop_map(|(g, tape, mut delivery, pend, polls, call)| {
                delivery.pend = pend;
                // most of those that panic are not given up before
                let polls = if call > 0 && polls % 4 > 0 { u16::MAX } else { polls };
                Case::Grammar { g, tape, delivery, polls, call }
            });
        let piece = (0u8..8, 0u8..8, 0u8..4, 0u8..3).prop_map(|(items, want, every, before)| Piece { items, want, every, before });
        let give = || prop_oneof![3 => Just(None), 2 => (0u8..6).prop_map(Some)];
        let op = prop_oneof![
            2 => (1u8..5).prop_map(Op::Read),
            2 => (0u8..12).prop_map(Op::Adv),
            1 => Just(Op::Any),
            2 => (0u8..8, prop::bool::weighted(0.2)).prop_map(|(n, w)| Op::Literal(n, w)),
            2 => (0u8..10, 0u8..3).prop_map(|(n, k)| Op::Gather(n, k)),
        ];
        let st = (
            prop::collection::vec(piece, 0..8),
            prop::collection::vec((prop_oneof![2 => Just(None), 1 => (0u8..5).prop_map(Some)], any::<bool>()), 0..5),
            0u8..4,
            prop::collection::vec((op, give()), 0..8),
            any::<bool>(),
            any::<bool>(),
            any::<bool>(),
        )
            .prop_map(|(plan, pumps, first, ops, rest, loader_last, handles_first)| {
                Case::Stream(Stream { plan, pumps, first, ops, rest, loader_last, handles_first })
            });
        let typed = (typed::strategy(), prop_oneof![1 => Just(u16::MAX), 2 => 0u16..12, 1 => 0u16..80], prop_oneof![1 => Just(0u16), 1 => 1u16..10])
            .prop_map(|(c, polls, call)| Case::Typed { c, polls, call });
        let b = gen::Bias { fail: 1, fatal: 1, reclass: true, iter: 1, modes: true, depth: 2, size: 6 };
        let n = gen::node(b);
        let pend = prop_oneof![Just(vec![1u8]), prop::collection::vec(0u8..3, 1..5)];
        let gives = prop::collection::vec(prop_oneof![2 => Just(None), 3 => (0u8..10).prop_map(Some)], 1..8);
        let steps = (gen::it(b, n.clone()), prop::collection::vec(n, 1..3), gen::tape(), sgen::delivery(), pend, gives, 1u8..12)
            .prop_map(|(it, aux, tape, mut delivery, pend, gives, n)| {
                delivery.pend = pend;
                Case::Steps(Steps { it, aux, tape, delivery, gives, n })
            });
        prop_oneof![4 => gr, 10 => st, 4 => typed, 3 => steps].boxed()
    }
    fn run(&self, c: &Case, ob: &mut Obs) -> Result<(), String> {
        tracked::reset();
        take_fault();
        let r = match c {
            Case::Grammar { g, tape, delivery, polls, call } => {
                let input = input_for(g, tape);
                if Model::new(g, &input).eval(&g.rules[0], 0).is_err() {
                    ob.label("discarded: evaluation too long");
                    return Ok(());
                }
                grammar::<StrK>("text", g, &input, delivery, *polls as u64, *call as u64, ob)
                    .and_then(|()| grammar::<ItemK>("items", g, &input, delivery, *polls as u64, *call as u64, ob))
            }
            Case::Steps(c) => {
                let it = retriable(&c.it);
                let g = Grammar { rules: c.aux.clone() };
                let mut t = Tape::new(&c.tape);
                let mut input = vec![];
                sample_it(&g, &it, &mut t, &mut input, &mut 60);
                if c.tape.len() % 3 == 0 {
                    mutate(&mut t, &mut input);
                }
                steps::<StrK>("text", c, &it, &g, &input, ob).and_then(|()| steps::<ItemK>("items", c, &it, &g, &input, ob))
            }
            Case::Typed { c, polls, call } => catch(|| typed::run_given_up(c, *polls as u64, *call as u64, ob)).and_then(|r| r),
            Case::Stream(c) => {
                // the register itself allocates
                drop(Tracked::new(0));
                let before = counters();
                let r = catch(|| streaming(c)).and_then(|r| r);
                let after = counters();
                r.and_then(|s| {
                    ob.label("streaming");
                    ob.label_if(s.given > 0, "an operation was given up");
                    ob.label_if(s.gone, "the sequence went with it");
                    ob.label_if(s.loads > 0, "a load was given up");
                    ob.label_if(c.rest, "loaded on to the end");
                    ob.nontrivial = s.given > 0 && c.plan.len() >= 2;
                    tracked::settled()?;
                    ensure!(after.live == before.live, "{} heap block(s) were not freed", after.live - before.live);
                    Ok(())
                })
            }
        };
        match take_fault() {
            Some(f) => Err(format!("heap fault: {f}")),
            None => r,
        }
    }
}

fn main() {
    pbt::fw::main(&[&C23]);
}
