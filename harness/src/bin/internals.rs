//! C17 notifications, C19 the small vector, C20 filtered observables.
use parcom_internals::future::notify::{Notify, Wait};
use parcom_internals::reactive::{IObservable, IObserver, ObservableExtensions};
use parcom_internals::ShortVec;
use pbt::fw::exec::Count;
use pbt::fw::guard::{self, Guard};
use pbt::fw::tracked::{self, Tracked};
use pbt::fw::{catch, Check, Obs, Tier};
use pbt::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::fmt::Debug;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

#[global_allocator]
static GUARD: Guard = Guard;

// ---------------------------------------------------------------- C17

#[derive(Clone, Debug, Serialize, Deserialize)]
enum NOp {
    Wait,
    /// that many waits, each polled with a waker of its own
    Crowd(u32),
    /// poll wait i with waker w
    Poll(u8, u8),
    Drop(u8),
    Send,
    /// that many sends in a row
    Burst(u32),
    /// drop a waker: registered clones of it stay usable
    NewWaker(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum WStep {
    Create,
    Poll(u8),
    Drop,
    /// wait to be woken if the last poll was pending, unless all senders are done
    Idle,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Case17 {
    History(Vec<NOp>),
    Threads { waiters: Vec<Vec<WStep>>, senders: Vec<u8>, choices: Vec<u8> },
}
struct C17;

fn history(ops: &[NOp], ob: &mut Obs) -> Result<(), String> {
    struct W<'a> {
        wait: Pin<Box<Wait<'a>>>,
        /// sends before its creation
        born: u64,
        /// the waker of the latest poll, if that was pending, and how often it had been woken by then
        pending: Option<(Arc<Count>, usize)>,
    }
    let notify = Notify::new();
    let mut sends = 0u64;
    let mut waits: Vec<Option<W>> = vec![];
    let mut wakers: Vec<Arc<Count>> = (0..4).map(|_| Arc::new(Count::default())).collect();
    let (mut completed, mut woken, mut repolled, mut gone) = (0, 0, 0, 0);
    for op in ops {
        match op {
            NOp::Wait => {
                let wait = Box::pin(notify.wait());
                waits.push(Some(W { wait, born: sends, pending: None }));
            }
            NOp::Crowd(n) => {
                for _ in 0..*n {
                    let mut wait = Box::pin(notify.wait());
                    let c = Arc::new(Count::default());
                    let waker: Waker = c.clone().into();
                    let r = wait.as_mut().poll(&mut Context::from_waker(&waker));
                    ensure!(r.is_pending(), "a wait completed without a send after its creation");
                    waits.push(Some(W { wait, born: sends, pending: Some((c, 0)) }));
                }
                ob.label_if(*n >= 100, "100 or more waits pending at once");
            }
            NOp::Poll(i, w) => {
                if waits.is_empty() {
                    continue;
                }
                let i = *i as usize % waits.len();
                let c = wakers[*w as usize % wakers.len()].clone();
                let Some(s) = &mut waits[i] else { continue };
                let seen = c.get();
                let waker: Waker = c.clone().into();
                let r = s.wait.as_mut().poll(&mut Context::from_waker(&waker));
                let due = sends > s.born;
                match r {
                    Poll::Ready(()) if !due => return Err(format!("wait {i} completed without a send after its creation")),
                    Poll::Pending if due => {
                        return Err(format!("wait {i} is pending although {} send(s) followed its creation", sends - s.born))
                    }
                    Poll::Ready(()) => {
                        completed += 1;
                        waits[i] = None;
                    }
                    Poll::Pending => {
                        if s.pending.is_some() {
                            repolled += 1;
                        }
                        s.pending = Some((c, seen));
                    }
                }
            }
            NOp::Drop(i) => {
                if !waits.is_empty() {
                    let i = *i as usize % waits.len();
                    if waits[i].take().is_some_and(|w| w.pending.is_some()) {
                        gone += 1;
                    }
                }
            }
            NOp::Send | NOp::Burst(_) => {
                let n = if let NOp::Burst(n) = op { *n as u64 } else { 1 };
                for _ in 0..n {
                    notify.send();
                }
                sends += n;
                ob.label_if(n >= 256, "256 or more sends in a row");
                for (i, w) in waits.iter_mut().enumerate() {
                    let Some(w) = w else { continue };
                    if let Some((c, seen)) = &mut w.pending {
                        ensure!(c.get() > *seen, "the task that polled wait {i} last was not woken by the send");
                        woken += 1;
                        // a send wakes each poll once
                        w.pending = None;
                    }
                }
            }
            NOp::NewWaker(w) => {
                let n = wakers.len();
                wakers[*w as usize % n] = Arc::new(Count::default());
            }
        }
    }
    drop(waits);
    ob.nontrivial = completed > 0 && woken > 0;
    ob.label("history");
    ob.label_if(completed > 0, "completed");
    ob.label_if(woken > 1, "several woken");
    ob.label_if(repolled > 0, "re-polled");
    ob.label_if(gone > 0, "a pending wait was dropped");
    Ok(())
}

#[cfg(feature = "sched")]
mod threads {
    use super::*;
    use s_internals::future::notify::{Notify, Wait};
    use shuttle::thread;
    use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
    use std::sync::Mutex;
    use std::task::Wake;

    /// when it was woken (clock)
    struct Bell {
        clock: Arc<AtomicU64>,
        rung: Mutex<Vec<u64>>,
        count: AtomicUsize,
    }
    impl Wake for Bell {
        fn wake(self: Arc<Self>) {
            self.wake_by_ref()
        }
        fn wake_by_ref(self: &Arc<Self>) {
            self.count.fetch_add(1, SeqCst);
            let t = self.clock.fetch_add(1, SeqCst);
            self.rung.lock().unwrap().push(t);
        }
    }
    #[derive(Default)]
    struct Log {
        /// (start, end)
        sends: Vec<(u64, u64)>,
        started: Vec<u64>,
        fault: Option<String>,
        facts: [bool; 4],
    }
    struct PollRec {
        start: u64,
        end: u64,
        bell: Arc<Bell>,
    }
    struct Slot<'a> {
        wait: Pin<Box<Wait<'a>>>,
        before: u64,
        after: u64,
        last: Option<PollRec>,
    }

    pub fn run(waiters: &[Vec<WStep>], senders: &[u8], choices: &[u8], ob: &mut Obs) -> Result<(), String> {
        let log = Arc::new(Mutex::new(Log::default()));
        let (w, s, l) = (waiters.to_vec(), senders.to_vec(), log.clone());
        pbt::sched::explore(choices, move || scenario(&w, &s, &l))?;
        let mut log = log.lock().unwrap();
        if let Some(f) = log.fault.take() {
            return Err(f);
        }
        ob.label("threads");
        ob.nontrivial = log.facts[0];
        ob.label_if(log.facts[0], "threads: a send overlapped a poll or the creation of a wait");
        ob.label_if(log.facts[1], "threads: completed");
        ob.label_if(log.facts[2], "threads: a pending wait had to be woken");
        ob.label_if(log.facts[3], "threads: re-polled");
        Ok(())
    }

    /// every send that began after the wait was created and ended before the poll was superseded woke it
    fn check_woken(log: &mut Log, s: &Slot, now: u64) {
        let Some(p) = &s.last else { return };
        let due: Vec<_> = log.sends.iter().filter(|(a, b)| *a > s.after && *b > p.start && *b < now).copied().collect();
        if let Some(d) = due.first() {
            log.facts[2] = true;
            if !p.bell.rung.lock().unwrap().iter().any(|t| *t > p.start) {
                log.fault.get_or_insert(format!(
                    "a task whose latest poll ({}..{}) was pending was not woken by the send at {}..{} (wait created at {})",
                    p.start, p.end, d.0, d.1, s.after
                ));
            }
        }
    }

    fn scenario(waiters: &[Vec<WStep>], senders: &[u8], log: &Arc<Mutex<Log>>) {
        *log.lock().unwrap() = Log::default();
        let clock = Arc::new(AtomicU64::new(1));
        let notify = Arc::new(Notify::new());
        let done = Arc::new(AtomicBool::new(false));
        let mut hs = vec![];
        for n in senders.iter().copied() {
            let (clock, notify, log) = (clock.clone(), notify.clone(), log.clone());
            hs.push(thread::spawn(move || {
                for _ in 0..n {
                    let a = clock.fetch_add(1, SeqCst);
                    log.lock().unwrap().started.push(a);
                    notify.send();
                    let b = clock.fetch_add(1, SeqCst);
                    log.lock().unwrap().sends.push((a, b));
                }
            }));
        }
        let mut ws = vec![];
        for steps in waiters.iter().cloned() {
            let (clock, notify, log, done) = (clock.clone(), notify.clone(), log.clone(), done.clone());
            ws.push(thread::spawn(move || {
                let tick = || clock.fetch_add(1, SeqCst);
                let bells: Vec<Arc<Bell>> = (0..3)
                    .map(|_| Arc::new(Bell { clock: clock.clone(), rung: Default::default(), count: AtomicUsize::new(0) }))
                    .collect();
                let mut slot: Option<Slot> = None;
                for st in &steps {
                    match st {
                        WStep::Create => {
                            if let Some(s) = slot.take() {
                                check_woken(&mut log.lock().unwrap(), &s, tick());
                            }
                            let before = tick();
                            let wait = Box::pin(notify.wait());
                            slot = Some(Slot { wait, before, after: tick(), last: None });
                        }
                        WStep::Poll(b) => {
                            let Some(s) = &mut slot else { continue };
                            let start = tick();
                            check_woken(&mut log.lock().unwrap(), s, start);
                            let bell = bells[*b as usize % 3].clone();
                            let waker: Waker = bell.clone().into();
                            let r = s.wait.as_mut().poll(&mut Context::from_waker(&waker));
                            let end = tick();
                            let mut l = log.lock().unwrap();
                            let l = &mut *l;
                            let sends = &l.sends;
                            if l.started.iter().any(|a| *a < end && *a > s.before && !sends.iter().any(|(x, y)| x == a && *y < start)) {
                                l.facts[0] = true;
                            }
                            let could = l.started.iter().any(|a| *a < end && sends.iter().all(|(x, y)| x != a || *y > s.before));
                            let must = sends.iter().any(|(a, b)| *a > s.after && *b < start);
                            match r {
                                Poll::Ready(()) => {
                                    l.facts[1] = true;
                                    if !could {
                                        l.fault.get_or_insert("a wait completed without a send after its creation".into());
                                    }
                                    slot = None;
                                }
                                Poll::Pending => {
                                    if must {
                                        l.fault.get_or_insert("a wait is pending although a send followed its creation".into());
                                    }
                                    if s.last.is_some() {
                                        l.facts[3] = true;
                                    }
                                    s.last = Some(PollRec { start, end, bell });
                                }
                            }
                        }
                        WStep::Drop => {
                            if let Some(s) = slot.take() {
                                check_woken(&mut log.lock().unwrap(), &s, tick());
                            }
                        }
                        WStep::Idle => {
                            let Some(p) = slot.as_ref().and_then(|s| s.last.as_ref()) else { continue };
                            let mut n = 0;
                            while n < 200 && !done.load(SeqCst) && !p.bell.rung.lock().unwrap().iter().any(|t| *t > p.start) {
                                thread::yield_now();
                                n += 1;
                            }
                        }
                    }
                }
                // let every send end
                while !done.load(SeqCst) {
                    thread::yield_now();
                }
                if let Some(mut s) = slot.take() {
                    check_woken(&mut log.lock().unwrap(), &s, tick());
                    let must = log.lock().unwrap().sends.iter().any(|(a, _)| *a > s.after);
                    let r = s.wait.as_mut().poll(&mut Context::from_waker(Waker::noop()));
                    if must && r.is_pending() {
                        log.lock().unwrap().fault.get_or_insert("a wait never completes although a send followed its creation".into());
                    }
                }
            }));
        }
        for h in hs {
            h.join().unwrap();
        }
        done.store(true, SeqCst);
        for w in ws {
            w.join().unwrap();
        }
    }
}

impl Check for C17 {
    type Case = Case17;
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "histories of wait/poll/re-poll/drop/send over up to thousands of waits and replaceable counting wakers against a counter model; and 1-3 waiting and 1-2 sending threads over the same source compiled with schedulable atomics and locks, under a generated schedule of preemptions at each such operation, judged by interval order of sends, creations and polls. Non-trivial: a history with a completed and a woken wait; a schedule in which a send overlaps a poll or falls between creation and poll"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(250_000, 3_000_000)
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Case17> {
        let n = t.pick(40, 120);
        let op = prop_oneof![
            300 => Just(NOp::Wait),
            600 => (0u8..12, 0u8..4).prop_map(|(i, w)| NOp::Poll(i, w)),
            100 => (0u8..12).prop_map(NOp::Drop),
            4 => prop_oneof![20 => 1u32..40, 12 => 40u32..700, 1 => 4_000u32..5_000].prop_map(NOp::Crowd),
            200 => Just(NOp::Send),
            10 => prop_oneof![3 => 1u32..600, 2 => (1u32..9).prop_map(|k| k * 256)].prop_map(NOp::Burst),
            1 => (1u32..3).prop_map(|k| NOp::Burst(k << 16)),
            100 => (0u8..4).prop_map(NOp::NewWaker),
        ];
        let hist = prop::collection::vec(op, 1..n).prop_map(Case17::History);
        if !cfg!(feature = "sched") {
            return hist.boxed();
        }
        let step = prop_oneof![
            2 => Just(WStep::Create),
            5 => (0u8..3).prop_map(WStep::Poll),
            1 => Just(WStep::Drop),
            1 => Just(WStep::Idle),
        ];
        let prog = prop::collection::vec(step, 0..5).prop_map(|mut v| {
            v.insert(0, WStep::Create);
            v
        });
        let choice = |w: u32| prop_oneof![w => Just(0u8), 3 => 1u8..6];
        let choices = prop_oneof![
            3 => prop::collection::vec(choice(2), 0..60),
            3 => prop::collection::vec(choice(9), 0..90),
            1 => prop::collection::vec(choice(30), 0..120),
        ];
        let thr = (
            prop::collection::vec(prog, 1..t.pick(3, 4)),
            prop::collection::vec(1u8..3, 1..3),
            choices,
        )
            .prop_map(|(waiters, senders, choices)| Case17::Threads { waiters, senders, choices });
        prop_oneof![1 => hist, 2 => thr].boxed()
    }
    fn run(&self, c: &Case17, ob: &mut Obs) -> Result<(), String> {
        match c {
            Case17::History(ops) => history(ops, ob),
            #[cfg(feature = "sched")]
            Case17::Threads { waiters, senders, choices } => threads::run(waiters, senders, choices, ob),
            #[cfg(not(feature = "sched"))]
            Case17::Threads { .. } => Ok(()),
        }
    }
    fn assumptions(&self) -> Vec<String> {
        if cfg!(feature = "sched") {
            vec!["the compiled thread schedules are sequentially consistent: weaker memory orderings are explored in the interpreted cases only".into()]
        } else {
            vec!["the code did not build over the scheduled std: no thread schedules were explored".into()]
        }
    }
}

// ---------------------------------------------------------------- C19

trait Elem: Sized + 'static {
    const ZST: bool = false;
    fn make(v: u32) -> Self;
    fn val(&self) -> Result<u32, String>;
    fn norm(v: u32) -> u32 {
        v
    }
}
impl Elem for Tracked {
    fn make(v: u32) -> Self {
        Tracked::new(v)
    }
    fn val(&self) -> Result<u32, String> {
        self.get()
    }
}
impl Elem for () {
    const ZST: bool = true;
    fn make(_: u32) {}
    fn val(&self) -> Result<u32, String> {
        Ok(0)
    }
    fn norm(_: u32) -> u32 {
        0
    }
}
impl Elem for u8 {
    fn make(v: u32) -> u8 {
        v as u8
    }
    fn val(&self) -> Result<u32, String> {
        Ok(*self as u32)
    }
    fn norm(v: u32) -> u32 {
        v as u8 as u32
    }
}
#[repr(align(64))]
struct Wide(u32);
impl Elem for Wide {
    fn make(v: u32) -> Self {
        Wide(v)
    }
    fn val(&self) -> Result<u32, String> {
        ensure!(self as *const _ as usize % 64 == 0, "misaligned item");
        Ok(self.0)
    }
}
impl Elem for [u8; 3] {
    fn make(v: u32) -> Self {
        [v as u8, (v >> 8) as u8, 0x5a]
    }
    fn val(&self) -> Result<u32, String> {
        ensure_eq!(self[2], 0x5a, "item tail");
        Ok(self[0] as u32 | (self[1] as u32) << 8)
    }
    fn norm(v: u32) -> u32 {
        v & 0xffff
    }
}
/// a zero-sized item with drop glue
struct ZDrop;
thread_local! {
    static ZLIVE: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}
impl Elem for ZDrop {
    const ZST: bool = true;
    fn make(_: u32) -> Self {
        ZLIVE.set(ZLIVE.get() + 1);
        ZDrop
    }
    fn val(&self) -> Result<u32, String> {
        Ok(0)
    }
    fn norm(_: u32) -> u32 {
        0
    }
}
impl Drop for ZDrop {
    fn drop(&mut self) {
        ZLIVE.set(ZLIVE.get() - 1);
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum VOp {
    Push,
    PushMany(u16),
    Pop,
    PopMany(u16),
    /// total capacity
    Reserve(u16),
    /// relative to the length
    ReserveMore(u16),
    ReserveExact(u16),
    /// a capacity whose byte size exceeds the address space: must be refused, leaving the vector as it was;
    /// with zero-sized items, a larger and larger one that is granted
    Huge(bool),
    Set(u16),
    Swap(u16, u16),
    Move,
    Restart(Option<u16>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case19 {
    kind: u8,
    inline: u8,
    cap: Option<u16>,
    ops: Vec<VOp>,
}
/// stands for making the vector with `Default`
const DEFAULT: u16 = u16::MAX;
struct C19;

fn shortvec<T: Elem, const N: usize>(c: &Case19, ob: &mut Obs) -> Result<(), String> {
    tracked::reset();
    ZLIVE.set(0);
    // count only what the vector itself allocates
    let allocs = std::cell::Cell::new(0u64);
    macro_rules! counted {
        ($e:expr) => {{
            let a = guard::counters().allocs;
            let r = $e;
            allocs.set(allocs.get() + guard::counters().allocs - a);
            r
        }};
    }
    let make = |cap: Option<u16>| match cap {
        None => ShortVec::<T, N>::new(),
        Some(DEFAULT) => ShortVec::<T, N>::default(),
        Some(n) => ShortVec::<T, N>::with_capacity(n as usize),
    };
    let req = |cap: Option<u16>| match cap {
        None | Some(DEFAULT) => 0,
        Some(n) => n as usize,
    };
    let mut v = counted!(make(c.cap));
    let mut model: Vec<u32> = vec![];
    // capacity guaranteed so far: no item moves and nothing is allocated up to this length
    let mut room = req(c.cap).max(N);
    // the largest length or capacity asked for
    let mut most = req(c.cap);
    let mut next = 0u32;
    let (mut spilled, mut refilled, mut huge, mut far) = (false, 0, 0, 0);
    let check = |v: &mut ShortVec<T, N>, model: &[u32], at: &str| -> Result<(), String> {
        let want: Vec<u32> = model.iter().map(|x| T::norm(*x)).collect();
        ensure_eq!(v.as_slice().len(), want.len(), "length {at}");
        let got = v.as_slice().iter().map(|x| x.val()).collect::<Result<Vec<_>, _>>()?;
        ensure_eq!(got, want, "contents {at}");
        ensure_eq!(v.as_slice_mut().len(), want.len(), "length of the mutable slice {at}");
        let got = v.as_slice_mut().iter().map(|x| x.val()).collect::<Result<Vec<_>, _>>()?;
        ensure_eq!(got, want, "contents of the mutable slice {at}");
        ensure_eq!(v.is_empty(), want.is_empty(), "is_empty {at}");
        ensure_eq!(v.as_ptr(), v.as_slice().as_ptr(), "as_ptr {at}");
        Ok(())
    };
    check(&mut v, &model, "of a new vector")?;
    for (k, op) in c.ops.iter().enumerate() {
        let at = format!("after step {k} {op:?}");
        let ptr = v.as_ptr();
        let a0 = allocs.get();
        let mut stable = true;
        match op {
            VOp::Push | VOp::PushMany(_) => {
                let n = if let VOp::PushMany(n) = op { *n as usize } else { 1 };
                for _ in 0..n {
                    next += 1;
                    let item = T::make(next);
                    counted!(v.push(item));
                    model.push(next);
                }
                stable = model.len() <= room;
                if model.len() > most {
                    most = model.len();
                } else {
                    refilled += 1;
                }
                room = room.max(model.len());
            }
            VOp::Pop | VOp::PopMany(_) => {
                let n = if let VOp::PopMany(n) = op { *n as usize } else { 1 };
                for _ in 0..n {
                    let r = v.pop();
                    let got = r.as_ref().map(|i| i.val()).transpose()?;
                    ensure_eq!(got, model.pop().map(T::norm), "popped item {at}");
                }
            }
            VOp::Reserve(_) | VOp::ReserveExact(_) | VOp::ReserveMore(_) => {
                let n = match op {
                    VOp::Reserve(n) | VOp::ReserveExact(n) => *n as usize,
                    VOp::ReserveMore(n) => model.len() + *n as usize,
                    _ => unreachable!(),
                };
                if let VOp::ReserveExact(_) = op {
                    counted!(v.reserve_exact(n));
                } else {
                    counted!(v.reserve(n));
                }
                stable = n <= room;
                most = most.max(n);
                room = room.max(n);
            }
            VOp::Huge(exact) => {
                if !T::ZST {
                    huge += 1;
                    let n = isize::MAX as usize / std::mem::size_of::<T>() + 1;
                    let r = catch(|| if *exact { v.reserve_exact(n) } else { v.reserve(n) });
                    ensure!(r.is_err(), "a capacity of {n} was accepted");
                    let r = catch(|| ShortVec::<T, N>::with_capacity(n).is_empty());
                    ensure!(r.is_err(), "a vector of capacity {n} was made");
                } else {
                    // any number of zero-sized items fits
                    huge += 1;
                    far += 1;
                    let n = isize::MAX as usize / 2 + 1 + far;
                    if *exact { v.reserve_exact(n) } else { v.reserve(n) }
                    ensure!(ShortVec::<T, N>::with_capacity(n).is_empty(), "a new vector holds items");
                }
            }
            VOp::Set(i) => {
                if !model.is_empty() {
                    let i = *i as usize % model.len();
                    next += 1;
                    v.as_slice_mut()[i] = T::make(next);
                    model[i] = next;
                }
            }
            VOp::Swap(i, j) => {
                if !model.is_empty() {
                    let (i, j) = (*i as usize % model.len(), *j as usize % model.len());
                    v.as_slice_mut().swap(i, j);
                    model.swap(i, j);
                }
            }
            VOp::Move => {
                let b = Box::new(v);
                check(&mut { *b }, &model, &at).map(|_| ())?;
                // the boxed one was dropped by the check: start again
                model.clear();
                v = counted!(make(c.cap));
                room = req(c.cap).max(N);
                most = req(c.cap);
                stable = false;
            }
            VOp::Restart(cap) => {
                v = counted!(make(*cap));
                model.clear();
                room = req(*cap).max(N);
                most = req(*cap);
                stable = false;
            }
        }
        if stable && !T::ZST {
            ensure_eq!(v.as_ptr(), ptr, "the items moved within the reserved capacity {at}");
            if !matches!(op, VOp::Huge(_)) {
                ensure_eq!(allocs.get(), a0, "allocations within the reserved capacity {at}");
            }
        }
        if T::ZST || most <= N {
            ensure!(
                allocs.get() == a0 || matches!(op, VOp::Huge(_) | VOp::Move | VOp::Restart(_)),
                "the heap was used with at most {most} items requested and room for {N} inline {at}"
            );
        }
        spilled |= most > N;
        check(&mut v, &model, &at)?;
        let z = ZLIVE.get();
        ensure!(z == 0 || z == model.len() as i64, "{z} zero-sized items alive, {} held {at}", model.len());
        if std::any::TypeId::of::<T>() == std::any::TypeId::of::<Tracked>() {
            ensure_eq!(tracked::live(), model.len() as i64, "items alive {at}");
        }
    }
    let n = model.len();
    drop(model);
    drop(v);
    ensure_eq!(ZLIVE.get(), 0, "zero-sized items alive at the end");
    tracked::settled()?;
    ob.nontrivial = spilled && c.ops.len() > 3;
    ob.label_if(spilled, "spilled to the heap");
    ob.label_if(spilled && N == 0, "no inline room");
    ob.label_if(refilled > 0, "refilled");
    ob.label_if(huge > 0, "refused capacity");
    ob.label_if(n > 0, "dropped with items");
    ob.label_if(most > 65_536, "a length or capacity beyond 65536");
    Ok(())
}

/// nothing the vector allocated may outlive it
fn leakless(f: impl FnOnce() -> Result<(), String>) -> Result<(), String> {
    tracked::reset();
    let before = guard::counters().live;
    let r = f();
    tracked::reset();
    // with an error, its text is alive
    if r.is_ok() {
        ensure_eq!(guard::counters().live, before, "live heap allocations");
    }
    r
}

impl Check for C19 {
    type Case = Case19;
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "histories of push/pop/reserve/reserve_exact/slice reads and writes/refused capacities/restarts on vectors with inline sizes 0-100 and items of sizes 0, 1, 3, 16 and 64 (drop-counted, zero-sized with and without drop glue, over-aligned), against Vec, on a guarded heap whose allocations are counted. Non-trivial: spilled, with more than 3 operations"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(1_000_000, 12_000_000)
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Case19> {
        // mostly short histories of small vectors; some long ones, and some of vectors of thousands of items
        fn sized(n: usize, most: u16) -> BoxedStrategy<Case19> {
            let size = |r: std::ops::Range<u16>| pbt::fw::sizes(r.start as u32..r.end as u32).prop_map(|n| n as u16).boxed();
            let cap = || prop_oneof![3 => Just(None), 2 => (0u16..10).prop_map(Some), 1 => size(0..most).prop_map(Some), 1 => Just(Some(DEFAULT))];
            let small = || prop_oneof![4 => 0u16..10, 1 => 0u16..60, 1 => size(0..most)];
            let many = || prop_oneof![6 => 0u16..9, if most > 60_000 { 6 } else { 1 } => size(0..most / 2)];
            let op = prop_oneof![
                8 => Just(VOp::Push),
                3 => many().prop_map(VOp::PushMany),
                4 => Just(VOp::Pop),
                2 => many().prop_map(VOp::PopMany),
                2 => small().prop_map(VOp::Reserve),
                2 => small().prop_map(VOp::ReserveMore),
                2 => small().prop_map(VOp::ReserveExact),
                1 => any::<bool>().prop_map(VOp::Huge),
                2 => any::<u16>().prop_map(VOp::Set),
                2 => (any::<u16>(), any::<u16>()).prop_map(|(i, j)| VOp::Swap(i, j)),
                1 => Just(VOp::Move),
                1 => cap().prop_map(VOp::Restart),
            ];
            (0u8..7, 0u8..9, cap(), prop::collection::vec(op, 0..n))
                .prop_map(|(kind, inline, cap, ops)| Case19 { kind, inline, cap, ops })
                .boxed()
        }
        prop_oneof![
            8000 => sized(t.pick(24, 80), 60),
            40 => sized(t.pick(200, 800), 200),
            40 => sized(24, t.pick(4_000, 30_000)),
            2 => sized(12, u16::MAX - 1),
        ]
        .boxed()
    }
    fn run(&self, c: &Case19, ob: &mut Obs) -> Result<(), String> {
        fn by_n<T: Elem>(c: &Case19, ob: &mut Obs) -> Result<(), String> {
            match c.inline {
                0 => shortvec::<T, 0>(c, ob),
                1 => shortvec::<T, 1>(c, ob),
                2 => shortvec::<T, 2>(c, ob),
                3 => shortvec::<T, 3>(c, ob),
                4 => shortvec::<T, 4>(c, ob),
                5 => shortvec::<T, 5>(c, ob),
                7 => shortvec::<T, 16>(c, ob),
                8 => shortvec::<T, 100>(c, ob),
                _ => shortvec::<T, 8>(c, ob),
            }
        }
        // labels and thread-locals allocate on first use
        let mut o = Obs::default();
        ob.label(match c.kind {
            0 | 6 => "drop-counted items",
            1 => "unit items",
            2 => "bytes",
            3 => "over-aligned items",
            4 => "3-byte items",
            _ => "zero-sized items with drop glue",
        });
        let has_huge = c.ops.iter().any(|o| matches!(o, VOp::Huge(_)));
        let go = |o: &mut Obs| match c.kind {
            0 | 6 => by_n::<Tracked>(c, o),
            1 => by_n::<()>(c, o),
            2 => by_n::<u8>(c, o),
            3 => by_n::<Wide>(c, o),
            4 => by_n::<[u8; 3]>(c, o),
            _ => by_n::<ZDrop>(c, o),
        };
        if has_huge {
            // panics leave messages behind: not counted
            return go(ob);
        }
        go(&mut o)?;
        leakless(|| {
            let mut scratch = Obs::default();
            let r = go(&mut scratch);
            drop(scratch);
            r
        })?;
        *ob = merge(std::mem::take(ob), o);
        Ok(())
    }
}
fn merge(mut a: Obs, b: Obs) -> Obs {
    a.absorb(b);
    a
}

// ---------------------------------------------------------------- C20

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pred {
    /// accepts v with v % m in the set
    m: u8,
    set: Vec<u8>,
}
impl Pred {
    fn ok(&self, v: u32) -> bool {
        self.set.contains(&((v % self.m as u32) as u8))
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum ROp {
    /// subscribe to chain i
    Sub(u8),
    /// end subscription i
    End(u8),
    Emit(u8),
    /// that many items
    Burst(u8, u32),
    /// drop the handle of chain i: its subscriptions stay
    DropChain(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case20 {
    chains: Vec<Vec<Pred>>,
    /// what every new subscriber is sent at once
    greet: Vec<u8>,
    ops: Vec<ROp>,
}
struct C20;

struct Entry {
    id: usize,
    obj: *mut (),
    next: unsafe fn(*mut (), Tracked),
}
#[derive(Default)]
struct SubjectInner {
    entries: Vec<Entry>,
    n: usize,
    greet: Vec<u8>,
    faults: Vec<String>,
}
#[derive(Clone, Default)]
struct Subject(Rc<RefCell<SubjectInner>>);
struct Sub<U> {
    subject: Subject,
    id: usize,
    obj: *mut U,
}
impl<U> Drop for Sub<U> {
    fn drop(&mut self) {
        self.subject.0.borrow_mut().entries.retain(|e| e.id != self.id);
        // SAFETY: made by Box::into_raw, no longer registered
        drop(unsafe { Box::from_raw(self.obj) });
    }
}
impl IObservable<Tracked> for Subject {
    type Subscription<U: IObserver<Tracked>> = Sub<U>;
    fn subscribe<U: IObserver<Tracked>>(&self, observer: U) -> Sub<U> {
        unsafe fn next<U: IObserver<Tracked>>(p: *mut (), item: Tracked) {
            (*(p as *mut U)).next(item)
        }
        let mut observer = observer;
        let greet = self.0.borrow().greet.clone();
        for v in greet {
            observer.next(Tracked::new(v as u32));
        }
        let obj = Box::into_raw(Box::new(observer));
        let mut s = self.0.borrow_mut();
        s.n += 1;
        let id = s.n;
        s.entries.push(Entry { id, obj: obj as *mut (), next: next::<U> });
        Sub { subject: self.clone(), id, obj }
    }
}
impl Subject {
    fn emit(&self, v: u32) {
        let list: Vec<_> = self.0.borrow().entries.iter().map(|e| (e.obj, e.next)).collect();
        for (o, f) in list {
            // SAFETY: subscriptions are not ended while emitting
            unsafe { f(o, Tracked::new(v)) }
        }
    }
}
struct Sink(Rc<RefCell<Vec<Tracked>>>);
impl IObserver<Tracked> for Sink {
    fn next(&mut self, item: Tracked) {
        self.0.borrow_mut().push(item);
    }
}
type Boxed = Box<dyn Fn(&Tracked) -> bool>;
trait AnyChain {
    fn sub(&self, s: Sink) -> Box<dyn std::any::Any>;
}
struct Ch<O>(O);
impl<O> AnyChain for Ch<O>
where
    O: IObservable<Tracked>,
    O::Subscription<Sink>: 'static,
{
    fn sub(&self, s: Sink) -> Box<dyn std::any::Any> {
        Box::new(self.0.subscribe(s))
    }
}
fn chain(subject: &Subject, preds: &[Pred]) -> Box<dyn AnyChain> {
    let f = |i: usize| -> Boxed {
        let (p, before) = (preds[i].clone(), preds[..i].to_vec());
        let faults = subject.clone();
        Box::new(move |t: &Tracked| {
            let v = t.get().unwrap();
            if let Some(j) = before.iter().position(|p| !p.ok(v)) {
                faults.0.borrow_mut().faults.push(format!("predicate {i} was asked about {v}, which predicate {j} had held back"));
            }
            p.ok(v)
        })
    };
    let s = subject.clone();
    match preds.len() {
        0 => Box::new(Ch(s)),
        1 => Box::new(Ch(s.filter(f(0)))),
        2 => Box::new(Ch(s.filter(f(0)).filter(f(1)))),
        3 => Box::new(Ch(s.filter(f(0)).filter(f(1)).filter(f(2)))),
        _ => Box::new(Ch(s.filter(f(0)).filter(f(1)).filter(f(2)).filter(f(3)))),
    }
}

impl Check for C20 {
    type Case = Case20;
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "1-3 chains of 0-4 filters over one subject, which may send items while subscribing, histories of subscribing, ending, emitting and dropping chains, every observer's items against Iterator::filter over the emissions during its subscription, and no predicate asked about an item an earlier one held back. Non-trivial: at least two subscriptions, an item delivered and an item held back"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(2_500_000, 20_000_000)
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Case20> {
        let only = (1u8..5, prop::collection::vec(0u8..5, 0..4)).prop_map(|(m, set)| Pred { m, set });
        let except = (2u8..7, prop::collection::vec(0u8..7, 0..3))
            .prop_map(|(m, not)| Pred { m, set: (0..m).filter(|k| !not.contains(k)).collect() });
        let pred = prop_oneof![1 => only, 4 => except];
        let greet = prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(any::<u8>(), 0..6)];
        let op = prop_oneof![
            4 => (0u8..4).prop_map(ROp::Sub),
            2 => (0u8..6).prop_map(ROp::End),
            12 => any::<u8>().prop_map(ROp::Emit),
            1 => (0u8..4).prop_map(ROp::DropChain),
        ]
        .boxed();
        let burst = |n: BoxedStrategy<u32>| (any::<u8>(), n).prop_map(|(v, n)| ROp::Burst(v, n));
        let op = prop_oneof![
            20_000 => op,
            40 => burst(prop_oneof![20u32..300, (1u32..5).prop_map(|k| k * 256)].boxed()),
            1 => burst((65_530u32..66_000).boxed()),
        ];
        (prop::collection::vec(prop::collection::vec(pred, 0..5), 1..4), greet, prop::collection::vec(op, 1..t.pick(40, 120)))
            .prop_map(|(chains, greet, ops)| Case20 { chains, greet, ops })
            .boxed()
    }
    fn run(&self, c: &Case20, ob: &mut Obs) -> Result<(), String> {
        tracked::reset();
        let subject = Subject::default();
        subject.0.borrow_mut().greet = c.greet.clone();
        let passes = |i: usize, v: u8| c.chains[i].iter().all(|p| p.ok(v as u32));
        let mut chains: Vec<_> = c.chains.iter().map(|p| Some(chain(&subject, p))).collect();
        struct S {
            sub: Option<Box<dyn std::any::Any>>,
            got: Rc<RefCell<Vec<Tracked>>>,
            want: Vec<u32>,
        }
        let mut subs: Vec<(usize, S)> = vec![];
        let (mut passed, mut held) = (0, 0);
        for op in &c.ops {
            match op {
                ROp::Sub(i) => {
                    let i = *i as usize % chains.len();
                    if let Some(ch) = &chains[i] {
                        let got = Rc::new(RefCell::new(vec![]));
                        let sub = Some(ch.sub(Sink(got.clone())));
                        let want = c.greet.iter().copied().filter(|v| passes(i, *v)).map(|v| v as u32).collect();
                        subs.push((i, S { sub, got, want }));
                    }
                }
                ROp::End(i) => {
                    if !subs.is_empty() {
                        let i = *i as usize % subs.len();
                        subs[i].1.sub = None;
                    }
                }
                ROp::Emit(v) => {
                    subject.emit(*v as u32);
                    for (i, s) in &mut subs {
                        if s.sub.is_some() {
                            if passes(*i, *v) {
                                s.want.push(*v as u32);
                                passed += 1;
                            } else {
                                held += 1;
                            }
                        }
                    }
                }
                ROp::Burst(v, n) => {
                    ob.label_if(*n >= 256, "256 or more items in a row");
                    for k in 0..*n {
                        let v = v.wrapping_add(k as u8);
                        subject.emit(v as u32);
                        for (i, s) in &mut subs {
                            if s.sub.is_some() && passes(*i, v) {
                                s.want.push(v as u32);
                            }
                        }
                    }
                }
                ROp::DropChain(i) => {
                    let i = *i as usize % chains.len();
                    chains[i] = None;
                }
            }
            for (k, (i, s)) in subs.iter().enumerate() {
                let got = s.got.borrow().iter().map(|t| t.get()).collect::<Result<Vec<_>, _>>()?;
                ensure_eq!(got, s.want, "items of subscription {k} on chain {i} after {op:?}");
            }
        }
        let total: usize = subs.iter().map(|s| s.1.want.len()).sum();
        ensure_eq!(tracked::live(), total as i64, "items alive");
        if let Some(f) = subject.0.borrow().faults.first() {
            return Err(f.clone());
        }
        ob.nontrivial = subs.len() >= 2 && passed > 0 && held > 0;
        ob.label_if(c.chains.iter().any(|c| c.len() > 2), "long chain");
        ob.label_if(subs.len() > 2, "many subscriptions");
        ob.label_if(chains.iter().any(|c| c.is_none()) && passed > 0, "chain dropped");
        drop(subs);
        drop(chains);
        ensure!(subject.0.borrow().entries.is_empty(), "a subscription outlived its handle");
        drop(subject);
        tracked::settled()
    }
}

fn main() {
    pbt::fw::main(&[&C17, &C19, &C20]);
}
