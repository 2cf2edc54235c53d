//! C01-C04: grammars through the real combinators against the PEG interpreter.
use pbt::ensure;
use pbt::fw::{catch, exec, Check, Obs, Tier};
use pbt::grammar::{calls, gen, input_for, run_rule, Er, Grammar, Model, Prims, Run, RunBox, Val};
use pbt::seq::{gen as sgen, Delivery, ItemK, SegSeq, StrK, Subject};
use parcom_core::{ParseError, Parser, ParserOnce, ParserResult};
use parcom_parsers::combinator::{Join, Optional, Or, Ref, Repeat};
use parcom_parsers::ParserExtension;
use parcom_util::error::{Fatal, Miss};
use parcom_util::{Either, EitherBoth};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
#[path = "../typed.rs"]
mod typed;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    g: Grammar,
    tape: Vec<u16>,
    delivery: Delivery,
}

/// parsers of one type for all, or with the types they have in user code
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Two<C> {
    G(C),
    T(typed::Case),
}
fn two<C: Clone + std::fmt::Debug + 'static>(s: BoxedStrategy<C>) -> BoxedStrategy<Two<C>> {
    prop_oneof![6 => s.prop_map(Two::G), 1 => typed::strategy().prop_map(Two::T)].boxed()
}

type Out = Result<(Val, Vec<char>), Er>;
const MAX_STEPS: u64 = 200_000;
const OPS: u64 = 20_000_000;

struct Ran {
    out: Out,
    restored: Option<Vec<char>>,
    reruns: u64,
    fatal: bool,
    after_fatal: u64,
    leafs: u64,
    trace: u64,
    calls: u64,
}

/// None: no verdict
fn go<'g, K: Prims, S: Subject<K> + 'g>(
    what: &str,
    g: &'g Grammar,
    modes: bool,
    twice: bool,
    mk: impl FnOnce() -> S,
) -> Result<Option<Ran>, String> {
    let mut r = Run::new(g, modes, MAX_STEPS);
    r.twice_ok = twice;
    let rb = RunBox::new(r);
    let run = rb.get();
    calls();
    let res = catch(|| exec::run(run_rule::<K, S>(run, mk()), 50_000_000));
    let calls = calls();
    if run.discard.get() {
        return Ok(None);
    }
    let res = res.and_then(|r| r).map_err(|e| format!("{what}: {e}"))?;
    if let Some(f) = run.fault.borrow().clone() {
        return Err(format!("{what}: {f}"));
    }
    let (out, restored) = match res {
        Ok((v, rest, _)) => (Ok((v, rest)), None),
        Err((e, rest)) => (Err(e), Some(rest)),
    };
    Ok(Some(Ran {
        out,
        restored,
        reruns: run.reruns.get(),
        fatal: run.fatal_at.get().is_some(),
        after_fatal: run.after_fatal.get(),
        leafs: run.leafs.get(),
        trace: run.trace.get(),
        calls,
    }))
}

fn same(what: &str, input: &[char], got: &Ran, want: &Out) -> Result<(), String> {
    let text: String = input.iter().collect();
    match (&got.out, want) {
        (Ok((v, r)), Ok((wv, wr))) => {
            ensure!(v == wv, "{what} on {text:?}: value {v:?}, expected {wv:?}");
            ensure!(r == wr, "{what} on {text:?}: unconsumed {r:?}, expected {wr:?}");
        }
        (Err(e), Err(we)) => {
            ensure!(e == we, "{what} on {text:?}: error {e:?}, expected {we:?}");
            ensure!(
                got.restored.as_deref() == Some(input),
                "{what} on {text:?}: rewinding after the failure gave {:?}",
                got.restored
            );
        }
        (g, w) => return Err(format!("{what} on {text:?}: got {g:?}, expected {w:?}")),
    }
    Ok(())
}

/// every user-written parser runs exactly where, and as often as, the grammar's reading says
fn ran_once(what: &str, input: &[char], got: &Ran, m: &M) -> Result<(), String> {
    if got.reruns > 0 {
        return Ok(());
    }
    ensure!(
        (got.leafs, got.trace) == (m.leafs, m.trace),
        "{what} on {:?}: {} user parser call(s), expected {}{}",
        input.iter().collect::<String>(),
        got.leafs,
        m.leafs,
        if got.leafs == m.leafs { ", in another order or at other places" } else { "" }
    );
    ensure!(
        got.calls == m.calls,
        "{what} on {:?}: user-written parsers, mappings, checks, scans and folds are not called as often, or in the order, as the grammar says",
        input.iter().collect::<String>()
    );
    Ok(())
}

struct M {
    leafs: u64,
    trace: u64,
    calls: u64,
    out: Out,
    steps: u64,
    backtracked: u64,
    fatals: u64,
    consumed: usize,
    far: usize,
}
fn model(g: &Grammar, input: &[char]) -> Option<M> {
    let mut m = Model::new(g, input);
    calls();
    let out = m.eval(&g.rules[0], 0).ok()?;
    let calls = calls();
    let consumed = out.as_ref().map_or(0, |(_, p)| *p);
    Some(M {
        out: out.map(|(v, p)| (v, input[p..].to_vec())),
        leafs: m.leafs,
        trace: m.trace,
        calls,
        steps: m.steps,
        backtracked: m.backtracked,
        fatals: m.fatals,
        consumed,
        far: m.far,
    })
}

fn classes(m: &M, ob: &mut Obs) {
    ob.label(if m.out.is_ok() { "parse succeeds" } else { "parse fails" });
    if let Err(e) = &m.out {
        ob.label(if e.term { "fatal outcome" } else { "recoverable outcome" });
    }
    ob.label_if(m.backtracked > 0, "backtracked");
    ob.label_if(m.fatals > 0, "fatal error raised");
    ob.label_if(m.consumed > 0, "consumed input");
    ob.label_if(m.steps >= 30, "30 or more parser calls");
    ob.label_if(m.steps >= 300, "300 or more parser calls");
}

macro_rules! outcome {
    ($e:expr, $ob:expr) => {
        match $e? {
            Some(r) => r,
            None => {
                $ob.label("discarded: other input too long");
                return Ok(());
            }
        }
    };
}

fn strat(b: gen::Bias) -> BoxedStrategy<Case> {
    (gen::grammar(b), gen::tape(), sgen::delivery())
        .prop_map(|(g, tape, delivery)| Case { g, tape, delivery })
        .boxed()
}

fn strat2(b: gen::Bias) -> BoxedStrategy<Two<Case>> {
    two(strat(b))
}

struct C01;
impl Check for C01 {
    type Case = Two<Case>;
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "a grammar over all combinators (1-3 rules, recursion after consumption) and an input sampled from the grammar and mutated; run on &str, &[char] and a segmented sequence in one piece, against a PEG interpreter. One case in seven is one of 160 parsers with the types of user code (outputs and errors of no size, with destructors, without values), run in every way. Non-trivial: at least 4 parser calls (3 in typed parsers), and input was consumed, an error was recovered from, or a fatal error raised"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(580_000, 14_000_000)
    }
    fn stack_size(&self) -> usize {
        256 << 20
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Two<Case>> {
        strat2(gen::Bias { fail: 2, fatal: 1, reclass: true, iter: 2, modes: true, depth: t.pick(5, 6), size: t.pick(24, 40) })
    }
    fn run(&self, c: &Two<Case>, ob: &mut Obs) -> Result<(), String> {
        let c = match c {
            Two::G(c) => c,
            Two::T(c) => return typed::run(c, ob),
        };
        let input = input_for(&c.g, &c.tape);
        let Some(m) = model(&c.g, &input) else {
            ob.label("discarded: evaluation too long");
            return Ok(());
        };
        classes(&m, ob);
        ob.nontrivial = m.steps >= 4 && (m.consumed > 0 || m.backtracked > 0 || m.fatals > 0);
        let whole = Delivery::default();
        let r = outcome!(go::<StrK, _>("one segment", &c.g, true, true, || SegSeq::new(&input, &whole, OPS).0), ob);
        same("one segment", &input, &r, &m.out)?;
        ran_once("one segment", &input, &r, &m)?;
        let s: String = input.iter().collect();
        let r = outcome!(go::<StrK, _>("&str", &c.g, true, true, || unsafe { ext(s.as_str()) }), ob);
        same("&str", &input, &r, &m.out)?;
        ran_once("&str", &input, &r, &m)?;
        let r = outcome!(go::<ItemK, _>("&[char]", &c.g, true, true, || unsafe { ext(input.as_slice()) }), ob);
        same("&[char]", &input, &r, &m.out)?;
        ran_once("&[char]", &input, &r, &m)
    }
}

/// The sequence outlives the run: both end with the case.
unsafe fn ext<'a, 'b, T: ?Sized>(t: &'a T) -> &'b T {
    &*(t as *const T)
}

/// an error value put together from the library's error types
#[derive(Clone, Debug, Serialize, Deserialize)]
enum ErrTree {
    Own(bool),
    Fatal(Box<ErrTree>),
    Miss(Box<ErrTree>),
    First(Box<ErrTree>),
    Last(Box<ErrTree>),
    Some(Box<ErrTree>),
    None,
    Ref(Box<ErrTree>),
    BothFirst(Box<ErrTree>),
    BothLast(Box<ErrTree>),
    Both(Box<ErrTree>, Box<ErrTree>),
}
struct DynErr(Box<dyn ParseError>);
impl ParseError for DynErr {
    fn should_terminate(&self) -> bool {
        self.0.should_terminate()
    }
}
struct Own(bool);
impl ParseError for Own {
    fn should_terminate(&self) -> bool {
        self.0
    }
}
struct ByRef(DynErr);
impl ParseError for ByRef {
    fn should_terminate(&self) -> bool {
        fn ask<E: ParseError>(e: E) -> bool {
            e.should_terminate()
        }
        ask(&self.0) && ask(&&self.0)
    }
}
impl ErrTree {
    fn build(&self) -> DynErr {
        type Ei = Either<DynErr, DynErr>;
        type Eb = EitherBoth<DynErr, DynErr>;
        DynErr(match self {
            ErrTree::Own(t) => Box::new(Own(*t)),
            ErrTree::Fatal(e) => Box::new(Fatal(e.build())),
            ErrTree::Miss(e) => Box::new(Miss(e.build())),
            ErrTree::First(e) => Box::new(Ei::First(e.build())),
            ErrTree::Last(e) => Box::new(Ei::Last(e.build())),
            ErrTree::Some(e) => Box::new(Some(e.build())),
            ErrTree::None => Box::new(Option::<DynErr>::None),
            ErrTree::Ref(e) => Box::new(ByRef(e.build())),
            ErrTree::BothFirst(e) => Box::new(Eb::First(e.build())),
            ErrTree::BothLast(e) => Box::new(Eb::Last(e.build())),
            ErrTree::Both(a, b) => Box::new(Eb::Both(a.build(), b.build())),
        })
    }
    fn terminates(&self) -> bool {
        match self {
            ErrTree::Own(t) => *t,
            ErrTree::Fatal(_) => true,
            ErrTree::Miss(_) | ErrTree::None => false,
            ErrTree::First(e)
            | ErrTree::Last(e)
            | ErrTree::Some(e)
            | ErrTree::Ref(e)
            | ErrTree::BothFirst(e)
            | ErrTree::BothLast(e) => e.terminates(),
            ErrTree::Both(a, b) => a.terminates() || b.terminates(),
        }
    }
}
fn err_tree() -> impl Strategy<Value = ErrTree> {
    let leaf = prop_oneof![6 => any::<bool>().prop_map(ErrTree::Own), 1 => Just(ErrTree::None)];
    leaf.prop_recursive(5, 16, 2, |t| {
        let b = || t.clone().prop_map(Box::new);
        prop_oneof![
            1 => b().prop_map(ErrTree::Fatal),
            1 => b().prop_map(ErrTree::Miss),
            2 => b().prop_map(ErrTree::First),
            2 => b().prop_map(ErrTree::Last),
            1 => b().prop_map(ErrTree::Some),
            1 => b().prop_map(ErrTree::Ref),
            1 => b().prop_map(ErrTree::BothFirst),
            1 => b().prop_map(ErrTree::BothLast),
            4 => (b(), b()).prop_map(|(x, y)| ErrTree::Both(x, y)),
        ]
    })
}

/// a user-written parser that reads `eat` elements and then fails with the error
struct Fails<'a>(&'a ErrTree, usize);
impl<'s> ParserOnce<&'s str> for Fails<'_> {
    type Output = ();
    type Error = DynErr;
    async fn parse_once(self, input: &'s str) -> ParserResult<&'s str, Self> {
        self.parse(input).await
    }
}
impl<'s> Parser<&'s str> for Fails<'_> {
    async fn parse(&self, input: &'s str) -> ParserResult<&'s str, Self> {
        Err((self.0.build(), (&input[self.1..]).into()))
    }
}

/// recovered from if and only if no error in it asks for termination, to the place of the attempt
fn recovery(t: &ErrTree, eat: usize) -> Result<(), String> {
    let text = "abcdef";
    let fatal = t.terminates();
    let got = t.build().should_terminate();
    ensure!(got == fatal, "{t:?}: should_terminate() is {got}, expected {fatal}");
    async fn here(s: &str) -> String {
        s.to_string()
    }
    let run = |what: &str, r: Result<(bool, String), (DynErr, &str)>| -> Result<(), String> {
        match r {
            Err((e, _)) if fatal => {
                ensure!(e.should_terminate(), "{what} with {t:?}: the error it failed with does not ask for termination");
                Ok(())
            }
            Ok((_, rest)) if !fatal => {
                ensure!(rest == text, "{what} with {t:?} after {eat} element(s): left {rest:?} of {text:?}");
                Ok(())
            }
            Err(_) => Err(format!("{what} with {t:?}: failed with a recoverable error")),
            Ok(_) => Err(format!("{what} with {t:?}: recovered from a fatal error")),
        }
    };
    let p = Fails(t, eat);
    let end = |r: parcom_core::UnknownLocation<&'static str>| unsafe { r.unwrap() };
    let dynb = |e: EitherBoth<DynErr, DynErr>| DynErr(Box::new(e));
    let dyne = |e: Either<DynErr, DynErr>| DynErr(Box::new(e));
    exec::run(
        async {
            let other = ParserExtension::<&'static str>::optional(Fails(&ErrTree::Own(false), 1));
            let r = Optional::new(Ref::new(&p)).parse(text).await;
            run("optional", match r {
                Ok((v, r)) => Ok((v.is_ok(), here(r).await)),
                Err((e, r)) => Err((e, end(r))),
            })?;
            let r = Or::new(Ref::new(&p), Ref::new(&other)).parse(text).await;
            run("choice", match r {
                Ok((_, r)) => Ok((true, here(r).await)),
                Err((e, r)) => Err((dynb(e), end(r))),
            })?;
            let q = Fails(&ErrTree::Own(false), eat);
            let r = Optional::new(Or::new(Ref::new(&q), Ref::new(&p))).parse(text).await;
            run("optional choice", match r {
                Ok((v, r)) => Ok((v.is_ok(), here(r).await)),
                Err((e, r)) => Err((dynb(e), end(r))),
            })?;
            let r = Optional::new(Join::new(Ref::new(&other), Ref::new(&p))).parse(text).await;
            run("optional sequence", match r {
                Ok((v, r)) => Ok((v.is_ok(), here(r).await)),
                Err((e, r)) => Err((dyne(e), end(r))),
            })?;
            let r = Repeat::new(Ref::new(&p)).parse(text).await;
            run("repetition", match r {
                Ok((_, r)) => Ok((true, here(r).await)),
                Err((e, r)) => Err((e, end(r))),
            })
        },
        1_000_000,
    )
    .map_err(|e| format!("{t:?}: {e}"))?
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case2 {
    c: Case,
    err: ErrTree,
    eat: u8,
}

struct C02;
impl Check for C02 {
    type Case = Two<Case2>;
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        "grammars biased to user-written parsers that read 0-3 elements and then fail recoverably or fatally (no mapping changes an error's class, no collect), on segmented sequences and slices, against the interpreter; a fatal error must end the parse with no later user parser called; and a composite error put together from the library's error types, whose class is that of its parts, failing inside optional, choice, sequence and repetition. One case in seven is a parser with the types of user code, as in C01. Non-trivial: an error was recovered from or a fatal error raised, with at least 4 parser calls"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(700_000, 17_000_000)
    }
    fn stack_size(&self) -> usize {
        256 << 20
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Two<Case2>> {
        let b = gen::Bias { fail: 5, fatal: 2, reclass: false, iter: 1, modes: true, depth: t.pick(5, 6), size: t.pick(20, 36) };
        let mixed = gen::Bias { fail: 4, fatal: 1, reclass: true, iter: 1, modes: true, depth: 5, size: 20 };
        two((prop_oneof![3 => strat(b), 1 => strat(mixed)], err_tree(), 0..4u8).prop_map(|(c, err, eat)| Case2 { c, err, eat }).boxed())
    }
    fn run(&self, c: &Two<Case2>, ob: &mut Obs) -> Result<(), String> {
        let c = match c {
            Two::G(c) => c,
            Two::T(c) => return typed::run(c, ob),
        };
        catch(|| recovery(&c.err, c.eat as usize)).and_then(|r| r)?;
        let c = &c.c;
        let input = input_for(&c.g, &c.tape);
        let Some(m) = model(&c.g, &input) else {
            ob.label("discarded: evaluation too long");
            return Ok(());
        };
        classes(&m, ob);
        ob.nontrivial = m.steps >= 4 && (m.backtracked > 0 || m.fatals > 0);
        let pure = !reclassifies(&c.g);
        ob.label_if(pure, "no class-changing mapping");
        let (s, ctx) = SegSeq::<StrK>::new(&input, &c.delivery, OPS);
        let r = outcome!(go::<StrK, _>("segmented text", &c.g, true, false, || s), ob);
        ctx.legal()?;
        let check = |what: &str, r: &Ran| -> Result<(), String> {
            same(what, &input, r, &m.out)?;
            ran_once(what, &input, r, &m)?;
            if pure && r.fatal {
                ensure!(
                    matches!(&r.out, Err(e) if e.term),
                    "{what}: a parser failed fatally, but the parse gave {:?}",
                    r.out
                );
                ensure!(
                    r.after_fatal == 0,
                    "{what}: {} user parser call(s) after a fatal error",
                    r.after_fatal
                );
            }
            Ok(())
        };
        check("segmented text", &r)?;
        let r = outcome!(go::<ItemK, _>("&[char]", &c.g, true, false, || unsafe { ext(input.as_slice()) }), ob);
        check("&[char]", &r)?;
        let s: String = input.iter().collect();
        let r = outcome!(go::<StrK, _>("&str", &c.g, true, false, || unsafe { ext(s.as_str()) }), ob);
        check("&str", &r)
    }
}
/// some mapping may change the class of an error, or swallow it (collect)
fn reclassifies(g: &Grammar) -> bool {
    let s = serde_json::to_string(g).unwrap();
    ["\"Soften\"", "\"Harden\"", ",\"Look\"]", "\"Collect\""].iter().any(|k| s.contains(k))
}

struct C03;
impl Check for C03 {
    type Case = Two<Case>;
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "grammars with an execution mode per node (by reference, consuming, boxed, borrowed handle, copies of it, and one parser object run on the input, on other input, on both by turns, not to the end, and on the input again), compared with the all-by-reference run and the interpreter. One case in seven is a parser with the types of user code, as in C01. Non-trivial: a mode other than by-reference was executed with at least 4 parser calls"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(580_000, 14_000_000)
    }
    fn stack_size(&self) -> usize {
        256 << 20
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Two<Case>> {
        strat2(gen::Bias { fail: 3, fatal: 1, reclass: true, iter: 4, modes: true, depth: t.pick(5, 6), size: t.pick(20, 36) })
    }
    fn run(&self, c: &Two<Case>, ob: &mut Obs) -> Result<(), String> {
        let c = match c {
            Two::G(c) => c,
            Two::T(c) => return typed::run(c, ob),
        };
        let input = input_for(&c.g, &c.tape);
        let Some(m) = model(&c.g, &input) else {
            ob.label("discarded: evaluation too long");
            return Ok(());
        };
        classes(&m, ob);
        let (s, ctx) = SegSeq::<StrK>::new(&input, &c.delivery, OPS);
        let plain = outcome!(go::<StrK, _>("by reference", &c.g, false, false, || s), ob);
        ctx.legal()?;
        same("by reference", &input, &plain, &m.out)?;
        let (s, ctx) = SegSeq::<StrK>::new(&input, &c.delivery, OPS);
        let mixed = outcome!(go::<StrK, _>("mixed modes", &c.g, true, true, || s), ob);
        ctx.legal()?;
        same("mixed modes (text)", &input, &mixed, &plain.out)?;
        ob.nontrivial = m.steps >= 4;
        ob.label_if(mixed.reruns > 0, "parser objects run repeatedly");
        let mixed = outcome!(go::<ItemK, _>("mixed modes", &c.g, true, true, || unsafe { ext(input.as_slice()) }), ob);
        same("mixed modes (items)", &input, &mixed, &plain.out)
    }
}

struct C04;
impl Check for C04 {
    type Case = Two<Case>;
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "grammar x input x delivery (cuts anywhere incl. empty pieces and none at all, suspensions per operation), text and items, compared with the contiguous run and the interpreter; usage monitored. One case in seven is a parser with the types of user code, as in C01. Non-trivial: at least one advance on a sequence with a cut or a suspension"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(580_000, 14_000_000)
    }
    fn stack_size(&self) -> usize {
        256 << 20
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Two<Case>> {
        strat2(gen::Bias { fail: 2, fatal: 1, reclass: true, iter: 2, modes: true, depth: t.pick(5, 6), size: t.pick(24, 40) })
    }
    fn run(&self, c: &Two<Case>, ob: &mut Obs) -> Result<(), String> {
        let c = match c {
            Two::G(c) => c,
            Two::T(c) => return typed::run(c, ob),
        };
        let input = input_for(&c.g, &c.tape);
        let Some(m) = model(&c.g, &input) else {
            ob.label("discarded: evaluation too long");
            return Ok(());
        };
        classes(&m, ob);
        let s: String = input.iter().collect();
        let plain = outcome!(go::<StrK, _>("&str", &c.g, true, false, || unsafe { ext(s.as_str()) }), ob);
        let width = |n: usize| input.iter().take(n).map(|c| c.len_utf8()).sum::<usize>() + n.saturating_sub(input.len());
        let (q, ctx) = SegSeq::<StrK>::new(&input, &c.delivery, OPS);
        let r = outcome!(go::<StrK, _>("segmented text", &c.g, true, false, || q), ob);
        ctx.legal()?;
        same("segmented text, against &str", &input, &r, &plain.out)?;
        same("segmented text", &input, &r, &m.out)?;
        ctx.prompt(width(m.far)).map_err(|e| format!("segmented text {s:?}: {e}"))?;
        ob.label_if(c.delivery.cuts.len() > 0 && m.far < input.len(), "decided before the end of the input");
        ob.nontrivial = ctx.advances.get() > 0
            && (ctx.suspensions.get() > 0 || (!c.delivery.cuts.is_empty() && input.len() > 1));
        ob.label_if(ctx.suspensions.get() > 0, "suspended");
        ob.label_if(ctx.rewinds.get() > 0, "rewound");
        ob.label_if(input.is_empty(), "empty input");
        let (q, ctx) = SegSeq::<ItemK>::new(&input, &c.delivery, OPS);
        let r = outcome!(go::<ItemK, _>("segmented items", &c.g, true, false, || q), ob);
        ctx.legal()?;
        same("segmented items", &input, &r, &plain.out)?;
        ctx.prompt(m.far).map_err(|e| format!("segmented items {s:?}: {e}"))
    }
}

fn main() {
    pbt::fw::main(&[&C01, &C02, &C03, &C04]);
}
