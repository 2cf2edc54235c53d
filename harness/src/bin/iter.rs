//! C08: iterative parsers and their adapters against lists.
use parcom_core::{
    IterativeParser, IterativeParserOnce, IterativeParserState, ParseError, ParseResult, Parser, ParserOnce, RewindSequence,
};
use parcom_parsers::{IterativeParserExtension, ParserExtension};
use parcom_util::error::Miss;
use pbt::fw::{catch, exec, Check, Obs, Tier};
use pbt::grammar::{
    calls, gen, mutate, run_rule, sample_it, DynIt, Er, Grammar, It, ItKind, Model, Node, NodeKind, Prims, Run, RunBox, Tape, Val,
};
use pbt::seq::{gen as sgen, Delivery, ItemK, SegSeq, StrK, Subject};
use pbt::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::pin::Pin;
#[path = "../typed.rs"]
mod typed;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Form {
    /// step by step, at most this many steps
    Steps(u8),
    Collect(u8),
    Fold(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    it: It,
    form: Form,
    aux: Vec<Node>,
    tape: Vec<u16>,
    delivery: Delivery,
}

/// what a step gave: an item and the position after it, the end (with the position), or an error
#[derive(Clone, Debug, PartialEq)]
enum St {
    Item(Val, Vec<char>),
    End(Vec<char>),
    Err(Er),
}
const MAX: u64 = 200_000;

async fn steps<'g, K: Prims, S: Subject<K> + 'g>(run: &'g Run<'g>, it: &'g It, n: u8, s: S) -> (Vec<St>, Vec<char>) {
    let mut st = DynIt::<K>::new(run, it).start::<S>();
    let a = s.anchor();
    let mut out = vec![];
    let mut s = s;
    for _ in 0..n {
        match st.parse_next(s).await {
            Ok((Some(v), mut r)) => {
                out.push(St::Item(v, r.rest()));
                s = r;
            }
            Ok((None, mut r)) => {
                out.push(St::End(r.rest()));
                let mut s = r.rewind(a).await;
                return (out, s.rest());
            }
            Err((e, r)) => {
                out.push(St::Err(e));
                let mut s = r.rewind(a).await;
                return (out, s.rest());
            }
        }
    }
    let mut s = s.rewind(a).await;
    (out, s.rest())
}

struct Want {
    steps: Vec<St>,
    pulls: u64,
    leafs: u64,
    calls: u64,
    node: Option<Result<(Val, Vec<char>), Er>>,
}
fn model(g: &Grammar, c: &Case, input: &[char]) -> Option<Want> {
    let mut m = Model::new(g, input);
    calls();
    match c.form {
        Form::Steps(n) => {
            let mut st = m.start(&c.it);
            let mut out = vec![];
            let mut at = 0;
            for _ in 0..n {
                match m.next(&mut st, at).ok()? {
                    Ok((Some(v), p)) => {
                        out.push(St::Item(v, input[p..].to_vec()));
                        at = p;
                    }
                    Ok((None, p)) => {
                        out.push(St::End(input[p..].to_vec()));
                        break;
                    }
                    Err(e) => {
                        out.push(St::Err(e));
                        break;
                    }
                }
            }
            Some(Want { steps: out, pulls: m.pulls, leafs: m.leafs, calls: calls(), node: None })
        }
        _ => {
            let r = m.eval(&g.rules[0], 0).ok()?.map(|(v, p)| (v, input[p..].to_vec()));
            Some(Want { steps: vec![], pulls: m.pulls, leafs: m.leafs, calls: calls(), node: Some(r) })
        }
    }
}

fn go<'g, K: Prims, S: Subject<K> + 'g>(
    what: &str,
    c: &'g Case,
    g: &'g Grammar,
    input: &[char],
    w: &Want,
    decoys: bool,
    mk: impl Fn() -> S,
) -> Result<u64, String> {
    let mut r = Run::new(g, true, MAX);
    r.twice_ok = decoys;
    r.decoys = decoys;
    let rb = RunBox::new(r);
    let run = rb.get();
    let text: String = input.iter().collect();
    calls();
    let made;
    if let Form::Steps(n) = c.form {
        let res = catch(|| exec::run(steps::<K, S>(run, &c.it, n, mk()), 50_000_000));
        made = calls();
        if run.discard.get() {
            return Ok(0);
        }
        let (got, back) = res.and_then(|r| r).map_err(|e| format!("{what}: {e}"))?;
        ensure_eq!(got, w.steps, "{what} on {text:?}: steps");
        ensure_eq!(back, input.to_vec(), "{what}: after rewinding to the start");
    } else {
        let res = catch(|| exec::run(run_rule::<K, S>(run, mk()), 50_000_000));
        made = calls();
        if run.discard.get() {
            return Ok(0);
        }
        let res = res.and_then(|r| r).map_err(|e| format!("{what}: {e}"))?;
        let want = w.node.as_ref().unwrap();
        match (res, want) {
            (Ok((v, rest, _)), Ok((wv, wr))) => {
                ensure_eq!(v, *wv, "{what} on {text:?}: value");
                ensure_eq!(rest, *wr, "{what} on {text:?}: rest");
            }
            (Err((e, rest)), Err(we)) => {
                ensure_eq!(e, *we, "{what} on {text:?}: error");
                ensure_eq!(rest, input.to_vec(), "{what}: after rewinding");
            }
            (Ok((v, ..)), Err(e)) => return Err(format!("{what} on {text:?}: gave {v:?}, expected error {e:?}")),
            (Err((e, _)), Ok((v, _))) => return Err(format!("{what} on {text:?}: failed with {e:?}, expected {v:?}")),
        }
    }
    if let Some(f) = run.fault.borrow().clone() {
        return Err(format!("{what}: {f}"));
    }
    if !decoys {
        ensure!(
            run.pulls.get() <= w.pulls,
            "{what} on {text:?}: asked user-written iterative parsers {} times, the operations need {}",
            run.pulls.get(),
            w.pulls
        );
        ensure!(
            run.leafs.get() <= w.leafs,
            "{what} on {text:?}: ran user-written parsers {} times, the operations need {}",
            run.leafs.get(),
            w.leafs
        );
        ensure!(
            run.reruns.get() > 0 || made == w.calls,
            "{what} on {text:?}: the mappings, checks, scans and folds are not called once per item, each before the next item is asked for"
        );
    }
    let n = run.decoyed.get() + run.reruns.get();
    if let (Form::Collect(0 | 4), Some(want)) = (&c.form, &w.node) {
        // the same items without a size
        let rb = RunBox::new(Run::new(g, true, MAX));
        let run = rb.get();
        let units = |s: S| async move {
            let p = DynIt::<K>::new(run, &c.it).map_each(|_| ()).collect::<Vec<()>>();
            let a = s.anchor();
            match p.parse(s).await {
                Ok(((v, e), mut r)) => Ok((v.len(), e, r.rest())),
                Err((e, r)) => Err((e, r.rewind(a).await.rest())),
            }
        };
        let res = catch(|| exec::run(units(mk()), 50_000_000));
        if run.discard.get() {
            return Ok(0);
        }
        let got = res.and_then(|r| r).map_err(|e| format!("{what}: {e}"))?.map_err(|e| e.0);
        let want = match want {
            Ok((Val::List(v, e), r)) => Ok((v.len(), e, r)),
            Ok(x) => return Err(format!("{what}: the model collected {x:?}")),
            Err(e) => Err(e),
        };
        ensure_eq!(format!("{got:?}"), format!("{want:?}"), "{what} on {text:?}: collected as units");
    }
    Ok(n)
}

fn depth(i: &It) -> u32 {
    match &i.kind {
        ItKind::Repeat(_) | ItKind::Optional(_) | ItKind::User(_) => 0,
        ItKind::MapEach(i, _) | ItKind::TryMapEach(i, _) | ItKind::MapWhile(i, _) | ItKind::Scan(i) | ItKind::Take(i, _) => {
            1 + depth(i)
        }
    }
}
fn grammar(c: &Case) -> Grammar {
    let b = Box::new(c.it.clone());
    let top = match c.form {
        Form::Collect(mode) => Node { mode, kind: NodeKind::Collect(b) },
        Form::Fold(mode) => Node { mode, kind: NodeKind::Fold(b) },
        Form::Steps(_) => Node { mode: 0, kind: NodeKind::Any },
    };
    let mut rules = vec![top];
    rules.extend(c.aux.clone());
    Grammar { rules }
}

// ---------------------------------------------------------------- many items

#[derive(Clone, Debug, Serialize, Deserialize)]
enum BAd {
    Map,
    Scan,
    /// ends at that item
    While(u32),
    /// an error at that item, terminating or not
    Try(u32, bool),
    Take(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum BEnd {
    End,
    Miss,
    Fatal,
    /// the items come from a repetition
    Repeat,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Big {
    n: u32,
    end: BEnd,
    ads: Vec<BAd>,
    /// 0: stepped, 1: collected, 2: folded
    form: u8,
    once: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Case8 {
    Chain(Case),
    Many(Big),
    Typed(typed::Case),
}
#[derive(Clone, Debug, PartialEq)]
struct BErr(u64, bool);
impl ParseError for BErr {
    fn should_terminate(&self) -> bool {
        self.1
    }
}
impl<T> From<Miss<T>> for BErr {
    fn from(_: Miss<T>) -> Self {
        BErr(0, false)
    }
}
type Sl<'a> = &'a [u32];
/// items until the slice ends
#[derive(Clone)]
struct Each(BEnd);
struct EachState(BEnd);
impl<'a> IterativeParserOnce<Sl<'a>> for Each {
    type Output = u64;
    type Error = BErr;
    type StateOnce = EachState;
    fn parse_iterative_once(self) -> EachState {
        EachState(self.0)
    }
}
impl<'a> IterativeParser<Sl<'a>> for Each {
    type State<'b> = EachState;
    fn parse_iterative(&self) -> EachState {
        EachState(self.0.clone())
    }
}
impl<'a> IterativeParserState<Sl<'a>> for EachState {
    type Output = u64;
    type Error = BErr;
    async fn parse_next(&mut self, s: Sl<'a>) -> ParseResult<Sl<'a>, Option<u64>, BErr> {
        match (s.first(), &self.0) {
            (Some(i), _) => parcom_util::done(Some(*i as u64), &s[1..]),
            (None, BEnd::End | BEnd::Repeat) => parcom_util::done(None, s),
            (None, BEnd::Miss) => parcom_util::fail(BErr(1, false), s),
            (None, BEnd::Fatal) => parcom_util::fail(BErr(2, true), s),
        }
    }
}
async fn one(s: Sl<'_>) -> ParseResult<Sl<'_>, u64, BErr> {
    match s.first() {
        Some(i) => parcom_util::done(*i as u64, &s[1..]),
        None => parcom_util::fail(BErr(1, false), s),
    }
}
/// items (or their number and digest), the error that ended them, what is left
#[derive(Debug, PartialEq)]
struct Total {
    items: usize,
    digest: u64,
    error: Option<BErr>,
    left: usize,
    failed: bool,
}
fn digest(a: (usize, u64), v: u64) -> (usize, u64) {
    (a.0 + 1, a.1.wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(v + 1))
}
fn b_map(v: u64) -> u64 {
    v * 3 + 1
}
fn b_scan(st: &mut u64, v: u64) -> u64 {
    *st = st.wrapping_mul(5).wrapping_add(v) & 0xffff_ffff;
    *st
}
type BoxF<'a> = Pin<Box<dyn Future<Output = Total> + 'a>>;
fn fin<'a, P>(p: P, b: &'a Big, s: Sl<'a>) -> BoxF<'a>
where
    P: IterativeParser<Sl<'a>, Output = u64> + 'a,
    BErr: From<P::Error>,
{
    Box::pin(async move {
        match b.form {
            0 => {
                let mut a = (0, 0);
                let mut rest = s;
                macro_rules! walk {
                    ($st:expr) => {{
                        let mut st = $st;
                        loop {
                            match st.parse_next(rest).await {
                                Ok((Some(v), r)) => {
                                    a = digest(a, v);
                                    rest = r;
                                }
                                Ok((None, r)) => return Total { items: a.0, digest: a.1, error: None, left: r.len(), failed: false },
                                Err((e, _)) => {
                                    return Total { items: a.0, digest: a.1, error: Some(e.into()), left: 0, failed: true }
                                }
                            }
                        }
                    }};
                }
                if b.once {
                    walk!(p.parse_iterative_once())
                } else {
                    walk!(p.parse_iterative())
                }
            }
            1 => {
                let p = IterativeParserExtension::<Sl<'a>>::collect::<Vec<u64>>(p);
                match if b.once { p.parse_once(s).await } else { p.parse(s).await } {
                    Ok(((v, e), r)) => {
                        let a = v.iter().fold((0, 0), |a, v| digest(a, *v));
                        Total { items: a.0, digest: a.1, error: e.map(|e| e.into()), left: r.len(), failed: false }
                    }
                    Err((e, _)) => Total { items: 0, digest: 0, error: Some(e.into()), left: 0, failed: true },
                }
            }
            _ => {
                let p = IterativeParserExtension::<Sl<'a>>::fold(p, (0usize, 0u64), digest);
                match if b.once { p.parse_once(s).await } else { p.parse(s).await } {
                    Ok((a, r)) => Total { items: a.0, digest: a.1, error: None, left: r.len(), failed: false },
                    Err((e, _)) => Total { items: 0, digest: 0, error: Some(e.into()), left: 0, failed: true },
                }
            }
        }
    })
}
fn many<'a>(b: &'a Big, s: Sl<'a>) -> BoxF<'a> {
    // one level of adapters, then another
    macro_rules! adapt {
        ($p:expr, $ad:expr, $k:ident, $($arg:expr),*) => {{
            let p = $p;
            match $ad {
                BAd::Map => $k(IterativeParserExtension::<Sl<'a>>::map_each(p, b_map), $($arg),*),
                BAd::Scan => $k(IterativeParserExtension::<Sl<'a>>::scan(p, 1u64, b_scan), $($arg),*),
                BAd::While(k) => {
                    let k = *k as u64;
                    let i = std::cell::Cell::new(0);
                    $k(IterativeParserExtension::<Sl<'a>>::map_while(p, move |v: u64| { i.set(i.get() + 1); (i.get() - 1 != k).then_some(v) }), $($arg),*)
                }
                BAd::Try(k, t) => {
                    let (k, t) = (*k as u64, *t);
                    let i = std::cell::Cell::new(0);
                    $k(IterativeParserExtension::<Sl<'a>>::try_map_each(p, move |v: u64| { i.set(i.get() + 1); if i.get() - 1 == k { Err(BErr(3, t)) } else { Ok(v) } }), $($arg),*)
                }
                BAd::Take(n) => $k(IterativeParserExtension::<Sl<'a>>::take(p, *n as usize), $($arg),*),
            }
        }};
    }
    fn inner<'a, P>(p: P, b: &'a Big, s: Sl<'a>) -> BoxF<'a>
    where
        P: IterativeParser<Sl<'a>, Output = u64, Error = BErr> + 'a,
    {
        match b.ads.get(1) {
            None => fin(p, b, s),
            Some(ad) => adapt!(p, ad, fin, b, s),
        }
    }
    fn outer<'a, P>(p: P, b: &'a Big, s: Sl<'a>) -> BoxF<'a>
    where
        P: IterativeParser<Sl<'a>, Output = u64, Error = BErr> + 'a,
    {
        match b.ads.first() {
            None => fin(p, b, s),
            Some(ad) => adapt!(p, ad, inner, b, s),
        }
    }
    match b.end {
        BEnd::Repeat => outer(ParserExtension::<Sl<'a>>::repeat(one), b, s),
        _ => outer(Each(b.end.clone()), b, s),
    }
}
fn many_model(b: &Big) -> Total {
    let mut a = (0, 0);
    let mut scans = [1u64; 2];
    let mut seen = [0u64; 2];
    // what is left after the last item, and at the end
    let (mut after, mut left) = (b.n as usize, b.n as usize);
    let mut at = 0u32;
    let error = 'all: loop {
        // a take that is used up asks for nothing
        for (k, ad) in b.ads.iter().enumerate() {
            if let BAd::Take(n) = ad {
                if seen[k] == *n as u64 {
                    break 'all None;
                }
            }
        }
        if at == b.n {
            break match b.end {
                BEnd::End | BEnd::Repeat => None,
                BEnd::Miss => Some(BErr(1, false)),
                BEnd::Fatal => Some(BErr(2, true)),
            };
        }
        let mut v = at as u64;
        at += 1;
        left = (b.n - at) as usize;
        for (k, ad) in b.ads.iter().enumerate() {
            let i = seen[k];
            seen[k] += 1;
            match ad {
                BAd::Map => v = b_map(v),
                BAd::Scan => v = b_scan(&mut scans[k], v),
                BAd::While(n) if *n as u64 == i => break 'all None,
                BAd::Try(n, t) if *n as u64 == i => break 'all t.then_some(BErr(3, true)),
                _ => {}
            }
        }
        a = digest(a, v);
        after = left;
    };
    match (b.form, error) {
        (0, Some(e)) => Total { items: a.0, digest: a.1, error: Some(e), left: 0, failed: true },
        (1, e) => Total { items: a.0, digest: a.1, error: e, left: after, failed: false },
        (_, None) => Total { items: a.0, digest: a.1, error: None, left, failed: false },
        (_, Some(e)) => Total { items: 0, digest: 0, error: Some(e), left: 0, failed: true },
    }
}
fn run_many(b: &Big, ob: &mut Obs) -> Result<(), String> {
    let items: Vec<u32> = (0..b.n).collect();
    let want = many_model(b);
    ob.label_if(want.items > 65_536, "more than 65536 items");
    ob.nontrivial = !b.ads.is_empty() && want.items > 2;
    let got = exec::run(many(b, &items), 1 << 20)?;
    ensure_eq!(got, want, "{} items, {:?}", b.n, b.ads);
    Ok(())
}

struct C08;
impl Check for C08 {
    type Case = Case8;
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "a chain of up to 4 adapters (map, checked map, map-while, scan, take) over a repetition, an optional or a user-written iterative parser with items, ends, recoverable and fatal errors; stepped by hand, collected or folded, owned, borrowed or through references, with other states of the same parser object running first; on &str, &[char] and segmented text, against list operations; and no more items are asked for than the list operations need; rarely, more than 65,536 items through up to two adapters; and some 90 iterations over parsers with the types of user code (items, errors and states of no size, or with destructors). Non-trivial: at least one adapter, and at least two items came out or an error ended the iteration"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(450_000, 13_000_000)
    }
    fn stack_size(&self) -> usize {
        128 << 20
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Case8> {
        let b = gen::Bias { fail: 1, fatal: 1, reclass: true, iter: 1, modes: true, depth: t.pick(2, 3), size: 6 };
        let n = gen::node(b);
        let form = prop_oneof![
            20 => (1u8..12).prop_map(Form::Steps),
            1 => (12u8..=255).prop_map(Form::Steps),
            20 => (0u8..8).prop_map(Form::Collect),
            20 => (0u8..8).prop_map(Form::Fold),
        ];
        let long = (
            gen::long_it(b),
            prop_oneof![(12u8..=255).prop_map(Form::Steps), (0u8..8).prop_map(Form::Collect), (0u8..8).prop_map(Form::Fold)],
            proptest::collection::vec(n.clone(), 1..3),
            gen::tape(),
            sgen::delivery(),
        )
            .prop_map(|(it, form, aux, mut tape, delivery)| {
                // a tape that gives a long input
                if let Some(t) = tape.first_mut() {
                    *t = (*t / 97).min(600) * 97 + 96;
                }
                Case { it, form, aux, tape, delivery }
            });
        let short = (gen::it(b, n.clone()), form, proptest::collection::vec(n, 1..3), gen::tape(), sgen::delivery())
            .prop_map(|(it, form, aux, tape, delivery)| Case { it, form, aux, tape, delivery });
        let size = prop_oneof![4 => 65_500u32..65_600, 2 => 65_600u32..140_000, 1 => pbt::fw::sizes(0..3000)];
        let ad = prop_oneof![
            2 => Just(BAd::Map),
            2 => Just(BAd::Scan),
            1 => size.clone().prop_map(BAd::While),
            1 => (size.clone(), any::<bool>()).prop_map(|(n, t)| BAd::Try(n, t)),
            2 => size.clone().prop_map(BAd::Take),
        ];
        let end = prop_oneof![2 => Just(BEnd::End), 1 => Just(BEnd::Miss), 1 => Just(BEnd::Fatal), 2 => Just(BEnd::Repeat)];
        let big = (size, end, proptest::collection::vec(ad, 0..3), 0u8..3, any::<bool>())
            .prop_map(|(n, end, ads, form, once)| Big { n, end, ads, form, once });
        prop_oneof![6000 => short.prop_map(Case8::Chain), 100 => long.prop_map(Case8::Chain), 6 => big.prop_map(Case8::Many), 900 => typed::strategy().prop_map(Case8::Typed)].boxed()
    }
    fn run(&self, c: &Case8, ob: &mut Obs) -> Result<(), String> {
        let c = match c {
            Case8::Chain(c) => c,
            Case8::Many(b) => return run_many(b, ob),
            Case8::Typed(c) => return typed::run_iteration(c, ob),
        };
        let g = grammar(c);
        let best = (0..3)
            .filter_map(|k| {
                let mut t = Tape::new(c.tape.get(k * 5..).unwrap_or(&[]));
                let mut input = vec![];
                let mut fuel = if t.long { 2000 } else { 60 };
                sample_it(&g, &c.it, &mut t, &mut input, &mut fuel);
                mutate(&mut t, &mut input);
                let w = model(&g, c, &input)?;
                let score = match &w.node {
                    None => w.steps.len(),
                    Some(Ok((Val::List(v, _), _))) => v.len() + 1,
                    Some(Ok((Val::Acc(n, _), _))) => *n as usize + 1,
                    _ => 1,
                };
                Some((score, input, w))
            })
            .max_by_key(|x| x.0);
        let Some((score, input, w)) = best else {
            ob.label("discarded: does not end");
            return Ok(());
        };
        let failed = matches!(w.steps.last(), Some(St::Err(_)))
            || matches!(&w.node, Some(Err(_)) | Some(Ok((Val::List(_, Some(_)), _))));
        ob.nontrivial = depth(&c.it) >= 1 && (score > 2 || failed);
        ob.label(match c.form {
            Form::Steps(_) => "stepped",
            Form::Collect(_) => "collected",
            Form::Fold(_) => "folded",
        });
        ob.label_if(failed, "ended by an error");
        ob.label_if(score > 3, "three or more items");
        ob.label_if(score > 30, "thirty or more items");
        ob.label_if(depth(&c.it) >= 3, "three or more adapters");
        let s: String = input.iter().collect();
        go::<StrK, _>("&str", c, &g, &input, &w, false, || s.as_str())?;
        go::<ItemK, _>("&[char]", c, &g, &input, &w, false, || input.as_slice())?;
        let n = go::<StrK, _>("segmented", c, &g, &input, &w, true, || SegSeq::<StrK>::new(&input, &c.delivery, 20_000_000).0)?;
        ob.label_if(n > 0, "another run of the same object came first");
        Ok(())
    }
}

fn main() {
    pbt::fw::main(&[&C08]);
}
