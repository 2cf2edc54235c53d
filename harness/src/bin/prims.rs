//! C05: primitive parsers.
use parcom_core::{ParseError, Parser, ParserOnce, RewindSequence};
use parcom_parsers::primitive::{any_char, any_item, atom, the_char, the_item};
use pbt::fw::{exec, Check, Obs, Tier};
use pbt::seq::{gen, Delivery, ItemK, Kind, SegSeq, StrK, Subject};
use pbt::ensure;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Prim {
    Atom(Vec<char>),
    Any,
    The(char),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    input: Vec<char>,
    prim: Prim,
    delivery: Delivery,
    /// that many characters precede the input, and the pattern of a literal
    pad: u32,
}
fn pad(n: u32, to: &[char]) -> Vec<char> {
    let long = ['x', 'é', 'x', 'あ', 'x', 'x', '😀'];
    (0..n as usize).map(|i| long[i % long.len()]).chain(to.iter().copied()).collect()
}

/// a character that agrees with `c` in most of its encoding
fn near(c: char, how: u16) -> char {
    let n = match how % 5 {
        0..3 => c as u32 ^ 1 << (how / 5 % 21),
        3 => (c as u32).wrapping_add(0x1_0000 * (how as u32 / 5 % 16 + 1)) % 0x11_0000,
        _ => {
            let swapped: Vec<char> = if c.is_lowercase() { c.to_uppercase().collect() } else { c.to_lowercase().collect() };
            swapped[0] as u32
        }
    };
    char::from_u32(n).unwrap_or('b')
}

/// output (Some(first) for the any parser) and number of elements consumed
fn reference<T: Clone + PartialEq>(input: &[T], prim: &RefPrim<T>) -> Option<(Option<T>, usize)> {
    match prim {
        RefPrim::Atom(p) => {
            if input.len() < p.len() || input[..p.len()] != p[..] {
                return None;
            }
            Some((None, p.len()))
        }
        RefPrim::Any => input.first().map(|c| (Some(c.clone()), 1)),
        RefPrim::The(c) => (input.first() == Some(c)).then_some((None, 1)),
    }
}
enum RefPrim<T> {
    Atom(Vec<T>),
    Any,
    The(T),
}

trait Out<T> {
    fn opt(self) -> Option<T>;
}
impl<T> Out<T> for () {
    fn opt(self) -> Option<T> {
        None
    }
}
impl Out<char> for char {
    fn opt(self) -> Option<char> {
        Some(self)
    }
}
struct W<T>(T);

fn verdict<T: PartialEq + Debug, E: ParseError>(
    what: &str,
    input: &[T],
    got: Result<(Option<T>, Vec<T>), E>,
    want: &Option<(Option<T>, usize)>,
) -> Result<(), String> {
    match (got, want) {
        (Ok((o, rest)), Some((wo, n))) => {
            ensure!(&o == wo, "{what}: output {o:?}, expected {wo:?}");
            ensure!(
                rest[..] == input[*n..],
                "{what}: left {rest:?} unconsumed, expected {:?}",
                &input[*n..]
            );
        }
        (Ok((o, rest)), None) => return Err(format!("{what}: accepted (output {o:?}, rest {rest:?}) though the input does not match")),
        (Err(e), None) => ensure!(!e.should_terminate(), "{what}: mismatch reported as a fatal error"),
        (Err(_), Some(w)) => return Err(format!("{what}: rejected, though the input matches {w:?}")),
    }
    Ok(())
}

fn on<K: Kind, S: Subject<K>, P, O: Out<char>>(
    what: &str,
    mk: impl Fn() -> S,
    p: impl Fn() -> P,
    input: &[char],
    want: &Option<(Option<char>, usize)>,
) -> Result<(), String>
where
    P: Parser<S> + ParserOnce<S, Output = O>,
{
    let r = exec::run(p().parse(mk()), 1 << 20)?;
    verdict(what, input, r.map(|(o, mut r)| (o.opt(), r.rest())).map_err(|e| e.0), want)?;
    let r = exec::run(p().parse_once(mk()), 1 << 20)?;
    verdict(
        &format!("{what} (once)"),
        input,
        r.map(|(o, mut r)| (o.opt(), r.rest())).map_err(|e| e.0),
        want,
    )
}

fn text<S: Subject<StrK>>(what: &str, mk: impl Fn() -> S, c: &Case, want: &Option<(Option<char>, usize)>) -> Result<(), String> {
    match &c.prim {
        Prim::Atom(p) => {
            let s: String = p.iter().collect();
            on::<StrK, S, _, ()>(&format!("atom(&str) on {what}"), &mk, || atom(s.as_str()), &c.input, want)?;
            on::<StrK, S, _, ()>(&format!("atom(String) on {what}"), &mk, || atom(s.clone()), &c.input, want)
        }
        Prim::Any => on::<StrK, S, _, char>(&format!("any_char on {what}"), &mk, || any_char::<S>(), &c.input, want),
        Prim::The(ch) => on::<StrK, S, _, ()>(&format!("the_char on {what}"), &mk, || the_char(*ch), &c.input, want),
    }
}
fn items<S: Subject<ItemK>>(what: &str, mk: impl Fn() -> S, c: &Case, want: &Option<(Option<char>, usize)>) -> Result<(), String> {
    match &c.prim {
        Prim::Atom(p) => {
            on::<ItemK, S, _, ()>(&format!("atom(&[char]) on {what}"), &mk, || atom(p.as_slice()), &c.input, want)?;
            on::<ItemK, S, _, ()>(&format!("atom(Vec) on {what}"), &mk, || atom(p.clone()), &c.input, want)?;
            macro_rules! arr { ($($n:literal),*) => { match p.len() { $($n => {
                let a: [char; $n] = p.clone().try_into().unwrap();
                on::<ItemK, S, _, ()>(&format!("atom([char; {}]) on {what}", $n), &mk, || atom(a), &c.input, want)?;
            })* _ => {} } } }
            arr!(0, 1, 2, 3, 5);
            Ok(())
        }
        Prim::Any => on::<ItemK, S, _, char>(&format!("any_item on {what}"), &mk, || any_item::<char, S>(), &c.input, want),
        Prim::The(ch) => on::<ItemK, S, _, ()>(&format!("the_item on {what}"), &mk, || the_item(*ch), &c.input, want),
    }
}

impl Out<char> for W<char> {
    fn opt(self) -> Option<char> {
        Some(self.0)
    }
}

/// Items of another type, made from the characters.
fn other<T: 'static + Clone + PartialEq + Debug>(name: &str, c: &Case, f: impl Fn(char) -> T) -> Result<(), String> {
    let input: Vec<T> = c.input.iter().map(|c| f(*c)).collect();
    let s = input.as_slice();
    // `reference` compares with the items' own equality
    macro_rules! go {
        ($p:expr, $prim:expr, $o:ident, $out:expr) => {{
            let want = reference(&input, &$prim);
            let r = exec::run($p.parse(s), 1 << 20)?;
            let got = r.map(|($o, rest)| ($out, rest.to_vec())).map_err(|e| e.0);
            match (got, want) {
                (Ok((o, rest)), Some((wo, n))) => {
                    let same = match (&o, &wo) {
                        (Some(a), Some(b)) => a == b || a != a,
                        (None, None) => true,
                        _ => false,
                    };
                    ensure!(same, "{name}: output {o:?}, expected {wo:?}");
                    ensure!(rest.len() == input.len() - n, "{name}: {} items left, expected {}", rest.len(), input.len() - n);
                }
                (Err(e), None) => ensure!(!e.should_terminate(), "{name}: mismatch reported as fatal"),
                (Ok(_), None) => return Err(format!("{name}: accepted a mismatch")),
                (Err(_), Some(_)) => return Err(format!("{name}: rejected a match")),
            }
        }};
    }
    match &c.prim {
        Prim::Atom(p) => {
            let p: Vec<T> = p.iter().map(|c| f(*c)).collect();
            go!(atom(p.clone()), RefPrim::Atom(p.clone()), _o, None::<T>);
            // a pattern that is a part of the input, in memory
            let n = p.len().min(s.len());
            for own in [&s[..n], &s[s.len() - n..]] {
                go!(atom(own), RefPrim::Atom(own.to_vec()), _o, None::<T>);
            }
        }
        Prim::Any => go!(any_item::<T, &[T]>(), RefPrim::<T>::Any, o, Some(o)),
        Prim::The(ch) => go!(the_item(f(*ch)), RefPrim::The(f(*ch)), _o, None::<T>),
    }
    Ok(())
}

/// equal regardless of case and, among others, of the last bits
#[derive(Clone, Debug)]
struct Blind(char);
impl PartialEq for Blind {
    fn eq(&self, o: &Self) -> bool {
        let key = |c: char| if c.is_ascii() { c.to_ascii_lowercase() as u32 } else { c as u32 >> 3 };
        key(self.0) == key(o.0)
    }
}

struct C05;
impl Check for C05 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        "a primitive parser x an input (1-4 byte characters) x a delivery; patterns are mutated prefixes of the input (also by characters that agree in most of their bits), or unrelated; some preceded by up to 6000 elements, or more than 65536. Run on &str, &[T] (char, u8, String, zero-sized, f64 with NaN) and segmented text/items, by reference and consuming. Non-trivial: at least one element of a pattern or choice was compared equal, or the pattern was longer than the input or a piece"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(3_000_000, 30_000_000)
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Case> {
        let hi = t.pick(12, 24);
        (gen::text(0..hi), gen::text(0..6), any::<u16>(), any::<u16>(), 0u8..16, gen::delivery(), prop_oneof![16000 => Just(0u32), 40 => 1u32..40, 40 => pbt::fw::sizes(40..6000), 1 => 65_500u32..65_600, 1 => 35_200u32..35_320])
            .prop_map(|(input, extra, a, b, mode, delivery, pad)| {
                let cut = a as usize % (input.len() + 1);
                let other = extra.first().copied().unwrap_or('b');
                let prim = match mode {
                    0 => Prim::Any,
                    1 => Prim::The(input.first().copied().unwrap_or('a')),
                    2 => Prim::The(other),
                    3 | 4 => Prim::Atom(input[..cut].to_vec()),
                    5 => Prim::Atom(input.iter().chain(&extra).copied().collect()),
                    6 => Prim::Atom(extra),
                    7 | 8 => {
                        // one element changed
                        let mut p = input[..cut].to_vec();
                        if !p.is_empty() {
                            let i = b as usize % p.len();
                            p[i] = other;
                        }
                        Prim::Atom(p)
                    }
                    9 => {
                        // prefix continued differently
                        let mut p = input[..cut].to_vec();
                        p.extend(extra);
                        Prim::Atom(p)
                    }
                    12 => Prim::The(near(input.first().copied().unwrap_or('a'), b)),
                    13 => {
                        // one element changed a little
                        let mut p = input[..cut].to_vec();
                        if !p.is_empty() {
                            let i = a as usize % p.len();
                            p[i] = near(p[i], b);
                        }
                        Prim::Atom(p)
                    }
                    10 => {
                        // one element dropped or doubled
                        let mut p = input[..cut].to_vec();
                        if !p.is_empty() {
                            let i = b as usize % p.len();
                            if b & 1 == 0 {
                                p.remove(i);
                            } else {
                                let c = p[i];
                                p.insert(i, c);
                            }
                        }
                        Prim::Atom(p)
                    }
                    _ => Prim::Atom(input.clone()),
                };
                Case { input, prim, delivery, pad }
            })
            .boxed()
    }
    fn run(&self, c: &Case, ob: &mut Obs) -> Result<(), String> {
        let long;
        let c = if c.pad == 0 {
            c
        } else {
            let prim = match &c.prim {
                Prim::Atom(p) => Prim::Atom(pad(c.pad, p)),
                p => p.clone(),
            };
            long = Case { input: pad(c.pad, &c.input), prim, delivery: c.delivery.clone(), pad: 0 };
            &long
        };
        ob.label_if(c.input.len() > 1000, "long input");
        ob.label_if(c.input.len() > 65_000, "input beyond 65000 elements");
        let want = reference(
            &c.input,
            &match &c.prim {
                Prim::Atom(p) => RefPrim::Atom(p.clone()),
                Prim::Any => RefPrim::Any,
                Prim::The(x) => RefPrim::The(*x),
            },
        );
        let common = match &c.prim {
            Prim::Atom(p) => p.iter().zip(&c.input).take_while(|(a, b)| a == b).count(),
            _ => want.is_some() as usize,
        };
        let longer = matches!(&c.prim, Prim::Atom(p) if p.len() > c.input.len());
        ob.nontrivial = common > 0 || longer;
        ob.label(match (&c.prim, want.is_some()) {
            (Prim::Atom(_), true) => "literal matches",
            (Prim::Atom(_), false) => "literal differs",
            (Prim::Any, true) => "any, input left",
            (Prim::Any, false) => "any, at end",
            (Prim::The(_), true) => "element matches",
            (Prim::The(_), false) => "element differs",
        });
        ob.label_if(common > 0 && want.is_none(), "differs after a matching prefix");
        ob.label_if(c.input.iter().any(|c| c.len_utf8() > 1), "multi-byte input");
        let s: String = c.input.iter().collect();
        text("&str", || s.as_str(), c, &want)?;
        items("&[char]", || c.input.as_slice(), c, &want)?;
        let mut pieces = 0;
        let mut ctxs = vec![];
        let cell = std::cell::RefCell::new(&mut ctxs);
        text(
            "segmented text",
            || {
                let (s, ctx) = SegSeq::<StrK>::new(&c.input, &c.delivery, 10_000);
                cell.borrow_mut().push((ctx, true));
                s
            },
            c,
            &want,
        )?;
        items(
            "segmented items",
            || {
                let (s, ctx) = SegSeq::<ItemK>::new(&c.input, &c.delivery, 10_000);
                cell.borrow_mut().push((ctx, false));
                s
            },
            c,
            &want,
        )?;
        let far = match &c.prim {
            Prim::Atom(p) => (common + 1).min(p.len()).max(1),
            _ => 1,
        };
        for (x, text) in &ctxs {
            x.legal()?;
            x.prompt(if *text { c.input.iter().take(far).map(|c| c.len_utf8()).sum::<usize>() + far.saturating_sub(c.input.len()) } else { far })?;
            pieces = pieces.max(x.ops.get());
        }
        ob.label_if(pieces > 3, "several pieces read");
        other("u8 items", c, |c| (c as u32 % 251) as u8)?;
        other("u64 items", c, |c| c as u64)?;
        other("String items", c, |c| c.to_string())?;
        other("zero-sized items", c, |_| ())?;
        other("items of which some are equal but not the same", c, |c| Blind(c))?;
        other("f64 items with NaN", c, |c| if c == 'b' { f64::NAN } else { c as u32 as f64 })?;
        Ok(())
    }
}

#[allow(dead_code)]
fn _assert<S: RewindSequence>() {}

fn main() {
    pbt::fw::main(&[&C05]);
}
