//! Workers sharing one iterator over a rule.
use crate::rules::AnyRule;
use crate::util::{attempt, fail, panic_text};
use model::*;
use simrt::{shm, Rng};
use std::panic::resume_unwind;
use std::sync::Mutex;

type Item = (u64, u64);
type Slice<I> = Option<fn(&I) -> &[(f64, f64)]>;

/// What must be left in an iterator: the elements lo..hi of the rule.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Left {
    lo: u64,
    hi: u64,
}

struct Shared<I> {
    it: I,
    left: Left,
    saved: Option<(I, Left)>,
}

/// The crash of a worker.
struct Crashed;

fn f1(x: &f64) -> Item {
    (x.to_bits(), 0)
}
fn f2(x: &(f64, f64)) -> Item {
    (x.0.to_bits(), x.1.to_bits())
}
fn fo(x: (f64, f64)) -> Item {
    f2(&x)
}
fn fp(x: f64) -> Item {
    (x.to_bits(), 0)
}

/// Element number k as this view must show it.
#[derive(Clone, Copy)]
struct Truth {
    pairs: &'static [(f64, f64)],
    n: u64,
    mode: u8,
}
impl Truth {
    fn at(&self, k: u64) -> Item {
        match self.mode {
            0 => (self.pairs[k as usize].0.to_bits(), 0),
            1 => (self.pairs[k as usize].1.to_bits(), 0),
            2 => f2(&self.pairs[k as usize]),
            _ => ((k as f64).to_bits(), 0),
        }
    }
}

pub fn run(t: &'static Iter) {
    let rule = match attempt(|| AnyRule::build(&t.rule)) {
        Ok(r) => r,
        Err(e) => {
            fail("iter-panic", &format!("constructing {} panicked: {}", t.rule.key(), panic_text(&*e)));
            simrt::finish()
        }
    };
    let rule: &'static AnyRule = Box::leak(Box::new(rule));
    let pairs: &'static [(f64, f64)] = Box::leak(rule.pairs().to_vec().into_boxed_slice());
    let n = t.rule.deg;
    if rule.degree() != n || (!rule.kind().is_nc() && pairs.len() as u64 != n) {
        fail("iter", &format!("{}: degree {} and {} pairs", t.rule.key(), rule.degree(), pairs.len()));
    }
    on_view(rule, pairs, n, t.view, t);
    // whatever happened, the rule still shows the same
    if rule.pairs().iter().map(f2).ne(pairs.iter().map(f2)) {
        fail("iter", "the rule's pairs changed");
    }
}

/// Calls `drive` with the iterator type of the view.
fn on_view(rule: &'static AnyRule, pairs: &'static [(f64, f64)], n: u64, view: View, t: &'static Iter) {
    let tr = |mode| Truth { pairs, n, mode };
    macro_rules! gauss {
        ($r:expr) => {
            match view {
                View::Nodes => drive(rule, t, $r.nodes(), f1, None, tr(0)),
                View::Weights => drive(rule, t, $r.weights(), f1, None, tr(1)),
                View::Iter => drive(rule, t, $r.iter(), f2, Some(|i| i.as_slice()), tr(2)),
                View::RefIntoIter => drive(rule, t, $r.into_iter(), f2, Some(|i| i.as_ref()), tr(2)),
                View::IntoIter => drive(rule, t, $r.clone().into_iter(), fo, Some(|i| i.as_slice()), tr(2)),
            }
        };
    }
    macro_rules! nc {
        ($r:expr) => {
            match view {
                View::RefIntoIter => drive(rule, t, $r.into_iter(), fp, None, tr(3)),
                View::IntoIter => drive(rule, t, $r.clone().into_iter(), fp, None, tr(3)),
                _ => drive(rule, t, $r.iter(), fp, None, tr(3)),
            }
        };
    }
    match rule {
        AnyRule::Leg(r) => gauss!(r),
        AnyRule::Jac(r) => gauss!(r),
        AnyRule::Lag(r) => gauss!(r),
        AnyRule::Her(r) => gauss!(r),
        AnyRule::Ch1(r) => gauss!(r),
        AnyRule::Ch2(r) => gauss!(r),
        AnyRule::Mid(r) => nc!(r),
        AnyRule::Trap(r) => nc!(r),
        AnyRule::Simp(r) => nc!(r),
    }
}

fn drive<I>(
    rule: &'static AnyRule,
    t: &'static Iter,
    it: I,
    key: fn(I::Item) -> Item,
    slice: Slice<I>,
    truth: Truth,
) where
    I: DoubleEndedIterator + ExactSizeIterator + Clone + std::fmt::Debug + Send + 'static,
    I::Item: Copy + PartialOrd + std::fmt::Debug,
{
    let sh: &'static Mutex<Shared<I>> =
        Box::leak(Box::new(Mutex::new(Shared { it, left: Left { lo: 0, hi: truth.n }, saved: None })));
    let mut hs = vec![];
    for ops in &t.workers[t.workers.len().min(1)..] {
        hs.push(std::thread::spawn(move || worker(rule, sh, ops, key, slice, truth)));
    }
    if let Some(ops) = t.workers.first() {
        worker(rule, sh, ops, key, slice, truth);
    }
    for h in hs {
        if let Err(e) = h.join() {
            fail("iter-panic", &format!("worker panicked: {}", panic_text(&*e)));
        }
    }
    // nothing is lost: what is left comes out, in order, and then nothing more
    let mut g = lock(sh);
    let Shared { it, left, .. } = &mut *g;
    let cap = 20_000;
    for _ in 0..cap {
        let want = (left.lo < left.hi).then(|| truth.at(left.lo));
        if same("next() while emptying", it.next().map(key), want).is_none() {
            break;
        }
        left.lo += 1;
    }
    for _ in 0..3 {
        if left.lo == left.hi {
            same("next() on an exhausted iterator", it.next().map(key), None);
            same("next_back() on an exhausted iterator", it.next_back().map(key), None);
        }
    }
}

fn lock<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

fn show(x: Option<Item>) -> String {
    match x {
        None => "nothing".into(),
        Some((a, 0)) => format!("{:e}", f64::from_bits(a)),
        Some((a, b)) => format!("({:e}, {:e})", f64::from_bits(a), f64::from_bits(b)),
    }
}

fn same(what: &str, got: Option<Item>, want: Option<Item>) -> Option<Item> {
    if got != want {
        fail("iter", &format!("{what} gave {} instead of {}", show(got), show(want)));
    }
    got
}

fn num(what: &str, got: u64, want: u64) {
    if got != want {
        fail("iter", &format!("{what} is {got} instead of {want}"));
    }
}

fn worker<I>(rule: &'static AnyRule, sh: &'static Mutex<Shared<I>>, ops: &'static [IOp], key: fn(I::Item) -> Item, slice: Slice<I>, truth: Truth)
where
    I: DoubleEndedIterator + ExactSizeIterator + Clone + std::fmt::Debug,
    I::Item: Copy + PartialOrd + std::fmt::Debug,
{
    for op in ops {
        shm::stats().ops += 1;
        simrt::point();
        let r = attempt(|| match op {
            IOp::Fresh(v, seed) => fresh(rule, truth, *v, *seed),
            _ => {
                let mut g = lock(sh);
                one(&mut g, op, key, slice, truth)
            }
        });
        match r {
            Ok(()) => {}
            Err(e) if e.is::<Crashed>() => {
                shm::stats().f_worker_crash += 1;
                // the restarted worker goes on with what it finds
                let g = lock(sh);
                num("len() after a worker crashed", g.it.len() as u64, g.left.hi - g.left.lo);
                shm::stats().p_recovered += 1;
            }
            Err(e) => fail("iter-panic", &format!("{op:?} panicked: {}", panic_text(&*e))),
        }
        let g = lock(sh);
        simrt::event(g.left.lo.wrapping_mul(0x1_0000_0001) ^ g.left.hi);
    }
}

fn crash() -> ! {
    resume_unwind(Box::new(Crashed))
}

/// The expected elements of lo..hi, from the front.
fn front(l: &mut Left, truth: Truth) -> Option<Item> {
    if l.lo < l.hi {
        l.lo += 1;
        Some(truth.at(l.lo - 1))
    } else {
        None
    }
}
fn back(l: &mut Left, truth: Truth) -> Option<Item> {
    if l.lo < l.hi {
        l.hi -= 1;
        Some(truth.at(l.hi))
    } else {
        None
    }
}

fn one<I>(s: &mut Shared<I>, op: &IOp, key: fn(I::Item) -> Item, slice: Slice<I>, truth: Truth)
where
    I: DoubleEndedIterator + ExactSizeIterator + Clone + std::fmt::Debug,
    I::Item: Copy + PartialOrd + std::fmt::Debug,
{
    let Shared { it, left, saved } = s;
    let n = left.hi - left.lo;
    let long = n > 3000;
    match *op {
        IOp::Next => {
            same("next()", it.next().map(key), front(left, truth));
        }
        IOp::Back => {
            same("next_back()", it.next_back().map(key), back(left, truth));
        }
        IOp::Nth(k) => {
            left.lo = left.lo.saturating_add(k).min(left.hi);
            same(&format!("nth({k})"), it.nth(k as usize).map(key), front(left, truth));
        }
        IOp::NthBack(k) => {
            left.hi = left.hi.saturating_sub(k).max(left.lo);
            same(&format!("nth_back({k})"), it.nth_back(k as usize).map(key), back(left, truth));
        }
        IOp::Len => num("len()", it.len() as u64, n),
        IOp::Hint => {
            let h = it.size_hint();
            num("lower size hint", h.0 as u64, n);
            match h.1 {
                Some(u) => num("upper size hint", u as u64, n),
                None => fail("iter", "no upper size hint"),
            }
        }
        IOp::Slice => {
            if let Some(f) = slice {
                let v = f(it);
                num("length of as_slice()", v.len() as u64, n);
                for (i, p) in v.iter().enumerate() {
                    same("as_slice()", Some(f2(p)), Some(truth.at(left.lo + i as u64)));
                }
            }
        }
        IOp::CountClone => {
            if n <= WALKABLE {
                num("count() of a copy", it.clone().count() as u64, n);
            }
        }
        IOp::LastClone if n <= WALKABLE => {
            same("last() of a copy", it.clone().last().map(key), back(&mut left.clone(), truth));
        }
        IOp::CollectClone if !long => {
            let v: Vec<I::Item> = it.clone().collect();
            num("length of a collected copy", v.len() as u64, n);
            let mut l = *left;
            for x in v {
                same("collected copy", Some(key(x)), front(&mut l, truth));
            }
        }
        IOp::RevClone if !long => {
            let mut l = *left;
            for x in it.clone().rev() {
                same("reversed copy", Some(key(x)), back(&mut l, truth));
            }
            num("elements missing from the reversed copy", l.hi - l.lo, 0);
        }
        IOp::FoldClone if !long => {
            let mut l = *left;
            it.clone().fold((), |(), x| {
                same("fold() of a copy", Some(key(x)), front(&mut l, truth));
            });
            num("elements missing from fold()", l.hi - l.lo, 0);
            let mut l = *left;
            it.clone().for_each(|x| {
                same("for_each() of a copy", Some(key(x)), front(&mut l, truth));
            });
            num("elements missing from for_each()", l.hi - l.lo, 0);
        }
        IOp::RFoldClone if !long => {
            let mut l = *left;
            it.clone().rfold((), |(), x| {
                same("rfold() of a copy", Some(key(x)), back(&mut l, truth));
            });
            num("elements missing from rfold()", l.hi - l.lo, 0);
        }
        IOp::StepClone(k) if !long => adaptors(it, *left, k, key, truth),
        IOp::FindClone(k) => {
            let mut c = it.clone();
            let mut l = *left;
            search(&mut c, &mut l, k, key, truth);
            num("len() of a copy after a search", c.len() as u64, l.hi - l.lo);
            num("len() of the original after a search in a copy", it.len() as u64, n);
        }
        IOp::FindShared(k) => search(it, left, k, key, truth),
        IOp::TakeShared(k) => {
            let k = k % 40;
            if k % 2 == 0 {
                for x in it.by_ref().take(k as usize) {
                    same("take()", Some(key(x)), front(left, truth));
                }
            } else {
                for x in it.by_ref().rev().take(k as usize) {
                    same("rev().take()", Some(key(x)), back(left, truth));
                }
            }
            num("len() after take()", it.len() as u64, n.saturating_sub(k));
        }
        IOp::Save => *saved = Some((it.clone(), *left)),
        IOp::Resume => {
            if let Some((i, l)) = saved {
                shm::stats().p_resume += 1;
                if *left != *l {
                    shm::stats().p_recovered += 1;
                }
                *it = i.clone();
                *left = *l;
            }
        }
        IOp::Crash => crash(),
        IOp::CrashIn(k) if n > 0 => {
            let mut todo = 1 + k % n.min(50);
            it.by_ref().for_each(|x| {
                same("for_each()", Some(key(x)), front(left, truth));
                todo -= 1;
                if todo == 0 {
                    crash()
                }
            });
        }
        IOp::Format if !long => {
            let a = format!("{it:?}");
            if a.is_empty() {
                fail("iter", "empty debug text");
            }
        }
        _ => {}
    }
    num("len() after an operation", it.len() as u64, left.hi - left.lo);
}

/// count() and last() may rightly walk through all elements.
const WALKABLE: u64 = 1 << 21;

/// Consuming searches: everything up to and including the hit is gone.
fn search<I>(it: &mut I, l: &mut Left, k: u64, key: fn(I::Item) -> Item, truth: Truth)
where
    I: DoubleEndedIterator + ExactSizeIterator + Clone,
{
    let n = l.hi - l.lo;
    let d = (k >> 3) % (n.min(60) + 3);
    let mut seen = 0;
    macro_rules! pred {
        ($f:ident) => {
            |x| {
                same("search", Some(key(x)), $f(l, truth));
                seen += 1;
                seen == d + 1
            }
        };
    }
    if n > 100_000 && d >= n {
        return;
    }
    let hit = (d < n).then_some(d);
    match k % 8 {
        0 => {
            let mut l2 = *l;
            l2.lo = l.lo.saturating_add(d).min(l.hi);
            let want = front(&mut l2, truth);
            let got = it.find(|_| {
                seen += 1;
                seen == d + 1
            });
            *l = l2;
            same("find()", got.map(key), want);
        }
        1 => {
            let got = it.position(pred!(front)).map(|x| x as u64);
            if got != hit {
                fail("iter", &format!("position() gave {got:?} instead of {hit:?}"));
            }
        }
        2 => {
            let got = it.rposition(pred!(back)).map(|x| x as u64);
            let want = hit.map(|d| n - 1 - d);
            if got != want {
                fail("iter", &format!("rposition() gave {got:?} instead of {want:?}"));
            }
        }
        3 => {
            if it.any(pred!(front)) != hit.is_some() {
                fail("iter", "any() gave the wrong answer");
            }
        }
        4 => {
            let mut p = pred!(front);
            if it.all(|x| !p(x)) == hit.is_some() {
                fail("iter", "all() gave the wrong answer");
            }
        }
        5 => {
            let mut p = pred!(front);
            let got = it.find_map(|x| if p(x) { Some(1) } else { None });
            if got.is_some() != hit.is_some() {
                fail("iter", "find_map() gave the wrong answer");
            }
        }
        6 => {
            let mut l2 = *l;
            l2.hi = l.hi.saturating_sub(d).max(l.lo);
            let want = back(&mut l2, truth);
            let got = it.rfind(|_| {
                seen += 1;
                seen == d + 1
            });
            *l = l2;
            same("rfind()", got.map(key), want);
        }
        _ => {
            let mut p = pred!(front);
            let got = it.try_for_each(|x| if p(x) { Err(()) } else { Ok(()) });
            if got.is_err() != hit.is_some() {
                fail("iter", "try_for_each() gave the wrong answer");
            }
        }
    }
}

/// Everything else an iterator offers, over copies, against plain vectors.
fn adaptors<I>(it: &I, l: Left, k: u64, key: fn(I::Item) -> Item, truth: Truth)
where
    I: DoubleEndedIterator + ExactSizeIterator + Clone,
    I::Item: Copy + PartialOrd,
{
    let v: Vec<Item> = (l.lo..l.hi).map(|i| truth.at(i)).collect();
    let n = v.len();
    let m = (k >> 4) as usize % (n + 2);
    let step = 1 + (k >> 24) as usize % 7;
    let eq = |what: &str, got: Vec<Item>, want: Vec<Item>| {
        if got != want {
            fail("iter", &format!("{what} over a copy with {n} left gives other elements ({} instead of {})", got.len(), want.len()));
        }
    };
    let key1 = key;
    let ks = move |i: &mut dyn Iterator<Item = I::Item>| -> Vec<Item> { i.map(key1).collect() };
    let first = |x: &Item| f64::from_bits(x.0);
    match k % 16 {
        0 => eq("skip()", ks(&mut it.clone().skip(m)), v.iter().copied().skip(m).collect()),
        1 => eq("step_by()", it.clone().step_by(step).map(key).collect(), v.iter().copied().step_by(step).collect()),
        2 => eq("take()", it.clone().take(m).map(key).collect(), v.iter().copied().take(m).collect()),
        3 => eq("skip().rev()", it.clone().skip(m).rev().map(key).collect(), v.iter().copied().skip(m).rev().collect()),
        4 => eq("take().rev()", it.clone().take(m).rev().map(key).collect(), v.iter().copied().take(m).rev().collect()),
        5 => eq(
            "rev().step_by()",
            it.clone().rev().step_by(step).map(key).collect(),
            v.iter().copied().rev().step_by(step).collect(),
        ),
        6 => eq("chain()", it.clone().chain(it.clone()).map(key).collect(), v.iter().chain(&v).copied().collect()),
        7 => {
            let z: Vec<(Item, Item)> = it.clone().zip(it.clone().rev()).map(|(a, b)| (key(a), key(b))).collect();
            let w: Vec<(Item, Item)> = v.iter().copied().zip(v.iter().rev().copied()).collect();
            if z != w {
                fail("iter", "zip() of a copy with its reverse gives other elements");
            }
        }
        8 => {
            let (a, b): (Vec<_>, Vec<_>) = it.clone().enumerate().map(|(i, x)| (i, key(x))).unzip();
            eq("enumerate()", b, v.clone());
            if a != (0..n).collect::<Vec<_>>() {
                fail("iter", "enumerate() numbers wrongly");
            }
        }
        9 => {
            let got = it.clone().min_by(|a, b| first(&key(*a)).total_cmp(&first(&key(*b)))).map(key);
            let want = v.iter().copied().min_by(|a, b| first(a).total_cmp(&first(b)));
            same("min_by()", got, want);
            let got = it.clone().max_by(|a, b| first(&key(*a)).total_cmp(&first(&key(*b)))).map(key);
            let want = v.iter().copied().max_by(|a, b| first(a).total_cmp(&first(b)));
            same("max_by()", got, want);
        }
        10 => {
            let mut p = it.clone().peekable();
            let mut got = vec![];
            while let Some(x) = p.peek().copied() {
                got.push(key(x));
                if p.next().map(key) != got.last().copied() {
                    fail("iter", "peek() and next() differ");
                }
            }
            eq("peekable()", got, v.clone());
        }
        11 => {
            let mut f = it.clone().fuse();
            let mut got = vec![];
            while let Some(x) = f.next() {
                got.push(key(x));
                match f.next_back() {
                    Some(y) => got.push(key(y)),
                    None => break,
                }
            }
            let mut w = vec![];
            let (mut a, mut b) = (0, n);
            while a < b {
                w.push(v[a]);
                a += 1;
                if a < b {
                    b -= 1;
                    w.push(v[b]);
                }
            }
            eq("fuse() from both ends", got, w);
        }
        12 => {
            if !it.clone().map(key).eq(v.iter().copied()) || it.clone().map(key).ne(v.iter().copied()) {
                fail("iter", "eq()/ne() give the wrong answer");
            }
        }
        13 => {
            let got = it.clone().map(key).reduce(|a, b| (a.0.rotate_left(7) ^ b.0, a.1.wrapping_mul(31).wrapping_add(b.1)));
            let want = v.iter().copied().reduce(|a, b| (a.0.rotate_left(7) ^ b.0, a.1.wrapping_mul(31).wrapping_add(b.1)));
            same("reduce()", got, want);
        }
        14 => {
            // a copy used up in another order than the original
            let mut c = it.clone();
            let mut l2 = l;
            let mut r = Rng::new(k);
            loop {
                let (g, w, what) = match r.below(4) {
                    0 => (c.next().map(key), front(&mut l2, truth), "next()"),
                    1 => (c.next_back().map(key), back(&mut l2, truth), "next_back()"),
                    2 => {
                        let j = r.below(4);
                        l2.lo = (l2.lo + j).min(l2.hi);
                        (c.nth(j as usize).map(key), front(&mut l2, truth), "nth()")
                    }
                    _ => {
                        let j = r.below(4);
                        l2.hi = l2.hi.saturating_sub(j).max(l2.lo);
                        (c.nth_back(j as usize).map(key), back(&mut l2, truth), "nth_back()")
                    }
                };
                same(what, g, w);
                num("len() of a copy", c.len() as u64, l2.hi - l2.lo);
                if g.is_none() {
                    break;
                }
            }
        }
        _ => {
            let (a, b): (Vec<Item>, Vec<Item>) = it.clone().map(key).partition(|x| x.0 % 3 == k % 3);
            let (c, d): (Vec<Item>, Vec<Item>) = v.iter().partition(|x| x.0 % 3 == k % 3);
            eq("partition()", a, c);
            eq("partition()", b, d);
        }
    }
}

/// An iterator of the worker's own, walked from both ends while others use the rule.
fn fresh(rule: &'static AnyRule, truth: Truth, view: View, seed: u64) {
    let tr = |mode| Truth { mode, ..truth };
    macro_rules! gauss {
        ($r:expr) => {
            match view {
                View::Nodes => walk($r.nodes(), f1, tr(0), seed),
                View::Weights => walk($r.weights(), f1, tr(1), seed),
                View::Iter => walk($r.iter(), f2, tr(2), seed),
                View::RefIntoIter => {
                    walk($r.into_iter(), f2, tr(2), seed);
                    let b = $r.clone().into_node_weight_pairs();
                    num("length of into_node_weight_pairs()", b.len() as u64, truth.n);
                    if b.iter().map(f2).ne(truth.pairs.iter().map(f2)) {
                        fail("iter", "into_node_weight_pairs() gives other pairs");
                    }
                }
                View::IntoIter => walk($r.clone().into_iter(), fo, tr(2), seed),
            }
        };
    }
    macro_rules! nc {
        ($r:expr) => {
            match view {
                View::RefIntoIter => walk($r.into_iter(), fp, tr(3), seed),
                View::IntoIter => walk($r.clone().into_iter(), fp, tr(3), seed),
                _ => walk($r.iter(), fp, tr(3), seed),
            }
        };
    }
    match rule {
        AnyRule::Leg(r) => gauss!(r),
        AnyRule::Jac(r) => gauss!(r),
        AnyRule::Lag(r) => gauss!(r),
        AnyRule::Her(r) => gauss!(r),
        AnyRule::Ch1(r) => gauss!(r),
        AnyRule::Ch2(r) => gauss!(r),
        AnyRule::Mid(r) => nc!(r),
        AnyRule::Trap(r) => nc!(r),
        AnyRule::Simp(r) => nc!(r),
    }
}

fn walk<I: DoubleEndedIterator + ExactSizeIterator>(mut it: I, key: fn(I::Item) -> Item, truth: Truth, seed: u64) {
    let mut l = Left { lo: 0, hi: truth.n };
    let mut r = Rng::new(seed);
    let n = if r.chance(1, 3) { r.below(8) } else { 400 };
    for _ in 0..n {
        num("len() of an own iterator", it.len() as u64, l.hi - l.lo);
        if r.chance(1, 2) {
            same("next() of an own iterator", it.next().map(key), front(&mut l, truth));
        } else {
            same("next_back() of an own iterator", it.next_back().map(key), back(&mut l, truth));
        }
        if l.lo == l.hi && r.chance(1, 4) {
            break;
        }
    }
}
