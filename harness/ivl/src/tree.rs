//! C16: the interval tree against a plain list.

use std::cmp::Ordering;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};

use plotline_plugin_interval::date::{BigEndianDate, LittleEndianDate};
use plotline_plugin_interval::{Interval, IntervalSearchTree};
use vcommon::{mix, Case, Rng, Violation};

type R = Result<(), Violation>;

/// An interval of the harness: `tag` tells apart intervals with the same bounds.
#[derive(Clone, Copy, Debug)]
struct Iv<B> {
    lo: B,
    hi: B,
    tag: u32,
}
impl<B: Ord> PartialEq for Iv<B> {
    fn eq(&self, o: &Self) -> bool {
        self.tag == o.tag && self.lo.cmp(&o.lo).is_eq() && self.hi.cmp(&o.hi).is_eq()
    }
}
impl<B: Copy + Ord> Interval for Iv<B> {
    type Bound = B;
    fn lo(&self) -> B {
        self.lo
    }
    fn hi(&self) -> B {
        self.hi
    }
}

/// A bound whose order ignores one of its fields.
#[derive(Clone, Copy, Debug)]
struct Fuzzy(i32, u8);
impl PartialEq for Fuzzy {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for Fuzzy {}
impl PartialOrd for Fuzzy {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Fuzzy {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.cmp(&o.0)
    }
}

struct Run<'a, B: Copy + Ord> {
    tree: IntervalSearchTree<Iv<B>>,
    list: Vec<Iv<B>>,
    log: String,
    c: &'a mut Case,
    deleted: bool,
    overlapped: bool,
}

impl<B: Copy + Ord + Debug> Run<'_, B> {
    fn note(&mut self, what: &str, i: &Iv<B>) {
        let l = format!("{what} [{:?}, {:?}] #{}", i.lo, i.hi, i.tag);
        for b in l.bytes() {
            self.c.hash = mix(self.c.hash ^ b as u64);
        }
        self.log.push_str(&l);
        self.log.push('\n');
    }
    fn bad(&self, m: String) -> R {
        let w: Vec<&str> = self.log.lines().collect();
        let skip = w.len().saturating_sub(4000);
        Err(Violation::new(m, w[skip..].join("\n")))
    }
    fn insert(&mut self, i: Iv<B>) -> R {
        self.note("insert", &i);
        self.c.count("inserts", 1);
        self.list.push(i);
        let t = &mut self.tree;
        let moved = self.c.hash % 3 == 0;
        let done = catch_unwind(AssertUnwindSafe(|| {
            if moved {
                // By value: the tree is elsewhere in between.
                *t = Box::new(std::mem::take(t)).with_interval(i);
            } else {
                t.insert(i)
            }
        }));
        if done.is_err() {
            return self.bad(format!("insert panics: {}", vcommon::last_panic()));
        }
        Ok(())
    }
    fn delete(&mut self, i: Iv<B>) -> R {
        self.note("delete", &i);
        match self.list.iter().position(|x| *x == i) {
            Some(p) => {
                let (lower, higher) = (self.list.iter().any(|x| x.lo < i.lo), self.list.iter().filter(|x| x.lo >= i.lo).count() > 1);
                self.c.count("two_child_deletes_possible", (lower && higher) as u64);
                self.list.remove(p);
                self.c.count("deletes_present", 1);
                self.deleted = true;
            }
            None => self.c.count("deletes_absent", 1),
        }
        let t = &mut self.tree;
        if catch_unwind(AssertUnwindSafe(|| t.delete(&i))).is_err() {
            return self.bad(format!("delete panics: {}", vcommon::last_panic()));
        }
        Ok(())
    }
    fn query(&mut self, q: Iv<B>) -> R {
        let mut want: Vec<Iv<B>> = self.list.iter().filter(|x| x.lo <= q.hi && q.lo <= x.hi).copied().collect();
        let mut got: Vec<Iv<B>> = vec![];
        let t = &self.tree;
        let Ok(any) = catch_unwind(AssertUnwindSafe(|| {
            let any = t.intersects(&q);
            t.for_each_intersection(&q, |x| got.push(*x));
            any
        })) else {
            return self.bad(format!("query [{:?}, {:?}] panics: {}", q.lo, q.hi, vcommon::last_panic()));
        };
        self.c.count(if want.is_empty() { "queries_empty" } else { "queries_overlapping" }, 1);
        self.overlapped |= !want.is_empty();
        if any == want.is_empty() {
            return self.bad(format!("intersects([{:?}, {:?}]) is {any}, but {} stored intervals overlap it", q.lo, q.hi, want.len()));
        }
        let key = |x: &Iv<B>| (x.lo, x.hi, x.tag);
        want.sort_by_key(key);
        got.sort_by_key(key);
        if want == got && self.c.hash % 4 == 0 {
            self.nested_query(&q, &want)?;
        }
        if want != got {
            return self.bad(format!(
                "the intervals overlapping [{:?}, {:?}] are reported as {:?}, expected {:?}",
                q.lo,
                q.hi,
                got.iter().take(8).collect::<Vec<_>>(),
                want.iter().take(8).collect::<Vec<_>>()
            ));
        }
        Ok(())
    }

    /// The tree is asked again while it enumerates, and an enumeration is broken off by a panic.
    fn nested_query(&mut self, q: &Iv<B>, want: &[Iv<B>]) -> R {
        let (t, list) = (&self.tree, &self.list);
        let (mut outer, mut bad) = (0, None);
        let r = catch_unwind(AssertUnwindSafe(|| {
            t.for_each_intersection(q, |x| {
                outer += 1;
                if outer > 6 {
                    return;
                }
                let probe = Iv { lo: x.lo, hi: x.lo, tag: 0 };
                let mut inner = 0;
                t.for_each_intersection(&probe, |_| inner += 1);
                let expect = list.iter().filter(|y| y.lo <= x.lo && x.lo <= y.hi).count();
                if inner != expect || !t.intersects(x) {
                    bad = Some(format!("asked again while enumerating, [{:?}, {:?}] gives {inner} intervals instead of {expect}", x.lo, x.lo));
                }
            });
        }));
        if r.is_err() {
            return self.bad(format!("a query within a query panics: {}", vcommon::last_panic()));
        }
        if bad.is_none() && outer != want.len() {
            bad = Some(format!("with queries inside it, [{:?}, {:?}] gives {outer} intervals instead of {}", q.lo, q.hi, want.len()));
        }
        if let Some(m) = bad {
            return self.bad(m);
        }
        self.c.count("queries_within_queries", 1);
        if want.is_empty() {
            return Ok(());
        }
        let stop = want.len() / 2;
        let (mut n, t) = (0, &self.tree);
        let r = catch_unwind(AssertUnwindSafe(|| {
            t.for_each_intersection(q, |_| {
                if n == stop {
                    std::panic::resume_unwind(Box::new(()));
                }
                n += 1;
            });
        }));
        let mut again = 0;
        self.tree.for_each_intersection(q, |_| again += 1);
        if r.is_ok() || n != stop || again != want.len() || !self.tree.intersects(q) {
            return self.bad(format!("after an enumeration of [{:?}, {:?}] broken off at {n}, it gives {again} intervals instead of {}", q.lo, q.hi, want.len()));
        }
        self.c.count("queries_broken_off", 1);
        Ok(())
    }
}

fn history<B: Copy + Ord + Debug>(c: &mut Case, r: &mut Rng, key: &dyn Fn(&mut Rng, i64) -> B) -> R {
    // The shape of the history: how wide the bounds are, how long, and in which order.
    let (n, width) = match r.below(12) {
        0 => (r.below(600) + 2, 40),
        1 => (r.below(150) + 2, 1000),
        2 | 3 => (r.below(12) + 1, 4),
        4 => (r.below(40) + 1, 2),
        5 => (r.below(80) + 1, 12),
        6 => (r.below(1200) + 2, 100_000),
        _ => (r.below(30) + 1, 10),
    };
    if n > 300 && !r.chance(20) {
        return history_n(c, r, key, 30, width);
    }
    history_n(c, r, key, n, width)
}

fn history_n<B: Copy + Ord + Debug>(c: &mut Case, r: &mut Rng, key: &dyn Fn(&mut Rng, i64) -> B, n: usize, width: i64) -> R {
    let order = r.below(6);
    let tags = *r.pick(&[1usize, 1, 2, 1000]);
    let long = *r.pick(&[1i64, 2, 4, 1000]);
    let churn = *r.pick(&[0u32, 20, 40, 60]);
    let mut run = Run { tree: IntervalSearchTree::default(), list: vec![], log: String::new(), c, deleted: false, overlapped: false };
    let mut at = 0i64;
    let fresh = |r: &mut Rng, at: &mut i64| -> Iv<B> {
        let lo = match order {
            0 => {
                *at += r.range(0, 1);
                *at
            }
            1 => {
                *at -= r.range(0, 1);
                *at
            }
            2 => width / 2,
            _ => r.range(0, width),
        };
        let len = match r.below(5) {
            0 => 0,
            1 => width * 2,
            _ => r.range(0, (width / long).max(1)),
        };
        // One value per bound, so that lo <= hi whatever the order ignores.
        let (a, b) = (key(r, lo), key(r, lo + len));
        let (lo, hi) = if a <= b { (a, b) } else { (b, a) };
        Iv { lo, hi, tag: r.below(tags) as u32 }
    };
    let per = if n > 200 { 1 } else { 3 };
    for _ in 0..n {
        if r.chance(churn) && !run.list.is_empty() {
            let mut x = match r.below(6) {
                0 => fresh(r, &mut at),
                _ => *r.pick(&run.list),
            };
            match r.below(12) {
                0 => x.tag = x.tag.wrapping_add(1), // the same bounds, another interval
                1 => x.hi = x.hi.max(fresh(r, &mut at).hi),
                _ => {}
            }
            run.delete(x)?;
        } else {
            let x = match r.below(6) {
                0 if !run.list.is_empty() => {
                    let mut y = *r.pick(&run.list);
                    if r.chance(50) {
                        y.hi = y.hi.max(fresh(r, &mut at).hi);
                    }
                    y
                }
                _ => fresh(r, &mut at),
            };
            run.insert(x)?;
        }
        if n <= 200 || r.chance(10) {
            for _ in 0..per {
                let q = match r.below(3) {
                    0 if !run.list.is_empty() => {
                        // Touching the edges of stored intervals.
                        let (a, b) = (*r.pick(&run.list), *r.pick(&run.list));
                        let (x, y) = (if r.chance(50) { a.lo } else { a.hi }, if r.chance(50) { b.lo } else { b.hi });
                        Iv { lo: x.min(y), hi: x.max(y), tag: 7 }
                    }
                    1 if !run.list.is_empty() => {
                        let a = *r.pick(&run.list);
                        let x = if r.chance(50) { a.lo } else { a.hi };
                        Iv { lo: x, hi: x, tag: 7 }
                    }
                    _ => {
                        let a = if order < 2 { at } else { r.range(-3, width * 2 + 3) };
                        let (x, y) = (key(r, a), key(r, a + r.clone().range(0, 2)));
                        Iv { lo: x.min(y), hi: x.max(y), tag: 7 }
                    }
                };
                run.query(q)?;
            }
        }
    }
    // Drain, in a random order, half of the time completely.
    if r.chance(50) {
        let mut rest = run.list.clone();
        r.shuffle(&mut rest);
        let probe: Vec<Iv<B>> = rest.clone();
        for (k, x) in rest.into_iter().enumerate() {
            run.delete(x)?;
            if k % (1 + n / 50) == 0 {
                let q = *r.pick(&probe);
                run.query(q)?;
                run.query(Iv { lo: q.lo, hi: q.lo, tag: 0 })?;
            }
        }
        run.delete(probe.first().copied().unwrap_or(Iv { lo: key(r, 0), hi: key(r, 0), tag: 0 }))?;
        let q = Iv { lo: key(r, 0), hi: key(r, 0), tag: 0 };
        run.query(q)?;
    } else if let (Some(lo), Some(hi)) = (run.list.iter().map(|x| x.lo).min(), run.list.iter().map(|x| x.hi).max()) {
        run.query(Iv { lo, hi, tag: 0 })?;
    }
    run.c.max("max_stored", run.list.len() as u64);
    let nt = run.deleted && run.overlapped;
    let log = if run.c.idx < 4 { Some(run.log.clone()) } else { None };
    run.c.nontrivial = nt;
    run.c.sample = log;
    Ok(())
}

/// Several trees in turn.
fn grove(c: &mut Case, r: &mut Rng) -> R {
    let n = 2 + r.below(4);
    let mut trees: Vec<(IntervalSearchTree<Iv<i64>>, Vec<Iv<i64>>)> = (0..n).map(|_| Default::default()).collect();
    let width = *r.pick(&[6i64, 30, 400]);
    let mut log = vec![];
    for tag in 0..40 + r.below(120) as u32 {
        let k = r.below(n);
        let (t, list) = &mut trees[k];
        let lo = r.range(0, width);
        let iv = Iv { lo, hi: lo + r.range(0, width / 3), tag };
        match r.below(10) {
            0..=5 => {
                log.push(format!("tree {k}: insert {iv:?}"));
                t.insert(iv);
                list.push(iv);
            }
            6 | 7 if !list.is_empty() => {
                let x = list.swap_remove(r.below(list.len()));
                log.push(format!("tree {k}: delete {x:?}"));
                t.delete(&x);
            }
            8 => {
                // One interval of another tree, which this one does not hold.
                let j = (k + 1) % n;
                if let Some(x) = trees[j].1.last().copied() {
                    log.push(format!("tree {k}: delete {x:?} of tree {j}"));
                    trees[k].0.delete(&x);
                }
            }
            9 if r.chance(20) => {
                log.push(format!("tree {k} anew"));
                trees[k] = Default::default();
            }
            _ => {}
        }
        let q = Iv { lo, hi: lo + r.range(0, 3), tag: 0 };
        for (k, (t, list)) in trees.iter().enumerate() {
            let mut got = vec![];
            t.for_each_intersection(&q, |x| got.push(x.tag));
            let mut want: Vec<u32> = list.iter().filter(|x| x.lo <= q.hi && q.lo <= x.hi).map(|x| x.tag).collect();
            got.sort();
            want.sort();
            if got != want || t.intersects(&q) == want.is_empty() {
                return Err(Violation::new(format!("of {n} trees, number {k} gives {got:?} for [{}, {}] instead of {want:?}", q.lo, q.hi), log.join("\n")));
            }
            c.count("queries_over_several_trees", 1);
        }
        c.mixh(lo as u64 * 16 + k as u64);
    }
    c.nontrivial = true;
    Ok(())
}

pub fn c16(c: &mut Case) -> R {
    let mut r = c.rng();
    if c.idx % 16 == 5 {
        return grove(c, &mut r);
    }
    match r.below(8) {
        0 => history::<Fuzzy>(c, &mut r, &|r, k| Fuzzy(k as i32, r.below(3) as u8)),
        1 => {
            c.count("date_histories", 1);
            history::<BigEndianDate<3, i64>>(c, &mut r, &|_, k| BigEndianDate::fixture([k.div_euclid(9), k.div_euclid(3).rem_euclid(3), k.rem_euclid(3)]))
        }
        2 => {
            c.count("date_histories", 1);
            history::<LittleEndianDate<2, i64>>(c, &mut r, &|_, k| LittleEndianDate::fixture([k.rem_euclid(4), k.div_euclid(4)]))
        }
        3 => history::<char>(c, &mut r, &|_, k| char::from_u32((k.rem_euclid(50_000)) as u32).unwrap_or('x')),
        4 => history::<i64>(c, &mut r, &|_, k| match k.rem_euclid(40) {
            0 => i64::MIN,
            39 => i64::MAX,
            _ => k,
        }),
        _ => history::<i64>(c, &mut r, &|_, k| k),
    }
}
