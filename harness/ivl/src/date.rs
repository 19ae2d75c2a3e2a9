//! C17: dates against lexicographic comparison of component lists.

use std::cmp::Ordering;
use std::fmt::Debug;

use plotline_plugin_interval::date::{BigEndianDate, Date, LittleEndianDate};
use plotline_plugin_interval::Interval;
use vcommon::{mix, Case, Rng, Violation};

type R = Result<(), Violation>;

/// Compares from the most significant component to the least.
fn model<T: Ord>(a: &[T], b: &[T], big: bool) -> Ordering {
    let n = a.len();
    for k in 0..n {
        let i = if big { k } else { n - 1 - k };
        if a[i] < b[i] {
            return Ordering::Less;
        }
        if a[i] > b[i] {
            return Ordering::Greater;
        }
    }
    Ordering::Equal
}

fn check<const N: usize, T, E>(c: &mut Case, xs: &[[T; N]], big: bool) -> R
where
    T: Ord + Clone + Debug,
    Date<N, T, E>: Ord + Clone + Debug,
{
    let ds: Vec<Date<N, T, E>> = xs.iter().map(|x| Date::fixture(x.clone())).collect();
    let which = if big { "big" } else { "little" };
    for (i, a) in ds.iter().enumerate() {
        for (j, b) in ds.iter().enumerate() {
            let want = model(&xs[i], &xs[j], big);
            let diff = (0..N).filter(|k| xs[i][*k] != xs[j][*k]).count();
            c.count("pairs", 1);
            c.count("equal_pairs", (diff == 0) as u64);
            c.count("single_component_difference", (diff == 1) as u64);
            let bad = |what: &str, got: String| {
                Err(Violation::new(
                    format!("{which}-endian {what} of {:?} and {:?} is {got}, expected {want:?}", xs[i], xs[j]),
                    format!("{which}-endian dates of {N} components of {}\n{:?}\n{:?}", std::any::type_name::<T>(), xs[i], xs[j]),
                ))
            };
            if a.cmp(b) != want {
                return bad("cmp", format!("{:?}", a.cmp(b)));
            }
            if a.partial_cmp(b) != Some(want) {
                return bad("partial_cmp", format!("{:?}", a.partial_cmp(b)));
            }
            if (a == b) != want.is_eq() || (a != b) == want.is_eq() {
                return bad("equality", format!("{}", a == b));
            }
            if (a < b, a <= b, a > b, a >= b) != (want.is_lt(), want.is_le(), want.is_gt(), want.is_ge()) {
                return bad("operators", format!("{:?}", (a < b, a <= b, a > b, a >= b)));
            }
            let (lo, hi) = if want.is_le() { (a, b) } else { (b, a) };
            if a.clone().min(b.clone()) != *lo || a.clone().max(b.clone()) != *hi {
                return bad("min/max", "wrong".into());
            }
        }
    }
    let mut sorted = ds.clone();
    sorted.sort();
    let mut want: Vec<[T; N]> = xs.to_vec();
    want.sort_by(|a, b| model(a, b, big));
    for (s, w) in sorted.iter().zip(&want) {
        if *s != Date::fixture(w.clone()) {
            return Err(Violation::new(format!("sorting {which}-endian dates gives another order"), format!("{xs:?}")));
        }
    }
    Ok(())
}

fn points<const N: usize, T, E>(c: &mut Case, xs: &[[T; N]]) -> R
where
    T: Ord + Copy + Debug,
    Date<N, T, E>: Ord + Copy + Debug + Interval<Bound = Date<N, T, E>>,
{
    for x in xs {
        let d: Date<N, T, E> = Date::fixture(*x);
        c.count("interval_points", 1);
        if d.lo() != d || d.hi() != d || !d.lo().cmp(&d.hi()).is_eq() {
            return Err(Violation::new(format!("date {x:?} as an interval is {:?}..{:?}", d.lo(), d.hi()), format!("{x:?}")));
        }
    }
    Ok(())
}

fn batch<const N: usize, T: Clone>(r: &mut Rng, small: bool, mut g: impl FnMut(&mut Rng, bool) -> T) -> Vec<[T; N]> {
    let mut v: Vec<[T; N]> = vec![];
    for _ in 0..2 + r.below(6) {
        let x = if v.is_empty() || r.chance(40) {
            std::array::from_fn(|_| g(r, small))
        } else {
            // Close to another one: equal, or different in one or two places.
            let mut y = r.pick(&v).clone();
            if N > 0 {
                for _ in 0..r.below(3) {
                    y[r.below(N)] = g(r, small);
                }
                if r.chance(15) {
                    let (i, j) = (r.below(N), r.below(N));
                    y.swap(i, j);
                }
            }
            y
        };
        v.push(x);
    }
    v
}

fn both<const N: usize, T: Ord + Clone + Debug>(c: &mut Case, xs: &[[T; N]]) -> R
where
    BigEndianDate<N, T>: Clone,
    LittleEndianDate<N, T>: Clone,
{
    for b in format!("{N}{xs:?}").bytes() {
        c.hash = mix(c.hash ^ b as u64);
    }
    if c.idx < 6 {
        c.sample = Some(format!("{N} components of {}: {xs:?}", std::any::type_name::<T>()));
    }
    check::<N, T, plotline_plugin_interval::date::BigEndian>(c, xs, true)?;
    check::<N, T, plotline_plugin_interval::date::LittleEndian>(c, xs, false)
}

fn widths<const N: usize>(c: &mut Case, r: &mut Rng) -> R {
    use plotline_plugin_interval::date::{BigEndian, LittleEndian};
    let small = r.chance(60);
    match r.below(6) {
        0 => {
            let v = batch::<N, u8>(r, small, |r, s| if s { r.below(3) as u8 } else { r.u64() as u8 });
            both(c, &v)?;
            points::<N, u8, BigEndian>(c, &v)?;
            points::<N, u8, LittleEndian>(c, &v)
        }
        1 | 2 => {
            let v = batch::<N, i64>(r, small, |r, s| match r.below(if s { 1 } else { 3 }) {
                0 => r.range(-2, 2),
                1 => r.u64() as i64,
                _ => *r.pick(&[i64::MIN, i64::MAX, 0, -1]),
            });
            both(c, &v)?;
            points::<N, i64, BigEndian>(c, &v)?;
            points::<N, i64, LittleEndian>(c, &v)
        }
        3 => {
            let v = batch::<N, (i8, u16)>(r, small, |r, _| (r.range(-1, 1) as i8, r.below(3) as u16));
            both(c, &v)?;
            points::<N, (i8, u16), BigEndian>(c, &v)?;
            points::<N, (i8, u16), LittleEndian>(c, &v)
        }
        4 => {
            let v = batch::<N, char>(r, small, |r, _| *r.pick(&['a', 'b', 'Z', 'é', '\u{10FFFF}']));
            both(c, &v)?;
            points::<N, char, BigEndian>(c, &v)?;
            points::<N, char, LittleEndian>(c, &v)
        }
        _ => {
            let v = batch::<N, String>(r, small, |r, _| (*r.pick(&["", "a", "ab", "b", "é"])).to_string());
            both(c, &v)
        }
    }
}

pub fn c17(c: &mut Case) -> R {
    let mut r = c.rng();
    c.nontrivial = true;
    match r.below(9) {
        0 => widths::<0>(c, &mut r),
        1 => widths::<1>(c, &mut r),
        2 => widths::<2>(c, &mut r),
        3 | 4 => widths::<3>(c, &mut r),
        5 => widths::<4>(c, &mut r),
        6 => widths::<5>(c, &mut r),
        7 => widths::<6>(c, &mut r),
        _ => widths::<8>(c, &mut r),
    }
}
