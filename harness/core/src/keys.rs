//! Id types used by the workloads: plain, string, reverse-ordered, equal-but-not-identical.

use std::cmp::Ordering;
use std::fmt::Debug;

pub trait Key: Ord + Clone + Debug + 'static {
    const NAME: &'static str;
    /// The key of the i-th id of the universe; `variant` picks one of several equal spellings.
    fn make(i: usize, variant: u64) -> Self;
    fn index(&self) -> usize;
}

impl Key for u32 {
    const NAME: &'static str = "u32";
    fn make(i: usize, _: u64) -> Self {
        i as u32
    }
    fn index(&self) -> usize {
        *self as usize
    }
}

impl Key for String {
    const NAME: &'static str = "string";
    fn make(i: usize, _: u64) -> Self {
        // "0", "1", "10", "11", ..: names that extend one another.
        format!("{i}")
    }
    fn index(&self) -> usize {
        self.parse().unwrap()
    }
}

/// Ordered in reverse.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Rev(pub u64);
impl PartialOrd for Rev {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Rev {
    fn cmp(&self, o: &Self) -> Ordering {
        o.0.cmp(&self.0)
    }
}
impl Key for Rev {
    const NAME: &'static str = "reverse";
    fn make(i: usize, _: u64) -> Self {
        Rev(i as u64)
    }
    fn index(&self) -> usize {
        self.0 as usize
    }
}

/// Case-insensitive text: equal ids need not be identical.
#[derive(Clone, Debug)]
pub struct Ci(pub String);
impl PartialEq for Ci {
    fn eq(&self, o: &Self) -> bool {
        self.0.eq_ignore_ascii_case(&o.0)
    }
}
impl Eq for Ci {}
impl PartialOrd for Ci {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Ci {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.to_ascii_lowercase().cmp(&o.0.to_ascii_lowercase())
    }
}
impl Key for Ci {
    const NAME: &'static str = "case-insensitive";
    fn make(i: usize, variant: u64) -> Self {
        let base = format!("n{:x}z", i);
        Ci(base
            .chars()
            .enumerate()
            .map(|(p, c)| if (variant >> (p % 60)) & 1 == 1 { c.to_ascii_uppercase() } else { c })
            .collect())
    }
    fn index(&self) -> usize {
        let l = self.0.to_ascii_lowercase();
        usize::from_str_radix(&l[1..l.len() - 1], 16).unwrap()
    }
}
