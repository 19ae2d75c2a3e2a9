//! The online monitor: an executable model of the schema (overlay maps, trigger phase automata,
//! target cells, resource registers) that runs in lock step with the real code. It is independent
//! of the implementation's representation (it keeps maps, not operation logs).

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Write;

use vcommon::mix;

pub const C01: u32 = 1 << 1;
pub const C02: u32 = 1 << 2;
pub const C03: u32 = 1 << 3;
pub const C04: u32 = 1 << 4;
pub const C05: u32 = 1 << 5;
pub const C06: u32 = 1 << 6;
pub const C07: u32 = 1 << 7;
pub const C08: u32 = 1 << 8;
pub const C09: u32 = 1 << 9;
pub const C11: u32 = 1 << 11;
pub const C19: u32 = 1 << 19;
pub const ALL: u32 = !0;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Val {
    pub uid: u64,
    pub rev: u64,
}

#[derive(Default)]
pub struct Level {
    pub parent: Option<usize>,
    pub ov: BTreeMap<usize, Option<Val>>,
    pub cell: Option<usize>,
    /// Categories of activity seen in this level, for attribution.
    pub had: u32,
    pub depth: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Save,
    Del,
    Fire,
}

pub struct Frame {
    pub kind: Kind,
    pub lvl: usize,
    pub cell: Option<usize>,
    pub key: usize,
    pub before: Vec<usize>,
    pub after: Vec<usize>,
    pub pos: usize,
    pub phase: u8,
    pub failed: Option<String>,
    pub ran: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FaultKind {
    Err,
    Panic,
}

pub struct Cell {
    pub key: usize,
    pub val: Val,
    pub poisoned: bool,
}

pub struct Mon {
    pub universe: usize,
    pub base: BTreeMap<usize, Val>,
    pub levels: Vec<Level>,
    pub frames: Vec<Frame>,
    pub cells: Vec<Cell>,
    pub regs: [Option<u64>; 2],
    pub events: Vec<Vec<usize>>, // triggers by event, in registration order
    pub next_uid: u64,
    pub case_seed: u64,
    pub budget: i64,
    pub mismatch: Option<(u32, String)>,
    pub hash: u64,
    pub verbose: bool,
    pub log: Vec<String>,
    pub counters: BTreeMap<&'static str, u64>,
    /// Fault injection: armed point, points passed so far.
    pub faults_on: bool,
    pub fault_at: Option<(u64, FaultKind)>,
    pub fault_count: u64,
    pub fault_fired: bool,
    pub after_failure: bool,
    pub probes: u64,
    pub expected_probes: u64,
    pub invocations: BTreeMap<usize, u64>,
    pub actions: ActionWeights,
    pub focus: u32,
    /// Mismatches of other properties.
    pub foreign: u64,
}

#[derive(Clone, Copy, Debug)]
pub struct ActionWeights {
    /// none, view, subsave, subdel, failed sub, nested save, nested delete, rewrite target,
    /// rewrite target id, resource write, error, panic, poison target, nested fire
    pub w: [u32; 14],
    pub max_actions: usize,
    pub max_frames: usize,
}

impl Default for ActionWeights {
    fn default() -> Self {
        ActionWeights { w: [4, 3, 2, 2, 1, 1, 1, 2, 1, 1, 1, 0, 0, 0], max_actions: 3, max_frames: 3 }
    }
}

impl Mon {
    pub fn new(universe: usize, seed: u64) -> Self {
        Mon {
            universe,
            base: BTreeMap::new(),
            levels: vec![],
            frames: vec![],
            cells: vec![],
            regs: [None, None],
            events: vec![vec![]; 8],
            next_uid: 1,
            case_seed: seed,
            budget: 300,
            mismatch: None,
            hash: 0,
            verbose: false,
            log: vec![],
            counters: BTreeMap::new(),
            faults_on: false,
            fault_at: None,
            fault_count: 0,
            fault_fired: false,
            after_failure: false,
            probes: 0,
            expected_probes: 0,
            invocations: BTreeMap::new(),
            actions: ActionWeights::default(),
            focus: ALL,
            foreign: 0,
        }
    }
    pub fn uid(&mut self) -> u64 {
        self.next_uid += 1;
        self.next_uid
    }
    pub fn count(&mut self, k: &'static str) {
        *self.counters.entry(k).or_insert(0) += 1;
    }
    pub fn dead(&self) -> bool {
        self.mismatch.is_some()
    }
    pub fn fail(&mut self, cats: u32, msg: impl Into<String>) {
        if self.mismatch.is_none() {
            let cats = if self.after_failure { cats | C04 } else { cats };
            let msg = msg.into();
            if self.verbose {
                self.log.push(format!("!! MISMATCH: {msg}"));
            }
            // What another property forbids may lead on to what this one forbids.
            if cats & self.focus == 0 && self.foreign < 300 {
                self.foreign += 1;
                return;
            }
            self.mismatch = Some((cats, msg));
        }
    }
    pub fn ev(&mut self, tag: u64, a: u64, b: u64) {
        self.hash = mix(self.hash ^ mix(tag) ^ a.wrapping_mul(0x9E37) ^ b.rotate_left(32)).rotate_left(5);
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose && self.log.len() < 4000 {
            let d = self.frames.len();
            let mut s = String::new();
            let _ = write!(s, "{}{}", "  ".repeat(d), f());
            self.log.push(s);
        }
    }

    // ---- levels
    pub fn level(&mut self, parent: Option<usize>) -> usize {
        let depth = parent.map(|p| self.levels[p].depth + 1).unwrap_or(0);
        let d = depth as u64;
        let e = self.counters.entry("max_depth").or_insert(0);
        *e = (*e).max(d);
        let had = if depth > 0 { C03 } else { 0 };
        self.levels.push(Level { parent, had, depth, ..Default::default() });
        self.levels.len() - 1
    }
    pub fn get(&self, lvl: Option<usize>, k: usize) -> Option<Val> {
        let mut l = lvl;
        while let Some(i) = l {
            if let Some(v) = self.levels[i].ov.get(&k) {
                return *v;
            }
            l = self.levels[i].parent;
        }
        self.base.get(&k).copied()
    }
    pub fn set(&mut self, lvl: usize, k: usize, v: Option<Val>) {
        self.levels[lvl].ov.insert(k, v);
    }
    pub fn mark(&mut self, lvl: Option<usize>, cats: u32) {
        let mut l = lvl;
        while let Some(i) = l {
            self.levels[i].had |= cats;
            l = self.levels[i].parent;
        }
    }
    pub fn merge(&mut self, lvl: usize) {
        let ov = std::mem::take(&mut self.levels[lvl].ov);
        match self.levels[lvl].parent {
            Some(p) => self.levels[p].ov.extend(ov),
            None => {
                for (k, v) in ov {
                    match v {
                        Some(v) => {
                            self.base.insert(k, v);
                        }
                        None => {
                            self.base.remove(&k);
                        }
                    }
                }
            }
        }
    }

    // ---- faults
    /// Passes a fault point; returns the fault to inject here, if it is the armed one.
    pub fn fault_point(&mut self) -> Option<FaultKind> {
        if !self.faults_on || self.dead() {
            return None;
        }
        self.fault_count += 1;
        match self.fault_at {
            Some((n, k)) if n == self.fault_count && !self.fault_fired => {
                self.fault_fired = true;
                self.count("faults_injected");
                self.note(|| format!("** inject {k:?} at fault point {n}"));
                Some(k)
            }
            _ => None,
        }
    }

    // ---- operation frames
    pub fn op_cat(kind: Kind) -> u32 {
        match kind {
            Kind::Save => C05,
            Kind::Del => C06,
            Kind::Fire => 0,
        }
    }
    fn apply_op(&mut self, fi: usize) {
        let (kind, lvl, cell, key) = {
            let f = &self.frames[fi];
            (f.kind, f.lvl, f.cell, f.key)
        };
        match kind {
            Kind::Save => {
                let c = &self.cells[cell.unwrap()];
                let (k, v) = (c.key, c.val);
                self.set(lvl, k, Some(v));
                self.frames[fi].key = k;
            }
            Kind::Del => self.set(lvl, key, None),
            Kind::Fire => {}
        }
        self.frames[fi].phase = 1;
        self.frames[fi].pos = 0;
    }
    /// A trigger starts; returns false if that is a mismatch.
    pub fn enter_trigger(&mut self, tidx: usize) -> bool {
        let Some(fi) = self.frames.len().checked_sub(1) else {
            self.fail(C07, format!("trigger #{tidx} ran although no event was fired"));
            return false;
        };
        let f = &mut self.frames[fi];
        let cats = Self::op_cat(f.kind) | C07;
        if let Some(e) = f.failed.clone() {
            self.fail(cats, format!("trigger #{tidx} ran after an earlier trigger of the event failed with {e}"));
            return false;
        }
        if f.phase == 0 && f.pos < f.before.len() {
            if f.before[f.pos] == tidx {
                f.pos += 1;
                f.ran += 1;
                return true;
            }
            let want = f.before[f.pos];
            let k = f.kind;
            self.fail(cats, format!("{k:?}: trigger #{tidx} ran where #{want} was next"));
            return false;
        }
        if f.phase == 0 && !f.after.is_empty() {
            self.apply_op(fi);
        }
        let f = &mut self.frames[fi];
        if f.phase == 1 && f.pos < f.after.len() && f.after[f.pos] == tidx {
            f.pos += 1;
            f.ran += 1;
            return true;
        }
        let (k, want) = (f.kind, f.after.get(f.pos).copied());
        self.fail(cats, format!("{k:?}: trigger #{tidx} ran where {want:?} was next"));
        false
    }
    /// The operation reported success: everything must have run; the change becomes effective.
    pub fn op_succeeded(&mut self) {
        let fi = self.frames.len() - 1;
        let f = &self.frames[fi];
        let cats = Self::op_cat(f.kind) | C07;
        let kind = f.kind;
        if let Some(e) = f.failed.clone() {
            self.fail(cats, format!("{kind:?} reported success although a trigger failed with {e}"));
            return;
        }
        if f.phase == 0 {
            if f.pos < f.before.len() {
                let t = f.before[f.pos];
                self.fail(cats, format!("{kind:?} reported success but its trigger #{t} did not run"));
                return;
            }
            if !f.after.is_empty() {
                let t = f.after[0];
                self.fail(cats, format!("{kind:?} reported success but its after-trigger #{t} did not run"));
                return;
            }
            self.apply_op(fi);
        } else if f.pos < f.after.len() {
            let t = f.after[f.pos];
            self.fail(cats, format!("{kind:?} reported success but its after-trigger #{t} did not run"));
        }
    }
}

thread_local! {
    static MON: RefCell<Option<Mon>> = const { RefCell::new(None) };
}

pub fn install(m: Mon) {
    MON.with(|c| *c.borrow_mut() = Some(m));
}
pub fn take() -> Mon {
    MON.with(|c| c.borrow_mut().take().expect("monitor"))
}
pub fn mon<R>(f: impl FnOnce(&mut Mon) -> R) -> R {
    MON.with(|c| f(c.borrow_mut().as_mut().expect("monitor")))
}
pub fn try_mon<R>(f: impl FnOnce(&mut Mon) -> R) -> Option<R> {
    MON.with(|c| c.try_borrow_mut().ok().and_then(|mut b| b.as_mut().map(f)))
}
pub fn dead() -> bool {
    mon(|m| m.dead())
}
