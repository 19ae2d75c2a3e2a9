//! C08: targets of contexts, as plain programs use them: given once or several times, kept, copied
//! and set from outside while the contexts they came from go on, against a model of cells.

use std::panic::{catch_unwind, AssertUnwindSafe};

use plotline::deref::{ReadOnly, ReadWrite, TryDeref, TryDerefMut, With, WithMut};
use plotline::graph::Graph;
use plotline::id::Identify;
use plotline::prelude::Transaction;
use plotline::schema::transaction::{Context, Target};
use plotline::schema::{Error, Result as SchemaResult, Schema};
use vcommon::{Case, Rng, Violation};

#[derive(Clone, Debug, PartialEq)]
pub struct N {
    id: u8,
    v: u64,
}
impl Identify for N {
    type Id = u8;
    fn id(&self) -> &u8 {
        &self.id
    }
}

/// What a cell holds; poisoned cells may be inaccessible.
struct Cell {
    v: N,
    poisoned: bool,
}

struct World<'c> {
    c: &'c mut Case,
    r: Rng,
    next: u64,
    cells: Vec<Cell>,
    /// Kept handles and the cells they stand for.
    kept: Vec<(Target<N>, Option<usize>)>,
    left: usize,
    log: Vec<String>,
    bad: Option<String>,
}

impl World<'_> {
    fn fresh(&mut self) -> N {
        self.next += 1;
        N { id: self.r.below(4) as u8, v: self.next }
    }
    fn cell(&mut self, v: &N) -> usize {
        self.cells.push(Cell { v: v.clone(), poisoned: false });
        self.cells.len() - 1
    }
    fn fail(&mut self, m: String) {
        if self.bad.is_none() {
            self.bad = Some(m);
        }
    }
    fn look(&mut self, who: &str, t: &Target<N>, cell: Option<usize>) {
        self.c.count("target_cells_read", 1);
        let got = if self.r.chance(50) { t.with(N::clone) } else { t.read().try_deref().cloned() };
        let want = cell.map(|i| self.cells[i].v.clone());
        if got != want && !(got.is_none() && cell.is_some_and(|i| self.cells[i].poisoned)) {
            self.fail(format!("{who} gives {got:?}, its cell holds {want:?}"));
        }
    }
    fn check(&mut self, open: &[(&Context<'_, N>, Option<usize>)]) {
        for (i, (ctx, cell)) in open.iter().enumerate() {
            self.look(&format!("the target of context {i}"), ctx.target(), *cell);
        }
        let kept = std::mem::take(&mut self.kept);
        for (i, (t, cell)) in kept.iter().enumerate() {
            self.look(&format!("kept target {i}"), t, *cell);
        }
        self.kept = kept;
    }
    fn rewrite(&mut self, t: &Target<N>, cell: Option<usize>) {
        let n = self.fresh();
        let panics = self.r.chance(4);
        let guard = self.r.chance(40);
        let done = catch_unwind(AssertUnwindSafe(|| {
            if guard {
                let mut g = t.write();
                let x = g.try_deref_mut().map(|x| *x = n.clone());
                assert!(!panics || x.is_none());
                x
            } else {
                t.with_mut(|x| {
                    *x = n.clone();
                    assert!(!panics);
                })
            }
        }));
        self.c.count("target_cells_written", 1);
        match (cell, done) {
            (None, Ok(None)) => {}
            (None, d) => self.fail(format!("a target that has none is written: {d:?}")),
            (Some(i), Ok(Some(()))) => self.cells[i].v = n,
            (Some(i), Ok(None)) if self.cells[i].poisoned => {}
            (Some(_), Ok(None)) => self.fail("a target is not accessible for writing".into()),
            (Some(i), Err(_)) => {
                self.cells[i].v = n;
                self.cells[i].poisoned = true;
                self.c.count("target_cells_poisoned", 1);
            }
        }
    }
}

/// Goes on with a context that it owns; `open`: those around it, innermost last.
fn go(w: &mut World<'_>, ctx: Context<'_, N>, cell: Option<usize>, open: &[(&Context<'_, N>, Option<usize>)]) -> SchemaResult<()> {
    let (mut ctx, mut cell) = (ctx, cell);
    for _ in 0..2 + w.r.below(6) {
        if w.left == 0 || w.bad.is_some() {
            break;
        }
        w.left -= 1;
        match w.r.below(11) {
            0..=2 => {
                let n = w.fresh();
                w.log.push(format!("{}: target {n:?} given", open.len()));
                w.c.count(if cell.is_some() { "targets_given_again" } else { "targets_given" }, 1);
                cell = Some(w.cell(&n));
                ctx = ctx.with_target(n);
            }
            3 => {
                let t = if w.r.chance(50) { ctx.target().clone() } else { Target::from(&ctx) };
                w.log.push(format!("{}: target kept as {}", open.len(), w.kept.len()));
                w.c.count("targets_kept", 1);
                w.kept.push((t, cell));
            }
            4 if !w.kept.is_empty() => {
                let i = w.r.below(w.kept.len());
                let n = w.fresh();
                w.log.push(format!("kept {i} set to {n:?}"));
                let new = w.cell(&n);
                w.kept[i].0.set(n);
                w.kept[i].1 = Some(new);
            }
            5 if !w.kept.is_empty() => {
                let i = w.r.below(w.kept.len());
                w.log.push(format!("kept {i} written"));
                let (t, cl) = w.kept.swap_remove(i);
                w.rewrite(&t, cl);
                w.kept.push((t, cl));
            }
            6 => {
                w.log.push(format!("{}: target written", open.len()));
                w.rewrite(ctx.target(), cell);
            }
            7..=9 if open.len() < 4 => {
                w.log.push(format!("{}: subtransaction", open.len()));
                w.c.count("subcontexts", 1);
                let tx = ctx.transaction();
                let around: Vec<_> = open.iter().copied().chain([(&ctx, cell)]).collect();
                let end = w.r.below(3);
                let r = catch_unwind(AssertUnwindSafe(|| {
                    tx.with(|sub| {
                        // A subtransaction starts without a target.
                        go(w, sub, None, &around)?;
                        match end {
                            0 => Err(Error::Noop),
                            1 if w.r.chance(30) => panic!("inside a subtransaction"),
                            _ => Ok(()),
                        }
                    })
                }));
                let _ = r;
            }
            _ => {
                let i = w.r.below(open.len() + 1);
                match open.get(i) {
                    Some((c, cl)) => {
                        w.log.push(format!("{i}: target written from depth {}", open.len()));
                        w.rewrite(c.target(), *cl)
                    }
                    None => w.rewrite(ctx.target(), cell),
                }
            }
        }
        let all: Vec<_> = open.iter().copied().chain([(&ctx, cell)]).collect();
        w.check(&all);
    }
    Ok(())
}

pub fn c08(c: &mut Case) -> Result<(), Violation> {
    let r = c.rng();
    let mut w = World { c, r, next: 0, cells: vec![], kept: vec![], left: 0, log: vec![], bad: None };
    let schema: Schema<N> = Graph::default().into();
    let mut none = Target::default();
    if w.r.chance(50) {
        let n = w.fresh();
        let cell = w.cell(&n);
        none.set(n);
        w.kept.push((none, Some(cell)));
    } else {
        w.kept.push((none, None));
    }
    for _ in 0..1 + w.r.below(3) {
        w.left = 30;
        let _ = schema.transaction().with(|ctx| go(&mut w, ctx, None, &[]));
        // Kept targets outlive the transaction.
        w.check(&[]);
    }
    let (bad, log, next) = (w.bad, w.log, w.next);
    c.nontrivial = next > 1;
    for l in &log {
        for b in l.bytes() {
            c.mixh(b as u64);
        }
    }
    match bad {
        Some(m) => Err(Violation::new(m, log.join("\n"))),
        None => Ok(()),
    }
}
