//! Programs over the typed writers: each call of a typed method is recorded as the entry the documentation of that
//! method promises, and the object must read back with exactly those entries.
//!
//! What a program does is drawn from its own list of words, so that a plan replays identically wherever it is
//! executed (other layout, other chunk, other schedule); scheduling points and faults go through the simulation.

#[macro_use]
mod macros;
mod interaction;
mod pure;
mod resources;
mod structure;

use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

use pdf_writer::{Chunk, Obj as PObj, Ref};

use crate::alloc::lib;
use crate::ctx::{raise, Ctx, Injected, Source};
use crate::model::*;
use crate::plan::{end_writer, side_work, End, Many, PlanCfg, Shadow};

pub use pure::{c20_pure, c21_pure};

/// One program over a typed writer.
#[derive(Clone, Debug)]
pub struct TypedPlan {
    pub kind: usize,
    pub prog: Prog,
}

#[derive(Clone, Debug)]
pub struct Prog {
    pub words: Vec<u16>,
    pub max_ref: i32,
    pub p_panic: u32,
    pub p_guard: u32,
    pub p_leak: u32,
    pub p_yield: u32,
    pub p_iter_panic: u32,
}

pub const GROUP_STRUCTURE: usize = 0;
pub const GROUP_RESOURCES: usize = 1;
pub const GROUP_INTERACTION: usize = 2;

pub fn gen_prog(c: &Ctx, p: &PlanCfg) -> Prog {
    let n = match c.weighted(&[8, 6, 2]) {
        0 => c.range(0, 40),
        1 => c.range(20, 160),
        _ => c.range(100, 700),
    };
    Prog {
        words: (0..n).map(|_| c.draw(65536) as u16).collect(),
        max_ref: p.g.max_ref,
        p_panic: p.p_panic,
        p_guard: p.p_guard,
        p_leak: p.p_leak,
        p_yield: p.p_yield,
        p_iter_panic: p.p_iter_panic,
    }
}

pub fn gen_typed(c: &Ctx, p: &PlanCfg) -> TypedPlan {
    let group = if p.typed_groups.is_empty() { c.draw(3) as usize } else { *c.pick(&p.typed_groups) };
    let (lo, hi) = group_range(group);
    TypedPlan { kind: c.range(lo, hi - 1), prog: gen_prog(c, p) }
}

fn tables() -> [&'static [Root]; 3] {
    [structure::ROOTS, resources::ROOTS, interaction::ROOTS]
}

fn group_range(g: usize) -> (usize, usize) {
    let t = tables();
    let lo: usize = t[..g].iter().map(|x| x.len()).sum();
    (lo, lo + t[g].len())
}

pub type Root = (&'static str, fn(&mut Chunk, Ref, &mut T<'_>));

pub fn root_name(k: usize) -> &'static str {
    tables().iter().flat_map(|t| t.iter()).nth(k).map_or("?", |r| r.0)
}

/// Write the object of a typed plan.
pub fn exec_typed(cx: &Ctx, chunk: &mut Chunk, id: Ref, p: &TypedPlan, sh: &mut Shadow) {
    let root = *tables().iter().flat_map(|t| t.iter()).nth(p.kind).expect("typed kind");
    with_t(cx, &p.prog, sh, |t| (root.1)(chunk, id, t));
}

pub fn with_t(cx: &Ctx, prog: &Prog, sh: &mut Shadow, f: impl FnOnce(&mut T<'_>)) {
    let g = crate::alloc::harness(|| Ctx::new(Source::Scaled(prog.words.clone(), 0), false, 1));
    let mut t = T { cx, g: &g, sh, prog, gen: GenCfg { max_ref: prog.max_ref, wild: true, big: false }, depth: 0 };
    f(&mut t);
}

/// What runs a typed writer: the simulation, the program's choices and the record of what was asked for.
pub struct T<'c> {
    pub cx: &'c Ctx,
    pub g: &'c Ctx,
    pub sh: &'c mut Shadow,
    pub prog: &'c Prog,
    pub gen: GenCfg,
    pub depth: usize,
}

pub const CLAIM: usize = usize::MAX;

/// A writer the simulation knows how to use.
pub trait Drive: Sized {
    const DICT: bool;
    fn steps(&mut self, t: &mut T<'_>);
    /// Use the writer up; its value goes to `key` of the enclosing one (or is the item or root there).
    fn run(mut self, t: &mut T<'_>, key: &[u8]) {
        t.sh.open(key, Self::DICT);
        self.steps(t);
        t.end(self);
        t.sh.close();
    }
}

const CUSTOM: &[&[u8]] = &[b"Custom", b"", b"A B", b"#", b"X/Y", b"Layout", b"\xff(", b"a"];

impl<'c> T<'c> {
    pub fn put(&mut self, key: &[u8], v: V) {
        if self.sh.depth() == 0 {
            self.sh.set_root(v);
        } else {
            self.sh.add(key, v);
        }
    }
    pub fn puts(&mut self, key: &str, v: V) {
        self.put(key.as_bytes(), v)
    }
    /// Has the current writer no entry of this key yet?
    pub fn fresh(&self, key: &str) -> bool {
        key.is_empty() || !self.sh.has(key.as_bytes())
    }
    pub fn nest<W: Drive>(&mut self, key: &[u8], w: W) {
        self.depth += 1;
        w.run(self, key);
        self.depth -= 1;
    }
    pub fn end<W>(&mut self, w: W) {
        let end = if self.g.chance(self.prog.p_leak, 100) {
            End::Leak
        } else if self.g.draw(2) == 0 {
            End::Drop
        } else {
            End::Finish
        };
        end_writer(self.cx, w, end, self.sh);
    }
    /// A scheduling point and a place where the caller may panic.
    pub fn between(&mut self) {
        if self.g.chance(self.prog.p_yield, 100) {
            side_work(self.cx);
        }
        if self.g.chance(self.prog.p_panic, 200) {
            raise(self.cx, "caller_panic");
        }
    }
    /// How many entries of its own a caller adds at once.
    pub fn extra(&mut self) -> usize {
        if self.g.chance(1, 10) {
            self.g.range(2, 14)
        } else {
            1
        }
    }
    /// Run a drawn choice of `n` steps in a drawn order: each at most once, or as often as it is drawn.
    pub fn drive(&mut self, n: usize, repeat: bool, go: &mut dyn FnMut(&mut T<'_>, usize)) {
        let cnt = match self.g.weighted(&[8, 4, 1]) {
            _ if self.depth > 7 => 0,
            0 => self.g.range(0, n.min(4)),
            1 => self.g.range(0, n),
            _ => n,
        };
        let repeat = repeat && (self.g.draw(2) == 1);
        let cnt = if repeat && cnt > 0 { cnt + self.g.range(0, 4) } else { cnt };
        let mut left: Vec<usize> = crate::alloc::harness(|| (0..n).collect());
        for _ in 0..cnt {
            let i = if repeat { self.g.draw(n as u32) as usize } else { left.remove(self.g.draw(left.len() as u32) as usize) };
            self.between();
            if self.g.chance(self.prog.p_guard, 100) {
                let d = self.sh.depth();
                let depth = self.depth;
                let after = self.g.chance(1, 4);
                let r = catch_unwind(AssertUnwindSafe(|| {
                    go(self, i);
                    if after {
                        raise(self.cx, "caller_panic");
                    }
                }));
                if let Err(p) = r {
                    if !p.is::<Injected>() {
                        resume_unwind(p);
                    }
                    self.sh.truncate(d);
                    self.depth = depth;
                    self.cx.probe("caught_and_continued");
                }
                go(self, CLAIM);
            } else {
                go(self, i);
            }
        }
        go(self, CLAIM);
        self.cx.probe("typed_writer");
    }
    /// How many children or items to make.
    pub fn count(&mut self) -> usize {
        match self.g.weighted(&[240, 60, 6, 1]) {
            0 => self.g.range(0, 2),
            1 => self.g.range(0, 6),
            2 => self.g.range(7, 40),
            _ => self.g.range(90, 300),
        }
    }

    // Values.
    pub fn r(&mut self) -> i32 {
        gen_ref(self.g, &self.gen)
    }
    pub fn int(&mut self) -> i32 {
        gen_int(self.g)
    }
    pub fn nat(&mut self) -> i32 {
        gen_int(self.g) & i32::MAX
    }
    pub fn real(&mut self) -> f32 {
        gen_real(self.g)
    }
    pub fn reals<const N: usize>(&mut self) -> [f32; N] {
        gen_reals(self.g)
    }
    pub fn bool(&mut self) -> bool {
        self.g.draw(2) == 1
    }
    pub fn opt<R>(&mut self, f: impl FnOnce(&mut Self) -> R) -> Option<R> {
        if self.bool() {
            Some(f(self))
        } else {
            None
        }
    }
    pub fn name(&mut self) -> Vec<u8> {
        gen_name(self.g)
    }
    pub fn str(&mut self) -> Vec<u8> {
        gen_bytes(self.g, false)
    }
    pub fn text(&mut self) -> String {
        gen_text(self.g)
    }
    /// Text with or without language tags.
    pub fn tlike(&mut self) -> Prim {
        let k = if self.g.draw(3) == 2 { 10 } else { 6 };
        gen_prim_kind(self.g, &self.gen, k)
    }
    pub fn prim(&mut self) -> Prim {
        gen_prim(self.g, &self.gen)
    }
    pub fn custom(&mut self) -> &'static [u8] {
        self.g.pick(CUSTOM)
    }
    /// A key no typed method of any writer uses.
    pub fn own_key(&mut self) -> Vec<u8> {
        let mut k = b"zz".to_vec();
        k.extend(gen_name(self.g));
        while self.sh.has(&k) {
            k.push(b'z');
        }
        k
    }
    /// A name the current dictionary does not hold yet.
    pub fn new_key(&mut self) -> Vec<u8> {
        let mut k = gen_name(self.g);
        while self.sh.has(&k) {
            k.push(b'z');
        }
        k
    }
    /// Values for one call that takes an iterator.
    pub fn many(&mut self, kind: usize) -> Many {
        let g = self.g;
        let n = match g.weighted(&[120, 40, 10, 4]) {
            0 => g.range(0, 3),
            1 => g.range(0, 9),
            2 => g.range(90, 140),
            _ => *g.pick(&[255, 256, 257, 300, 513]),
        };
        let mut vals: Vec<Prim> = if n > 50 {
            let some: Vec<Prim> = (0..*g.pick(&[1, 2, 3, 7, 11])).map(|_| gen_prim_kind(g, &self.gen, kind)).collect();
            some.iter().cycle().take(n).cloned().collect()
        } else {
            (0..n).map(|_| gen_prim_kind(g, &self.gen, kind)).collect()
        };
        shape_list(g, &mut vals);
        self.many_of(vals)
    }
    pub fn many_of(&mut self, vals: Vec<Prim>) -> Many {
        let g = self.g;
        let n = vals.len();
        let mut keys: Vec<Vec<u8>> = vec![];
        let base = gen_name(g);
        for i in 0..n {
            let mut k = if i == 0 { base.clone() } else { base.iter().copied().chain(format!("{i}").into_bytes()).collect() };
            while self.sh.depth() > 0 && self.sh.has(&k) {
                k.push(b'z');
            }
            keys.push(k);
        }
        let panic_at = if g.chance(self.prog.p_iter_panic, 100) { Some(g.range(0, n)) } else { None };
        Many { keys, vals, panic_at, yields: g.chance(self.prog.p_yield, 100), hint: g.draw(3) as u8, reenter: None }
    }
}

pub fn reals_v(xs: &[f32]) -> V {
    arr(xs.iter().map(|x| V::Real(*x)))
}
pub fn dict_v(xs: Vec<(&str, V)>) -> V {
    V::Dict(xs.into_iter().map(|(k, v)| E::pair(k.as_bytes(), v)).collect())
}

/// An expected value of an enumeration's table.
pub trait Ev {
    fn ev(self) -> V;
}
impl Ev for &str {
    fn ev(self) -> V {
        nm(self)
    }
}
impl Ev for i32 {
    fn ev(self) -> V {
        V::Int(self)
    }
}
impl Ev for V {
    fn ev(self) -> V {
        self
    }
}

/// Start any writer on a fresh indirect object.
pub fn start<'a>(chunk: &'a mut Chunk, id: Ref) -> PObj<'a> {
    lib(|| chunk.indirect(id))
}
