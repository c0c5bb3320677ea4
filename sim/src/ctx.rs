//! The simulation context: the single choice stream, the baton scheduler, virtual time,
//! fault and probe counters and the event trace.

use std::any::Any;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Condvar, Mutex, MutexGuard};

use crate::model::{DateP, Prim};
use crate::alloc::{self, Oom};

pub const MAX_ACTORS: usize = 8;
const MAX_DRAWS: usize = 400_000;

/// An injected panic raised by caller code (never by the library).
pub struct Injected(pub &'static str);

/// A property violation found by an oracle while unwinding control flow with `?`.
#[derive(Debug, Clone)]
pub struct Viol(pub String);
pub type Res<T = ()> = Result<T, Viol>;

#[macro_export]
macro_rules! viol {
    ($($t:tt)*) => { return Err($crate::ctx::Viol(format!($($t)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::ctx::Viol(format!($($t)*))) } };
}

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.rotate_left(17) ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next()
}

pub enum Source {
    Random(Rng),
    Replay(Vec<u32>, usize),
    /// Choices scaled from a fixed list of words; zero once they are used up.
    Scaled(Vec<u16>, usize),
}

#[derive(Clone, Copy, PartialEq)]
enum Act {
    Ready,
    Waiting(u64),
    Done,
}

pub struct Inner {
    src: Source,
    pub rec: Vec<u32>,
    cur: usize,
    acts: Vec<Act>,
    pub time: u64,
    switch: u32,
    pub switches: u64,
    pub yields: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub trace: Vec<String>,
    pub sched_hash: u64,
    pub full_hash: u64,
    pub fail: Option<String>,
    pub objects: u64,
    pub digest: u64,
    pub recent: Recent,
}

/// The values generated last, for values that repeat each other.
#[derive(Default)]
pub struct Recent {
    reals: Vec<f32>,
    ints: Vec<i32>,
    shorts: Vec<u16>,
    refs: Vec<i32>,
    names: Vec<Vec<u8>>,
    bytes: Vec<Vec<u8>>,
    texts: Vec<String>,
    dates: Vec<DateP>,
    lists: Vec<Vec<Prim>>,
}

/// A kind of value that can be recalled.
pub trait Recall: Clone {
    fn of(r: &mut Recent, slot: Slot) -> &mut Vec<Self>;
}
#[derive(Clone, Copy)]
pub enum Slot {
    Main,
    Other,
}
macro_rules! recall {
    ($($t:ty: $main:ident $other:ident),*) => {$(
        impl Recall for $t {
            fn of(r: &mut Recent, slot: Slot) -> &mut Vec<Self> {
                match slot {
                    Slot::Main => &mut r.$main,
                    Slot::Other => &mut r.$other,
                }
            }
        }
    )*};
}
recall!(f32: reals reals, u16: shorts shorts, i32: ints refs, Vec<u8>: names bytes, String: texts texts, DateP: dates dates, Vec<Prim>: lists lists);

pub struct Ctx {
    inner: Mutex<Inner>,
    cvs: [Condvar; MAX_ACTORS],
    pub tracing: bool,
    /// Work multiplier of the tier (1 quick, more for thorough).
    pub depth: u32,
}

thread_local! {
    static ACTOR: Cell<usize> = const { Cell::new(usize::MAX) };
}

impl Ctx {
    pub fn new(src: Source, tracing: bool, depth: u32) -> Self {
        Ctx {
            inner: Mutex::new(Inner {
                src,
                rec: Vec::new(),
                cur: usize::MAX,
                acts: Vec::new(),
                time: 0,
                switch: 0,
                switches: 0,
                yields: 0,
                faults: BTreeMap::new(),
                probes: BTreeMap::new(),
                trace: Vec::new(),
                sched_hash: 0,
                full_hash: 0,
                fail: None,
                objects: 0,
                digest: 0,
                recent: Recent::default(),
            }),
            cvs: Default::default(),
            tracing,
            depth,
        }
    }

    pub fn lock(&self) -> MutexGuard<'_, Inner> {
        self.inner.lock().unwrap_or_else(|e| e.into_inner())
    }

    /// The one source of nondeterminism.
    pub fn draw(&self, n: u32) -> u32 {
        alloc::harness(|| self.lock().draw(n))
    }

    /// `num` in `den`; the zero choice is "no".
    pub fn chance(&self, num: u32, den: u32) -> bool {
        num > 0 && self.draw(den) >= den - num.min(den)
    }

    pub fn range(&self, lo: usize, hi: usize) -> usize {
        lo + self.draw((hi - lo + 1) as u32) as usize
    }

    pub fn pick<'a, T>(&self, xs: &'a [T]) -> &'a T {
        &xs[self.draw(xs.len() as u32) as usize]
    }

    /// Index drawn by weight; index 0 is the simplest.
    pub fn weighted(&self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut v = self.draw(total.max(1));
        for (i, &x) in w.iter().enumerate() {
            if v < x {
                return i;
            }
            v -= x;
        }
        0
    }

    /// One of the last few values of this kind, if there is one.
    pub fn recall<T: Recall>(&self, slot: Slot) -> Option<T> {
        let i = self.draw(3) as usize;
        alloc::harness(|| {
            let mut g = self.lock();
            let xs = T::of(&mut g.recent, slot);
            if xs.is_empty() {
                None
            } else {
                Some(xs[xs.len() - 1 - i % xs.len()].clone())
            }
        })
    }

    pub fn remember<T: Recall>(&self, slot: Slot, x: &T) {
        alloc::harness(|| {
            let mut g = self.lock();
            let xs = T::of(&mut g.recent, slot);
            if xs.len() >= 3 {
                xs.remove(0);
            }
            xs.push(x.clone());
        })
    }

    pub fn fault(&self, kind: &'static str) {
        alloc::harness(|| {
            let mut g = self.lock();
            *g.faults.entry(kind).or_insert(0) += 1;
            let h = kind.bytes().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64));
            let pos = g.rec.len() as u64;
            g.sched_hash = mix(g.sched_hash ^ h, pos);
            if self.tracing {
                let (t, c) = (g.time, g.cur);
                g.trace.push(format!("t={t} {} FAULT {kind}", actor_name(c)));
            }
        })
    }

    pub fn probe(&self, name: &'static str) {
        alloc::harness(|| *self.lock().probes.entry(name).or_insert(0) += 1)
    }

    pub fn ev(&self, f: impl FnOnce() -> String) {
        if self.tracing {
            alloc::harness(|| {
                let s = f();
                let mut g = self.lock();
                let (t, c) = (g.time, g.cur);
                g.trace.push(format!("t={t} {} {s}", actor_name(c)));
            })
        }
    }

    pub fn count_objects(&self, n: u64) {
        self.lock().objects += n;
    }

    /// Fold library output into the run's digest.
    pub fn digest(&self, b: &[u8]) {
        let mut h = 0xcbf29ce484222325u64 ^ b.len() as u64;
        for ch in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..ch.len()].copy_from_slice(ch);
            h = (h ^ u64::from_le_bytes(x)).wrapping_mul(0x100000001b3).rotate_left(23);
        }
        let mut g = self.lock();
        g.digest = mix(g.digest, h);
    }

    pub fn time(&self) -> u64 {
        self.lock().time
    }

    /// Record a violation from inside an actor.
    pub fn fail(&self, msg: String) {
        let mut g = self.lock();
        if g.fail.is_none() {
            g.fail = Some(msg);
        }
    }

    /// How eagerly `yield_now` hands the baton over: 0 never, else one in `n`.
    pub fn set_switch(&self, n: u32) {
        self.lock().switch = n;
    }

    /// A scheduling point.
    pub fn yield_now(&self) {
        let me = ACTOR.with(|a| a.get());
        alloc::harness(|| {
            let mut g = self.lock();
            g.yields += 1;
            if me == usize::MAX || g.acts.is_empty() {
                g.time += 1;
                return;
            }
            let sw = g.switch;
            if sw == 0 {
                g.time += 1;
                return;
            }
            // Zero: stay.
            if sw > 1 && g.draw(sw) == 0 {
                g.time += 1;
                return;
            }
            g.time += 1 + g.draw(3) as u64;
            let next = g.pick_next();
            self.handoff(g, me, next);
        });
    }

    fn handoff<'a>(&'a self, mut g: MutexGuard<'a, Inner>, me: usize, next: usize) {
        if next == me {
            return;
        }
        g.switches += 1;
        g.cur = next;
        g.acts[next] = Act::Ready;
        let pos = g.rec.len() as u64;
        g.sched_hash = mix(g.sched_hash ^ next as u64, pos);
        self.cvs[next].notify_one();
        while g.cur != me {
            g = self.cvs[me].wait(g).unwrap_or_else(|e| e.into_inner());
        }
    }

    /// Block the current actor until `deadline` (or another wake-up). `u64::MAX`: until something else wakes it.
    pub fn wait_until(&self, deadline: u64) {
        let me = ACTOR.with(|a| a.get());
        alloc::harness(|| {
            let mut g = self.lock();
            if me == usize::MAX || g.acts.is_empty() {
                if deadline != u64::MAX {
                    g.time = g.time.max(deadline);
                }
                return;
            }
            g.acts[me] = Act::Waiting(deadline);
            let next = g.pick_next();
            if next == me {
                g.acts[me] = Act::Ready;
                return;
            }
            self.handoff(g, me, next);
            let mut g = self.lock();
            g.acts[me] = Act::Ready;
        })
    }

    /// Make a waiting actor runnable no later than `due`.
    pub fn wake_at(&self, actor: usize, due: u64) {
        let mut g = self.lock();
        if let Some(Act::Waiting(d)) = g.acts.get(actor).copied() {
            g.acts[actor] = Act::Waiting(d.min(due));
        }
    }

    pub fn others_alive(&self) -> bool {
        let me = ACTOR.with(|a| a.get());
        self.lock().acts.iter().enumerate().any(|(i, a)| i != me && *a != Act::Done)
    }

    /// Run actors, one at a time under the scheduler, each on its own thread, to completion.
    pub fn run_actors<'s>(&'s self, actors: Vec<Box<dyn FnOnce() -> Res + Send + 's>>) -> Res {
        let n = actors.len();
        assert!(n <= MAX_ACTORS);
        {
            let mut g = self.lock();
            g.acts = vec![Act::Ready; n];
            g.cur = usize::MAX;
        }
        std::thread::scope(|s| {
            for (i, f) in actors.into_iter().enumerate() {
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(s, move || {
                        ACTOR.with(|a| a.set(i));
                        {
                            let mut g = self.lock();
                            while g.cur != i {
                                g = self.cvs[i].wait(g).unwrap_or_else(|e| e.into_inner());
                            }
                        }
                        let r = catch_unwind(AssertUnwindSafe(f));
                        match r {
                            Ok(Ok(())) => {}
                            Ok(Err(Viol(m))) => self.fail(m),
                            Err(p) => self.fail(describe_panic("actor", &*p)),
                        }
                        let mut g = self.lock();
                        g.acts[i] = Act::Done;
                        if g.acts.iter().any(|a| *a != Act::Done) {
                            let next = g.pick_next();
                            g.cur = next;
                            g.acts[next] = Act::Ready;
                            self.cvs[next].notify_one();
                        } else {
                            g.cur = usize::MAX - 1;
                        }
                    })
                    .expect("spawn actor");
            }
            let mut g = self.lock();
            if n > 0 {
                let next = g.pick_next();
                g.cur = next;
                self.cvs[next].notify_one();
            }
        });
        let mut g = self.lock();
        g.acts.clear();
        g.cur = usize::MAX;
        match g.fail.clone() {
            Some(m) => Err(Viol(m)),
            None => Ok(()),
        }
    }
}

impl Inner {
    fn draw(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        if self.rec.len() >= MAX_DRAWS {
            return 0;
        }
        let v = match &mut self.src {
            Source::Random(r) => ((r.next() >> 32) * n as u64 >> 32) as u32,
            Source::Replay(xs, pos) => {
                let v = xs.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                v.min(n - 1)
            }
            Source::Scaled(ws, pos) => {
                let mut word = || {
                    *pos += 1;
                    ws.get(*pos - 1).copied().unwrap_or(0) as u64
                };
                if n <= 65536 {
                    (word() * n as u64 >> 16) as u32
                } else {
                    let hi = word();
                    ((hi << 16 | word()) * n as u64 >> 32) as u32
                }
            }
        };
        self.rec.push(v);
        self.full_hash = mix(self.full_hash, v as u64 ^ ((n as u64) << 32));
        v
    }

    fn pick_next(&mut self) -> usize {
        let t = self.time;
        let ready: Vec<usize> = (0..self.acts.len())
            .filter(|&i| match self.acts[i] {
                Act::Ready => true,
                Act::Waiting(d) => d <= t,
                Act::Done => false,
            })
            .collect();
        if !ready.is_empty() {
            let k = self.draw(ready.len() as u32) as usize;
            return ready[k];
        }
        // Nothing is runnable: advance virtual time to the next deadline.
        let (d, i) = (0..self.acts.len())
            .filter_map(|i| match self.acts[i] {
                Act::Waiting(d) => Some((d, i)),
                _ => None,
            })
            .min()
            .expect("scheduler: no actor left");
        if d != u64::MAX {
            self.time = self.time.max(d);
        }
        i
    }
}

fn actor_name(c: usize) -> String {
    if c >= MAX_ACTORS {
        "main".into()
    } else {
        format!("a{c}")
    }
}

pub fn describe_panic(what: &str, p: &(dyn Any + Send)) -> String {
    if let Some(i) = p.downcast_ref::<Injected>() {
        format!("{what}: injected panic '{}' escaped to a place where nothing was injected", i.0)
    } else if p.is::<Oom>() {
        format!("{what}: allocation failure escaped")
    } else {
        format!("{what}: unexpected panic: {}", panic_text(p))
    }
}

pub fn panic_text(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string payload>".into()
    }
}

/// How a guarded piece of work ended.
#[derive(Debug, Clone, PartialEq)]
pub enum Outcome {
    Done,
    Injected,
    Oom,
    Panic(String),
}

pub fn guarded<R>(f: impl FnOnce() -> R) -> (Option<R>, Outcome) {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => (Some(r), Outcome::Done),
        Err(p) if p.is::<Injected>() => (None, Outcome::Injected),
        Err(p) if p.is::<Oom>() => (None, Outcome::Oom),
        Err(p) => (None, Outcome::Panic(panic_text(&*p))),
    }
}

pub fn guarded_any<R>(f: impl FnOnce() -> R) -> Result<R, Box<dyn Any + Send>> {
    catch_unwind(AssertUnwindSafe(f))
}

/// Raise a panic from caller code (not from the library).
pub fn raise(ctx: &Ctx, kind: &'static str) -> ! {
    // Never let an allocation failure strike while this panic unwinds.
    alloc::disarm();
    ctx.fault(kind);
    resume_unwind(alloc::harness(|| Box::new(Injected(kind)) as Box<dyn Any + Send>))
}
