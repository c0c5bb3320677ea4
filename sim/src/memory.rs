//! Memory requested against what is written (C24).

use pdf_writer::{Chunk, Name, Ref};

use crate::alloc::{self, harness, lib};
use crate::builders::{gen_cmap_of, write_cmap};
use crate::content::*;
use crate::ctx::{Ctx, Outcome, Res, Viol};
use crate::merging::build;
use crate::oracle::*;
use crate::plan::*;
use crate::world::*;
use crate::{ensure, viol};

/// What was written so far, and what that allows to be requested.
struct Acct {
    start: u64,
    asked: u64,
    bytes: u64,
    builders: u64,
    allowed: u64,
}

/// A call may use a buffer of its own of constant size: for what handles a whole object or chunk, and for
/// what writes one value, operation or mapping.
const PER_CALL: u64 = 4096;
const PER_VALUE: u64 = 1024;
const PER_BYTE: u64 = 32;
const PER_BUILDER: u64 = 4096;
const BASE: u64 = 65536;

impl Acct {
    fn new() -> Acct {
        Acct { start: alloc::requested(), asked: alloc::asked_for(), bytes: 0, builders: 0, allowed: 0 }
    }
    /// A builder (or finished file) ended with this many bytes.
    fn built(&mut self, len: usize) {
        self.bytes += len as u64;
        self.builders += 1;
    }
    fn calls(&mut self, n: usize, each: u64) {
        self.allowed += n as u64 * each;
    }
    fn check(&self, c: &Ctx, what: &str) -> Res {
        let used = alloc::requested() - self.start;
        let allowed = PER_BYTE * self.bytes + PER_BUILDER * self.builders + self.allowed + 4 * (alloc::asked_for() - self.asked) + BASE;
        if used > allowed / 8 {
            c.probe("over_an_eighth_of_the_allowance");
        }
        ensure!(
            used <= allowed,
            "{what}: {used} bytes were requested from the allocator to write {} bytes in {} builders",
            self.bytes,
            self.builders
        );
        Ok(())
    }
}

fn small(c: &Ctx) -> PlanCfg {
    let mut cfg = PlanCfg::swarm(c, c.draw(2) == 1, false);
    cfg.max_steps = cfg.max_steps.min(4);
    cfg.max_payload = 60;
    cfg.g.big = false;
    cfg.deep = false;
    cfg.p_reenter = 0;
    cfg.typed_w = *c.pick(&[0, 0, 20]);
    cfg
}

fn many(c: &Ctx) -> usize {
    match c.weighted(&[3, 3, 1]) {
        0 => c.range(1, 60),
        1 => c.range(200, 700),
        _ => c.range(700, 1500 * c.depth.min(3) as usize),
    }
}

/// Now and then very many, and then of the smallest: what grows with the square of their number shows only
/// beyond what each single one may use.
fn very_many(c: &Ctx, n: usize) -> Option<usize> {
    (n > 200 && c.chance(1, 12)).then(|| {
        c.probe("very_many");
        c.range(3000, 16_000)
    })
}

fn write(c: &Ctx, chunk: &mut Chunk, plan: &ObjPlan) -> Res {
    let (_, out) = write_obj(c, chunk, plan);
    if let Outcome::Panic(m) = out {
        viol!("writing object {}: unexpected panic: {m}", plan.id);
    }
    Ok(())
}

/// Some plans to be written over and over under fresh ids.
fn some_plans(c: &Ctx, cfg: &PlanCfg) -> Vec<ObjPlan> {
    (0..c.range(1, 6)).map(|_| gen_obj(c, cfg, 1, 0)).collect()
}

fn sized_plans(c: &Ctx, cfg: &PlanCfg, n: usize) -> (usize, Vec<ObjPlan>) {
    match very_many(c, n) {
        Some(n) => (n, (0..c.range(1, 3)).map(|_| gen_tiny(c, 1)).collect()),
        None => (n, some_plans(c, cfg)),
    }
}

fn one_history(c: &Ctx) -> Res {
    let cfg = small(c);
    let mut a = Acct::new();
    let n = many(c);
    let s = settings(c, 50);
    match c.draw(7) {
        0 => {
            // Many small objects in one chunk.
            let mut chunk = new_chunk(c, s);
            let (n, mut plans) = sized_plans(c, &cfg, n);
            let k = plans.len();
            let ahead = *c.pick(&[0usize, 0, 1, 30]);
            for i in 0..n {
                let p = &mut plans[i % k];
                p.id = 1 + i as i32;
                if ahead > 0 {
                    alloc::asked(ahead);
                    lib(|| chunk.reserve(ahead));
                }
                write(c, &mut chunk, p)?;
            }
            a.calls(n, PER_CALL);
            a.built(chunk.len());
            c.digest(chunk.as_bytes());
            a.check(c, &format!("{n} objects in one chunk"))
        }
        1 => {
            // One object of many entries.
            let mut chunk = new_chunk(c, s);
            let mode = c.draw(5);
            let every = c.range(1, 50);
            let keys: Vec<Vec<u8>> = if mode >= 3 { (0..n).map(|i| format!("K{i}").into_bytes()).collect() } else { vec![] };
            lib(|| match mode {
                0 => {
                    let mut a = chunk.indirect(Ref::new(1)).array();
                    for i in 0..n {
                        if i % every == 0 {
                            harness(|| c.yield_now());
                        }
                        a.item(i as i32 % 10);
                    }
                }
                1 => {
                    let mut a = chunk.indirect(Ref::new(1)).array();
                    for i in 0..n {
                        a.push().array().item(i as f32 / 8.0);
                    }
                }
                2 => {
                    chunk.indirect(Ref::new(1)).array().items((0..n).map(|i| i % 3 == 0));
                }
                3 => {
                    let mut d = chunk.indirect(Ref::new(1)).dict();
                    for (i, k) in keys.iter().enumerate() {
                        if i % every == 0 {
                            harness(|| c.yield_now());
                        }
                        d.pair(Name(k), i as i32);
                    }
                }
                _ => {
                    let mut d = chunk.indirect(Ref::new(1)).dict();
                    for k in &keys {
                        d.insert(Name(k)).dict().pair(Name(b"A"), Name(k));
                    }
                }
            });
            a.calls(n, PER_VALUE);
            a.built(chunk.len());
            c.digest(chunk.as_bytes());
            a.check(c, &format!("{n} entries in one object"))
        }
        2 => {
            // Many small merges.
            let very = very_many(c, n);
            let n = very.unwrap_or(n);
            let mut ids = Ids::new([8, 2, 1, 0], 0);
            let mut pool: Vec<Chunk> = vec![];
            for _ in 0..c.range(1, 4) {
                let s = settings(c, 50);
                let b = match very {
                    None => build(c, &cfg, &mut ids, c.range(0, 3), s)?.chunk,
                    Some(_) => {
                        let mut chunk = new_chunk(c, s);
                        for _ in 0..c.range(0, 3) {
                            let id = ids.alloc(c);
                            write(c, &mut chunk, &gen_tiny(c, id))?;
                        }
                        chunk
                    }
                };
                a.built(b.len());
                pool.push(b);
            }
            let mut into = new_chunk(c, s);
            for i in 0..n {
                let b = &pool[i % pool.len()];
                lib(|| into.extend(b));
            }
            a.calls(n, PER_CALL);
            a.built(into.len());
            c.digest(into.as_bytes());
            a.check(c, &format!("{n} merges into one chunk"))
        }
        3 => {
            // Many small renumberings into one target, or one large one.
            let mut n = n;
            let mut ids = Ids::new([8, 2, 1, 0], 0);
            let mut into = new_chunk(c, s);
            if c.draw(2) == 0 {
                let s = settings(c, 50);
                let b = build(c, &cfg, &mut ids, c.range(0, 3), s)?;
                a.built(b.chunk.len());
                n = n.min(600);
                for i in 0..n {
                    lib(|| b.chunk.renumber_into(&mut into, |r| Ref::new(1 + (r.get() % 50_000 + 7 * i as i32) % 100_000)));
                }
            } else {
                let mut chunk = new_chunk(c, s);
                let (m, mut plans) = sized_plans(c, &cfg, n);
                n = m;
                let k = plans.len();
                for i in 0..n {
                    let p = &mut plans[i % k];
                    p.id = 1 + i as i32;
                    write(c, &mut chunk, p)?;
                }
                a.built(chunk.len());
                lib(|| chunk.renumber_into(&mut into, |r| Ref::new(1 + r.get() % 100_000)));
                if c.draw(2) == 0 {
                    let out = lib(|| chunk.renumber(|r| r));
                    a.built(out.len());
                }
            }
            a.calls(n, PER_CALL);
            a.built(into.len());
            c.digest(into.as_bytes());
            a.check(c, &format!("renumbering, {n} times or objects"))
        }
        4 => {
            // A long content stream.
            let mut k = new_content(c, s);
            let mut cc = ContentCfg::swarm(c, cfg.p_panic > 0, false);
            cc.plan = cfg;
            cc.max_ops = cc.max_ops.min(12);
            let ops = gen_ops(c, &cc, 0);
            if ops.len() > 200 {
                return Ok(());
            }
            let times = 1 + n / 2;
            let mut depth = 0;
            for _ in 0..times {
                depth = write_more(c, &mut k, &ops, depth).map_err(Viol)?.depth;
            }
            let buf = finish_content(k);
            a.calls(times * ops.len(), PER_VALUE);
            a.built(buf.len());
            c.digest(&buf);
            a.check(c, &format!("{times} times {} content operations", ops.len()))
        }
        5 => {
            let n = if c.chance(1, 8) { c.range(4000, 24_000) } else { n };
            let p = gen_cmap_of(c, &cfg, n);
            let (_, b) = write_cmap(c, &p).map_err(Viol)?;
            a.calls(n, PER_VALUE);
            a.built(b.len());
            c.digest(&b);
            a.check(c, &format!("{n} mappings in a character map"))
        }
        _ => {
            // A document of many objects and chunks, finished.
            let mut pdf = new_pdf(c, s);
            let mut ids = Ids::new(*c.pick(&[[10, 0, 0, 0], [6, 3, 1, 0], [1, 2, 2, 0]]), 0);
            let (n, mut plans) = sized_plans(c, &cfg, n);
            let k = plans.len();
            let mut used = vec![];
            for i in 0..n {
                let p = &mut plans[i % k];
                p.id = ids.alloc(c);
                used.push(p.id);
                if i % 5 == 4 {
                    let s = settings(c, 50);
                    let mut side = Chunk::with_settings(s);
                    write(c, &mut side, p)?;
                    lib(|| pdf.extend(&side));
                    a.built(side.len());
                } else {
                    write(c, &mut pdf, p)?;
                }
            }
            let fin = gen_fin(c, &used);
            let b = match finish(c, pdf, &fin) {
                Ok((b, _)) => b,
                Err(m) => viol!("finishing: panic: {m}"),
            };
            a.calls(2 * n, PER_CALL);
            a.built(b.len());
            c.digest(&b);
            a.check(c, &format!("a document of {n} objects, finished as {fin:?}"))
        }
    }
}

pub fn c24(c: &Ctx) -> Res {
    let n = c.range(1, 2);
    if n == 1 {
        return one_history(c);
    }
    c.set_switch(*c.pick(&[1, 3, 8]));
    c.run_actors((0..n).map(|_| Box::new(move || one_history(c)) as Box<dyn FnOnce() -> Res + Send + '_>).collect())
}
