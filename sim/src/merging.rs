//! Merging (C05), renumbering (C06, C07), append-only and counters (C19).

use std::collections::{BTreeMap, BTreeSet};

use pdf_writer::{Chunk, Pdf, Ref, Settings};

use crate::alloc::{self, harness, lib};
use crate::ctx::{guarded, raise, Ctx, Outcome, Res};
use crate::content::*;
use crate::model::*;
use crate::oracle::*;
use crate::plan::*;
use crate::reader::*;
use crate::world::*;
use crate::{ensure, viol};

pub struct Built {
    pub chunk: Chunk,
    pub objs: Vec<Obj>,
}

/// Build a chunk of `n` objects on ids from `ids`; any unexpected panic is a violation.
pub fn build(c: &Ctx, cfg: &PlanCfg, ids: &mut Ids, n: usize, s: Settings) -> Res<Built> {
    let mut chunk = new_chunk(c, s);
    let mut objs = vec![];
    let many = if c.chance(1, 4) { bulk(c) } else { 0 };
    let mut last: Option<ObjPlan> = None;
    for i in 0..n + many {
        let id = ids.alloc(c);
        let plan = if i < many { gen_tiny(c, id) } else { gen_next(c, cfg, id, last.as_ref()) };
        let (o, out) = write_obj(c, &mut chunk, &plan);
        if let Outcome::Panic(m) = out {
            viol!("writing object {}: unexpected panic: {m}", plan.id);
        }
        objs.push(o);
        last = Some(plan);
    }
    Ok(Built { chunk, objs })
}

pub fn chunk_objects(chunk: &Chunk, what: &str) -> Res<Vec<PObj>> {
    match scan_objects(chunk.as_bytes(), 0, chunk.len()) {
        Ok(v) => Ok(v),
        Err(e) => viol!("{what}: {e}"),
    }
}

/// The chunk's objects are exactly these, in order, and its id list agrees.
pub fn check_chunk(chunk: &Chunk, objs: &[Obj], what: &str) -> Res {
    let refs: Vec<i32> = chunk.refs().map(|r| r.get()).collect();
    let want: Vec<i32> = objs.iter().map(|o| o.id).collect();
    ensure!(refs == want, "{what}: lists ids {} instead of {}", clip(&format!("{refs:?}")), clip(&format!("{want:?}")));
    ensure!(chunk.refs().len() == want.len(), "{what}: id list claims length {}", chunk.refs().len());
    let found = chunk_objects(chunk, what)?;
    ensure!(found.len() == objs.len(), "{what}: holds {} objects instead of {}", found.len(), objs.len());
    for (p, o) in found.iter().zip(objs) {
        if let Err(e) = o.check(p) {
            viol!("{what}: {e}");
        }
    }
    Ok(())
}

#[derive(Clone, PartialEq)]
pub struct Snap {
    pub bytes: Vec<u8>,
    pub refs: Vec<i32>,
    pub lim: Lim,
}

pub fn snap(c: &Chunk) -> Snap {
    Snap { bytes: c.as_bytes().to_vec(), refs: c.refs().map(|r| r.get()).collect(), lim: Lim::of(c.limits()) }
}

pub fn unchanged(c: &Chunk, s: &Snap, what: &str) -> Res {
    let n = snap(c);
    ensure!(n.bytes == s.bytes, "{what}: its bytes changed");
    ensure!(n.refs == s.refs, "{what}: its id list changed from {:?} to {:?}", s.refs, n.refs);
    ensure!(n.lim == s.lim, "{what}: its limits changed from {:?} to {:?}", s.lim, n.lim);
    Ok(())
}

pub fn c05(c: &Ctx) -> Res {
    if let Some(r) = crate::vast::sometimes(c, 3000, 0) {
        return r;
    }
    let mut cfg = PlanCfg::swarm(c, true, false);
    cfg.max_steps = cfg.max_steps.min(5);
    let mut ids = Ids::new([8, 2, 1, 0], 0);
    let k = c.range(2, 6);
    let mut pool: Vec<Built> = vec![];
    for _ in 0..k {
        let s = settings(c, 50);
        let n = *c.pick(&[2, 0, 1, 4]);
        let mut b = build(c, &cfg, &mut ids, n, s)?;
        if c.chance(1, 5) {
            b.chunk.merge_limits(&foreign_limits(c));
        }
        if c.chance(1, 8) {
            b.chunk = b.chunk.clone();
        }
        pool.push(b);
    }
    let s = settings(c, 50);
    let mut pdf = new_pdf(c, s);
    let mut pdf_objs: Vec<Obj> = vec![];
    let steps = c.range(1, 10);
    for _ in 0..steps {
        let src = c.range(0, pool.len() - 1);
        match c.weighted(&[6, 3, 1, 2]) {
            // Into another chunk.
            0 => {
                let dst = c.range(0, pool.len() - 1);
                if pool[dst].objs.len() + pool[src].objs.len() > if c.draw(4) == 3 { 4000 } else { 120 } {
                    continue;
                }
                let from = if dst == src {
                    c.probe("merged_with_own_copy");
                    Built { chunk: pool[src].chunk.clone(), objs: pool[src].objs.clone() }
                } else {
                    Built { chunk: pool[src].chunk.clone(), objs: pool[src].objs.clone() }
                };
                c.ev(|| format!("merge chunk {src} ({} objects) into chunk {dst} ({} objects)", from.objs.len(), pool[dst].objs.len()));
                // The real source is used, not its copy, unless it is the receiver itself.
                let before_dst = snap(&pool[dst].chunk);
                let before_src = snap(&from.chunk);
                if dst == src {
                    lib(|| pool[dst].chunk.extend(&from.chunk));
                    unchanged(&from.chunk, &before_src, "merged source")?;
                } else {
                    let (a, b) = if dst < src {
                        let (x, y) = pool.split_at_mut(src);
                        (&mut x[dst], &y[0])
                    } else {
                        let (x, y) = pool.split_at_mut(dst);
                        (&mut y[0], &x[src])
                    };
                    lib(|| a.chunk.extend(&b.chunk));
                    unchanged(&b.chunk, &before_src, "merged source")?;
                }
                after_merge(c, &pool[dst].chunk, &before_dst, &before_src)?;
                pool[dst].objs.extend(from.objs);
                check_chunk(&pool[dst].chunk, &pool[dst].objs, "merged chunk")?;
            }
            // Into the document, if no id would repeat.
            1 => {
                let have: BTreeSet<i32> = pdf_objs.iter().map(|o| o.id).collect();
                let mut seen = have.clone();
                if !pool[src].objs.iter().all(|o| seen.insert(o.id)) {
                    continue;
                }
                c.ev(|| format!("merge chunk {src} ({} objects) into the document", pool[src].objs.len()));
                let before_dst = snap(&pdf);
                let before_src = snap(&pool[src].chunk);
                lib(|| pdf.extend(&pool[src].chunk));
                unchanged(&pool[src].chunk, &before_src, "merged source")?;
                after_merge(c, &pdf, &before_dst, &before_src)?;
                pdf_objs.extend(pool[src].objs.iter().cloned());
                c.probe("merged_into_document");
            }
            // A document is a chunk, too.
            2 => {
                if pool[src].objs.len() > 60 {
                    continue;
                }
                let s = settings(c, 50);
                let mut other = new_chunk(c, s);
                let before = snap(&other);
                let b2 = snap(&pool[src].chunk);
                lib(|| other.extend(&pool[src].chunk));
                after_merge(c, &other, &before, &b2)?;
                check_chunk(&other, &pool[src].objs, "chunk merged into a fresh one")?;
                ensure!(other.as_bytes() == pool[src].chunk.as_bytes(), "merging into an empty chunk changed the bytes");
            }
            // More objects after a merge.
            _ => {
                let plan = gen_obj(c, &cfg, ids.alloc(c), 0);
                let b = &mut pool[src];
                let (o, out) = write_obj(c, &mut b.chunk, &plan);
                if let Outcome::Panic(m) = out {
                    viol!("writing object {}: unexpected panic: {m}", plan.id);
                }
                b.objs.push(o);
                c.probe("wrote_after_merge");
            }
        }
    }
    let ids: Vec<i32> = pdf_objs.iter().map(|o| o.id).collect();
    let refs: Vec<i32> = pdf.refs().map(|r| r.get()).collect();
    ensure!(refs == ids, "document lists ids {refs:?} instead of {ids:?}");
    let fin = gen_fin(c, &ids);
    let b = match finish(c, pdf, &fin) {
        Ok((b, _)) => b,
        Err(m) => viol!("finishing a merged document: panic: {m}"),
    };
    let f = read(&b)?;
    check_structure(&b, &f, &ids, fin.xref_id())?;
    check_objects(&b, &f, &pdf_objs)
}

fn after_merge(c: &Ctx, dst: &Chunk, before: &Snap, src: &Snap) -> Res {
    let now = snap(dst);
    let mut refs = before.refs.clone();
    refs.extend(&src.refs);
    ensure!(now.refs == refs, "after a merge the receiver lists {:?} instead of {refs:?}", now.refs);
    ensure!(now.lim == before.lim.max(src.lim), "after a merge the limits are {:?}, parts had {:?} and {:?}", now.lim, before.lim, src.lim);
    ensure!(now.bytes.starts_with(&before.bytes), "a merge changed bytes already in the receiver");
    if src.bytes.is_empty() {
        c.probe("merged_empty_chunk");
        ensure!(now.bytes == before.bytes, "merging an empty chunk changed the receiver");
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub type Map = Box<dyn Fn(i32) -> i32>;

/// A pure mapping, injective on everything it is used on.
pub fn gen_map(c: &Ctx, ids: &[i32]) -> (String, Map) {
    let cap = |x: i64| if x < i32::MAX as i64 { x as i32 } else { (x - i32::MAX as i64 + 1) as i32 };
    match c.weighted(&[4, 2, 4, 3, 3, 2]) {
        0 => ("identity".into(), Box::new(|r| r)),
        1 => {
            let k = *c.pick(&[1, 9, 90, 1000, 65536, 10_000_000]);
            (format!("+{k}"), Box::new(move |r| cap(r as i64 + k as i64)))
        }
        2 => {
            // A permutation of the chunk's own ids.
            let mut sorted: Vec<i32> = ids.to_vec();
            sorted.sort();
            sorted.dedup();
            let mut to = sorted.clone();
            for i in (1..to.len()).rev() {
                let j = c.range(0, i);
                to.swap(i, j);
            }
            let m: BTreeMap<i32, i32> = sorted.into_iter().zip(to).collect();
            (format!("permutation {}", clip(&format!("{m:?}"))), Box::new(move |r| *m.get(&r).unwrap_or(&r)))
        }
        3 => {
            // Consecutive ids for the chunk's objects, far away for everything else.
            let mut sorted: Vec<i32> = ids.to_vec();
            sorted.dedup();
            let start = 1 + c.draw(50) as i32;
            let m: BTreeMap<i32, i32> = sorted.into_iter().enumerate().map(|(i, r)| (r, start + i as i32)).collect();
            ("compaction".into(), Box::new(move |r| *m.get(&r).unwrap_or(&cap(r as i64 + 1_000_000))))
        }
        4 => {
            let k = 2 + c.draw(11) as i64;
            // 2^31 - 1 is prime, so this permutes the valid ids.
            (format!("*{k}"), Box::new(move |r| if r == i32::MAX { r } else { (r as i64 * k % i32::MAX as i64) as i32 }))
        }
        _ => {
            let k = 1000 * (1 + c.draw(2_000_000)) as i64;
            (format!("mirror {k}"), Box::new(move |r| if (r as i64) < k { (k - r as i64) as i32 } else { r }))
        }
    }
}

fn pv_map(v: &PV, f: &dyn Fn(i64) -> i64) -> PV {
    match v {
        PV::Ref(a, g) => PV::Ref(f(*a), *g),
        PV::Arr(xs) => PV::Arr(xs.iter().map(|x| pv_map(x, f)).collect()),
        PV::Dict(xs) => PV::Dict(xs.iter().map(|(k, x)| (k.clone(), pv_map(x, f))).collect()),
        v => v.clone(),
    }
}

pub fn pv_eq(a: &PV, b: &PV) -> bool {
    match (a, b) {
        (PV::Num(x), PV::Num(y)) => x == y || (a.real() == b.real() && a.int() == b.int()),
        (PV::Arr(x), PV::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| pv_eq(p, q)),
        (PV::Dict(x), PV::Dict(y)) => x.len() == y.len() && x.iter().zip(y).all(|((k, p), (l, q))| k == l && pv_eq(p, q)),
        _ => a == b,
    }
}

pub fn same_objects(got: &[PObj], want: &[PObj], f: &dyn Fn(i64) -> i64, what: &str) -> Res {
    ensure!(got.len() == want.len(), "{what}: {} objects instead of {}", got.len(), want.len());
    for (g, w) in got.iter().zip(want) {
        ensure!(g.id == f(w.id), "{what}: object {} became {} instead of {}", w.id, g.id, f(w.id));
        ensure!(g.gen == w.gen, "{what}: object {} changed generation from {} to {}", w.id, w.gen, g.gen);
        ensure!(g.stream == w.stream, "{what}: stream data of object {} changed", w.id);
        let m = pv_map(&w.body, f);
        ensure!(
            pv_eq(&g.body, &m),
            "{what}: object {} reads {} instead of {}",
            w.id,
            clip(&format!("{:?}", g.body)),
            clip(&format!("{m:?}"))
        );
    }
    Ok(())
}

fn pv_refs(v: &PV, out: &mut Vec<i64>) {
    match v {
        PV::Ref(a, _) => out.push(*a),
        PV::Arr(xs) => xs.iter().for_each(|x| pv_refs(x, out)),
        PV::Dict(xs) => xs.iter().for_each(|(_, x)| pv_refs(x, out)),
        _ => {}
    }
}

fn renumber_cfg(c: &Ctx) -> PlanCfg {
    let mut cfg = PlanCfg::swarm(c, true, false);
    cfg.g.max_ref = *c.pick(&[9, 20, 120]);
    cfg.stream_w = *c.pick(&[4, 0, 12]);
    if c.draw(2) == 0 {
        // Things that look like references, and references.
        cfg.kinds = (0..c.range(1, 4)).map(|_| *c.pick(&[2usize, 2, 3, 6, 1, 0, 10, 5])).collect();
    }
    cfg
}

/// A source chunk, possibly itself merged together.
fn source(c: &Ctx, cfg: &PlanCfg, ids: &mut Ids) -> Res<Built> {
    let n = c.range(0, 5);
    let s = settings(c, 50);
    let mut b = build(c, cfg, ids, n, s)?;
    if c.chance(1, 3) {
        let n = c.range(0, 3);
        let s = settings(c, 50);
        let o = build(c, cfg, ids, n, s)?;
        lib(|| b.chunk.extend(&o.chunk));
        b.objs.extend(o.objs);
    }
    Ok(b)
}

pub fn c06(c: &Ctx) -> Res {
    if let Some(r) = crate::vast::sometimes(c, 3000, 0) {
        return r;
    }
    if c.chance(1, 200) {
        return crate::extremes::extremes(c);
    }
    let cfg = renumber_cfg(c);
    let mut ids = Ids::new(*c.pick(&[[8, 2, 1, 0], [1, 2, 4, 1]]), 0);
    let src = source(c, &cfg, &mut ids)?;
    let before = snap(&src.chunk);
    let read_src = chunk_objects(&src.chunk, "source chunk")?;
    let own: Vec<i32> = src.objs.iter().map(|o| o.id).collect();
    let (name, f) = gen_map(c, &own);
    c.ev(|| format!("renumber {} objects by {name}", own.len()));
    let f64m = |x: i64| f(x as i32) as i64;

    let mut asked: Vec<i64> = vec![];
    let into = c.draw(2) == 1;
    let (out, prior) = if into {
        let s = settings(c, 50);
        let mut other_ids = Ids::new([4, 1, 1, 0], 0);
        let n = c.range(0, 3);
        let mut t = build(c, &cfg, &mut other_ids, n, s)?;
        let prior = t.objs.clone();
        let pre = snap(&t.chunk);
        lib(|| {
            src.chunk.renumber_into(&mut t.chunk, |r| {
                harness(|| asked.push(r.get() as i64));
                Ref::new(f(r.get()))
            })
        });
        ensure!(t.chunk.as_bytes().starts_with(&pre.bytes), "renumbering changed what the target already held");
        (t.chunk, prior)
    } else {
        let t = lib(|| {
            src.chunk.renumber(|r| {
                harness(|| asked.push(r.get() as i64));
                Ref::new(f(r.get()))
            })
        });
        (t, vec![])
    };
    unchanged(&src.chunk, &before, "renumbered source")?;
    c.digest(out.as_bytes());

    // Against the model.
    let mut want = prior.clone();
    for o in &src.objs {
        want.push(Obj { id: f(o.id), body: map_refs(&o.body, &mut |r| f(r)), stream: o.stream.clone(), tainted: false });
    }
    check_chunk(&out, &want, "renumbered chunk")?;
    // Against what the source itself reads as.
    let got = chunk_objects(&out, "renumbered chunk")?;
    same_objects(&got[prior.len()..], &read_src, &f64m, "renumbered chunk")?;
    // The mapping is asked once about every id and every reference, and about nothing that merely looks like one.
    let mut refs: Vec<i64> = vec![];
    for o in &read_src {
        refs.push(o.id);
        pv_refs(&o.body, &mut refs);
    }
    refs.sort();
    asked.sort();
    if refs.windows(2).any(|w| w[0] == w[1]) {
        c.probe("repeated_references");
    }
    ensure!(asked == refs, "the mapping was asked about {}, the chunk holds {}", clip(&format!("{asked:?}")), clip(&format!("{refs:?}")));
    let refs: BTreeSet<i64> = refs.into_iter().collect();
    if refs.len() > own.len() {
        c.probe("dangling_references");
    }

    match c.draw(3) {
        0 => {
            // g after f.
            let fids: Vec<i32> = own.iter().map(|&i| f(i)).collect();
            let (gname, g) = gen_map(c, &fids);
            c.ev(|| format!("then by {gname}"));
            let once = lib(|| src.chunk.renumber(|r| Ref::new(f(r.get()))));
            let twice = lib(|| once.renumber(|r| Ref::new(g(r.get()))));
            let both = lib(|| src.chunk.renumber(|r| Ref::new(g(f(r.get())))));
            let a = chunk_objects(&twice, "renumbered twice")?;
            let b = chunk_objects(&both, "renumbered by the composition")?;
            same_objects(&a, &b, &|x| x, "renumbering twice against the composition")?;
            ensure!(twice.refs().collect::<Vec<_>>() == both.refs().collect::<Vec<_>>(), "renumbering twice lists other ids than the composition");
            c.probe("composition");
        }
        1 => {
            // Merge then renumber, renumber then merge.
            let n = c.range(0, 3);
            let s = settings(c, 50);
            let other = build(c, &cfg, &mut ids, n, s)?;
            let mut m = src.chunk.clone();
            lib(|| m.extend(&other.chunk));
            let a = lib(|| m.renumber(|r| Ref::new(f(r.get()))));
            let mut b = lib(|| src.chunk.renumber(|r| Ref::new(f(r.get()))));
            let b2 = lib(|| other.chunk.renumber(|r| Ref::new(f(r.get()))));
            lib(|| b.extend(&b2));
            let x = chunk_objects(&a, "merged then renumbered")?;
            let y = chunk_objects(&b, "renumbered then merged")?;
            same_objects(&x, &y, &|x| x, "renumbering against merging")?;
            ensure!(a.refs().collect::<Vec<_>>() == b.refs().collect::<Vec<_>>(), "renumbering and merging do not commute in the listed ids");
            c.probe("commutes_with_merge");
        }
        _ => {
            // The documented use: a memoised allocator.
            let mut alloc = Ref::new(1 + c.draw(200) as i32);
            let first = alloc;
            let mut memo: BTreeMap<i32, Ref> = BTreeMap::new();
            let out = lib(|| src.chunk.renumber(|r| harness(|| *memo.entry(r.get()).or_insert_with(|| alloc.bump()))));
            let got = chunk_objects(&out, "renumbered by allocation")?;
            let m = |x: i64| memo.get(&(x as i32)).map(|r| r.get() as i64).unwrap_or(-1);
            same_objects(&got, &read_src, &m, "renumbered by allocation")?;
            ensure!(alloc.get() - first.get() == refs.len() as i32, "the mapping was asked about {} ids, the chunk holds {}", alloc.get() - first.get(), refs.len());
        }
    }
    Ok(())
}

pub fn c07(c: &Ctx) -> Res {
    let cfg = renumber_cfg(c);
    let mut ids = Ids::new([8, 2, 1, 0], 0);
    let mut src = source(c, &cfg, &mut ids)?;
    while src.objs.len() < 2 {
        let s = settings(c, 50);
        let o = build(c, &cfg, &mut ids, 1, s)?;
        lib(|| src.chunk.extend(&o.chunk));
        src.objs.extend(o.objs);
    }
    let before = snap(&src.chunk);
    let read_src = chunk_objects(&src.chunk, "source chunk")?;
    let base = 10_000 + c.draw(90_000) as i32;
    let f = move |r: i32| if r < 1_000_000 { r + base } else { r };
    let quiet = lib(|| src.chunk.renumber(|r| Ref::new(f(r.get()))));
    let mut calls = 0usize;
    lib(|| {
        src.chunk.renumber(|r| {
            calls += 1;
            r
        })
    });

    // The target: a document, or a chunk that ends up in one.
    let s = settings(c, 50);
    let mut pdf = new_pdf(c, s);
    let mut tids = Ids::new([8, 2, 1, 0], 0);
    let n = c.range(0, 3);
    let pre = build(c, &cfg, &mut tids, n, s)?;
    let direct = c.draw(2) == 0;
    let mut side = new_chunk(c, s);
    if direct {
        lib(|| pdf.extend(&pre.chunk));
    } else {
        lib(|| side.extend(&pre.chunk));
    }
    let mut want: Vec<Obj> = pre.objs.clone();
    let attempts = c.range(1, 3);
    for a in 0..attempts {
        let shift = a as i32 * 2_000_000;
        let fa = move |r: i32| if r < 1_000_000 { r + base + shift } else { r };
        let target: &mut Chunk = if direct { &mut pdf } else { &mut side };
        let t0 = snap(target);
        let oom = c.draw(3) == 2;
        let at = if oom { usize::MAX } else { c.range(0, calls.max(1) - 1) };
        let k = c.range(0, 6) as u64;
        c.ev(|| if oom { format!("renumbering with allocation {k} failing") } else { format!("renumbering whose mapping panics at call {at} of {calls}") });
        let mut n = 0usize;
        if oom {
            alloc::arm(k);
        }
        let (_, out) = guarded(|| {
            lib(|| {
                src.chunk.renumber_into(target, |r| {
                    harness(|| {
                        if n == at {
                            raise(c, "mapping_panic");
                        }
                        n += 1;
                        c.yield_now();
                        Ref::new(fa(r.get()))
                    })
                })
            })
        });
        if alloc::disarm() {
            c.fault("alloc_failure_in_renumber");
        }
        if let Outcome::Panic(m) = &out {
            viol!("renumbering: unexpected panic: {m}");
        }
        let target: &Chunk = if direct { &pdf } else { &side };
        let now = snap(target);
        ensure!(now.bytes.starts_with(&t0.bytes), "an interrupted renumbering changed what the target already held");
        ensure!(now.refs.starts_with(&t0.refs), "an interrupted renumbering changed the target's earlier ids");
        unchanged(&src.chunk, &before, "source of an interrupted renumbering")?;
        let gained = &now.refs[t0.refs.len()..];
        let mapped: Vec<i32> = src.objs.iter().map(|o| fa(o.id)).collect();
        ensure!(mapped.starts_with(gained), "an interrupted renumbering listed ids {gained:?}, the mapping gives {mapped:?}");
        if out == Outcome::Done {
            ensure!(gained.len() == mapped.len(), "a completed renumbering gained {} of {} objects", gained.len(), mapped.len());
        }
        for (i, o) in src.objs[..gained.len()].iter().enumerate() {
            want.push(Obj {
                id: fa(o.id),
                body: map_refs(&o.body, &mut |r| fa(r)),
                stream: o.stream.clone(),
                tainted: out != Outcome::Done && i + 1 == gained.len(),
            });
        }
        if out != Outcome::Done && gained.len() > 1 {
            c.probe("completed_before_interruption");
        }
    }
    // Life goes on.
    let target: &mut Chunk = if direct { &mut pdf } else { &mut side };
    for _ in 0..c.range(0, 2) {
        let plan = gen_obj(c, &cfg, tids.alloc(c), 0);
        let (o, out) = write_obj(c, target, &plan);
        if let Outcome::Panic(m) = out {
            viol!("writing after an interrupted renumbering: unexpected panic: {m}");
        }
        want.push(o);
    }
    if !direct {
        lib(|| pdf.extend(&side));
    }
    // Undisturbed repetition.
    let again = lib(|| src.chunk.renumber(|r| Ref::new(f(r.get()))));
    ensure!(again.as_bytes() == quiet.as_bytes(), "repeating an interrupted renumbering gives other bytes than an undisturbed one");
    ensure!(again.refs().collect::<Vec<_>>() == quiet.refs().collect::<Vec<_>>(), "repeating an interrupted renumbering gives other ids");
    let got = chunk_objects(&again, "repeated renumbering")?;
    same_objects(&got, &read_src, &|x| f(x as i32) as i64, "repeated renumbering")?;
    // Read the target back. Huge ids make a table impractical: shift them down first is not possible, so locate by
    // scanning recorded positions through a second, undisturbed renumbering of the target.
    let all: Vec<i32> = want.iter().map(|o| o.id).collect();
    let uniq: BTreeSet<i32> = all.iter().copied().collect();
    if uniq.len() != all.len() {
        return Ok(());
    }
    let small: BTreeMap<i32, i32> = all.iter().enumerate().map(|(i, &id)| (id, i as i32 + 1)).collect();
    let compacted = lib(|| pdf.renumber(|r| Ref::new(*small.get(&r.get()).unwrap_or(&r.get()))));
    let mut doc = Pdf::with_settings(s);
    lib(|| doc.extend(&compacted));
    let b = match finish(c, doc, &Fin::Table) {
        Ok((b, _)) => b,
        Err(m) => viol!("finishing after interrupted renumberings: panic: {m}"),
    };
    let fl = read(&b)?;
    let objs: Vec<Obj> = want
        .iter()
        .map(|o| Obj {
            id: small[&o.id],
            body: map_refs(&o.body, &mut |r| *small.get(&r).unwrap_or(&r)),
            stream: o.stream.clone(),
            tainted: o.tainted,
        })
        .collect();
    check_objects(&b, &fl, &objs)
}

// ---------------------------------------------------------------------------------------------

/// Content streams only grow, too.
fn c19_content(c: &Ctx) -> Res {
    let mut cfg = ContentCfg::swarm(c, true, false);
    cfg.p_reject = *c.pick(&[0, 20]);
    let ops = gen_ops(c, &cfg, 0);
    let mut k = new_content(c, settings(c, 50));
    let mut st = CState { sh: Shadow::default(), depth: 0, bad: None };
    st.sh.open(&[], false);
    let mut before: Vec<u8> = vec![];
    for (i, op) in ops.iter().enumerate() {
        let (_, out) = guarded(|| exec_ops(c, &mut k, std::slice::from_ref(op), &mut st));
        if let Outcome::Panic(m) = out {
            viol!("content stream: unexpected panic: {m}");
        }
        st.sh.truncate(1);
        if let Some(b) = st.bad.take().or(st.sh.bad.take()) {
            viol!("content stream: {b}");
        }
        let now = k.as_bytes();
        ensure!(k.len() == now.len(), "content stream: reported length {} for {} bytes", k.len(), now.len());
        ensure!(now.starts_with(&before), "content stream: operation {i} changed bytes already written");
        let quiet = matches!(op, COp::Yield | COp::Panic | COp::Reject(..) | COp::Reserve(_) | COp::Guard(_));
        ensure!(quiet || out != Outcome::Done || now.len() > before.len(), "content stream: operation {i} added nothing");
        before = now.to_vec();
        check_depth(&k, &mut st);
    }
    if let Some(b) = st.bad {
        viol!("content stream: {b}");
    }
    let n = before.len();
    let buf = finish_content(k);
    let end = if before.last() == Some(&b'\n') { n - 1 } else { n };
    ensure!(buf.as_slice() == &before[..end] || buf.as_slice() == &before[..], "finishing a content stream of {n} bytes changed it ({} bytes)", buf.len());
    st.sh.truncate(0);
    let Some(V::Arr(want)) = st.sh.done else { viol!("model: content") };
    if let Err(e) = check_ops(&want, &buf) {
        viol!("content stream: {e}");
    }
    Ok(())
}

pub fn c19(c: &Ctx) -> Res {
    if c.chance(1, 2000) {
        return crate::vast::counters(c);
    }
    if c.draw(4) == 3 {
        return c19_content(c);
    }
    let leaks = c.draw(3) == 2;
    let cfg = PlanCfg::swarm(c, true, leaks);
    let mut ids = Ids::new([8, 2, 1, 0], 0);
    let s = settings(c, 50);
    let as_doc = c.draw(2) == 1;
    let mut pdf = new_pdf(c, s);
    let mut plain = new_chunk(c, s);
    let mut want: Vec<i32> = vec![];
    let mut objs: Vec<Obj> = vec![];
    let mut settings_bytes = (b'1', b'7', [0x80u8; 4]);
    let p_oom = *c.pick(&[0, 0, 25]);
    for step in 0..c.range(1, 9) {
        let ch: &mut Chunk = if as_doc { &mut pdf } else { &mut plain };
        let before = ch.as_bytes().to_vec();
        let refs_before = want.len();
        match c.weighted(&[8, 2, 2, 2, 1, 2]) {
            0 => {
                let plan = gen_obj(c, &cfg, ids.alloc(c), 0);
                let (o, _) = write_faulty(c, ch, &plan, p_oom)?;
                if let Some(o) = o {
                    want.push(o.id);
                    objs.push(o);
                }
            }
            1 => {
                let n = c.range(0, 3);
                let s2 = settings(c, 50);
                let o = build(c, &cfg, &mut ids, n, s2)?;
                lib(|| ch.extend(&o.chunk));
                want.extend(o.objs.iter().map(|o| o.id));
                ensure!(ch.len() == before.len() + o.chunk.len(), "step {step}: a merge of {} bytes grew the receiver by {}", o.chunk.len(), ch.len() - before.len());
                objs.extend(o.objs);
            }
            2 => {
                let n = capacity(c);
                lib(|| ch.reserve(n));
                ensure!(ch.as_bytes() == before, "step {step}: reserving changed the bytes");
            }
            3 => {
                let n = c.range(0, 3);
                let o = build(c, &cfg, &mut ids, n, s)?;
                let base = 5000 * (1 + step as i32);
                lib(|| o.chunk.renumber_into(ch, |r| Ref::new(if r.get() < 4000 { r.get() + base } else { r.get() })));
                // An object whose writer was leaked has no end and may be left out.
                let arrived: Vec<i32> = ch.refs().map(|r| r.get()).skip(want.len()).collect();
                for x in &o.objs {
                    let m = |r: i32| if r < 4000 { r + base } else { r };
                    if x.tainted && !arrived.contains(&m(x.id)) {
                        c.probe("leaked_object_left_out");
                        continue;
                    }
                    want.push(m(x.id));
                    objs.push(Obj { id: m(x.id), body: map_refs(&x.body, &mut |r| m(r)), stream: x.stream.clone(), tainted: x.tainted });
                }
            }
            4 => ch.merge_limits(&foreign_limits(c)),
            _ if as_doc => {
                if c.draw(2) == 0 {
                    let v = (c.draw(10) as u8, c.draw(10) as u8);
                    lib(|| pdf.set_version(v.0, v.1));
                    settings_bytes.0 = b'0' + v.0;
                    settings_bytes.1 = b'0' + v.1;
                } else {
                    let m = [c.draw(256) as u8, c.draw(256) as u8, 0xE2, 0x80];
                    lib(|| pdf.set_binary_marker(&m));
                    settings_bytes.2 = m;
                }
                c.probe("header_overwritten");
            }
            _ => {}
        }
        let ch: &Chunk = if as_doc { &pdf } else { &plain };
        let now = ch.as_bytes();
        ensure!(ch.len() == now.len(), "step {step}: reported length {} for {} bytes", ch.len(), now.len());
        ensure!(now.len() >= before.len(), "step {step}: the buffer shrank from {} to {}", before.len(), now.len());
        let mut expect = before.clone();
        if as_doc {
            expect[5] = settings_bytes.0;
            expect[7] = settings_bytes.1;
            expect[10..14].copy_from_slice(&settings_bytes.2);
        }
        if now[..expect.len()] != expect[..] {
            let at = expect.iter().zip(now).position(|(a, b)| a != b).unwrap_or(0);
            viol!("step {step}: byte {at} of what was already written changed");
        }
        let refs: Vec<i32> = ch.refs().map(|r| r.get()).collect();
        ensure!(refs == want, "step {step}: listed ids {refs:?}, written {want:?}");
        ensure!(ch.refs().len() == want.len(), "step {step}: id count {}", ch.refs().len());
        if want.len() > refs_before {
            ensure!(now.len() > before.len() || objs.last().is_some_and(|o| o.tainted), "step {step}: an object was written but no byte was added");
        }
    }
    // The counters reported while writing are part of the shadow; read everything back.
    let mut seen = BTreeSet::new();
    if objs.iter().any(|o| !seen.insert(o.id)) {
        return Ok(());
    }
    if !as_doc {
        lib(|| pdf.extend(&plain));
    }
    let small: BTreeMap<i32, i32> = objs.iter().enumerate().map(|(i, o)| (o.id, i as i32 + 1)).collect();
    if objs.iter().any(|o| o.id > 70_000) {
        let _ = small;
        return Ok(());
    }
    let b = match finish(c, pdf, &Fin::Table) {
        Ok((b, _)) => b,
        Err(m) => viol!("finishing: panic: {m}"),
    };
    let f = read(&b)?;
    check_objects(&b, &f, &objs)
}
