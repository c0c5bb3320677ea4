//! The multi-party simulation: producers build chunks on their own threads under the scheduler, a simulated
//! transport delays, reorders, drops and duplicates the finished chunks, and a coordinator that owns the
//! document merges them, writes its own objects and changes document-level settings.

use std::collections::BTreeSet;
use std::sync::Mutex;

use pdf_writer::{Chunk, Pdf, Ref, Settings};

use crate::alloc::{self, lib};
use crate::ctx::{guarded, Ctx, Outcome, Res, Viol};
use crate::model::*;
use crate::plan::*;
#[allow(unused_imports)]
use crate::{ensure, viol};

#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct Lim {
    pub int: i32,
    pub real: f32,
    pub name: usize,
    pub str: usize,
    pub arr: usize,
    pub dict: usize,
}

impl Lim {
    pub fn of(l: &pdf_writer::Limits) -> Lim {
        Lim { int: l.int(), real: l.real(), name: l.name_len(), str: l.str_len(), arr: l.array_len(), dict: l.dict_entries() }
    }
    pub fn max(self, o: Lim) -> Lim {
        Lim {
            int: self.int.max(o.int),
            real: self.real.max(o.real),
            name: self.name.max(o.name),
            str: self.str.max(o.str),
            arr: self.arr.max(o.arr),
            dict: self.dict.max(o.dict),
        }
    }
}

#[derive(Clone, Debug)]
pub struct WorldCfg {
    pub plan: PlanCfg,
    pub producers: usize,
    pub chunks_each: usize,
    pub objs_max: usize,
    pub p_loss: u32,
    pub p_dup: u32,
    pub delay: u32,
    pub p_crash: u32,
    pub p_oom: u32,
    pub p_renumber: u32,
    pub p_hold: u32,
    pub own_objs: usize,
    pub settings_ops: usize,
    /// 0: drop redeliveries, 1: renumber them to fresh ids, 2: merge them as they are.
    pub redelivery: u32,
    /// Chance (percent) that a new object reuses an id already in use.
    pub p_reuse: u32,
    pub gap_w: [u32; 4],
    pub pdfs: usize,
    pub switch: u32,
    pub catalog: bool,
    pub compact: u32,
    pub extra_limits: bool,
    /// Renumbering sometimes jumps far ahead in the id space.
    pub far_ids: bool,
    /// Hundreds of small objects besides.
    pub bulk: usize,
}

impl WorldCfg {
    pub fn swarm(c: &Ctx, panics: bool, leaks: bool, oom: bool) -> Self {
        let plan = PlanCfg::swarm(c, panics, leaks);
        // Deeper tiers also draw larger worlds.
        let more = if c.depth > 1 { c.draw(c.depth) as usize } else { 0 };
        WorldCfg {
            plan,
            producers: c.range(0, 3 + more.min(2)),
            chunks_each: c.range(1, 3 + 2 * more),
            objs_max: *c.pick(&[3, 1, 6]),
            p_loss: *c.pick(&[0, 0, 20]),
            p_dup: *c.pick(&[0, 0, 30]),
            delay: *c.pick(&[0, 20, 200]),
            p_crash: if panics { *c.pick(&[0, 10, 30]) } else { 0 },
            p_oom: if oom { *c.pick(&[0, 20, 50]) } else { 0 },
            p_renumber: *c.pick(&[0, 0, 40]),
            p_hold: *c.pick(&[0, 30, 70]),
            own_objs: c.range(0, 4 + 4 * more),
            settings_ops: c.range(0, 4),
            redelivery: c.draw(2),
            p_reuse: 0,
            gap_w: *c.pick(&[[10, 0, 0, 0], [6, 3, 1, 0], [2, 2, 2, 0]]),
            pdfs: 1,
            switch: *c.pick(&[0, 1, 3, 8]),
            catalog: c.draw(3) != 0,
            compact: *c.pick(&[0, 100, 50]),
            extra_limits: false,
            far_ids: false,
            bulk: bulk(c),
        }
    }
}

/// Rarely, a count of objects beyond what the worlds usually hold.
pub fn bulk(c: &Ctx) -> usize {
    if !c.chance(1, 100) {
        return 0;
    }
    c.probe("bulk");
    match c.weighted(&[10, 4, 1]) {
        0 => c.range(60, 300),
        1 => *c.pick(&[255, 256, 257, 511, 512, 513, 600]),
        _ => c.range(600, 2500),
    }
}

pub struct Msg {
    pub seq: u32,
    pub chunk: Chunk,
    pub objs: Vec<Obj>,
    pub lim: Lim,
}

impl Msg {
    fn copy(&self) -> Msg {
        Msg { seq: self.seq, chunk: self.chunk.clone(), objs: self.objs.clone(), lim: self.lim }
    }
}

#[derive(Clone, Debug, Default)]
pub struct DocSettings {
    pub version: (u8, u8),
    pub marker: [u8; 4],
    pub file_id: Option<(Vec<u8>, Vec<u8>)>,
    pub root: Option<i32>,
    pub info: Option<i32>,
}

pub struct Doc {
    pub pdf: Pdf,
    pub objs: Vec<Obj>,
    pub set: DocSettings,
    /// Limits handed in by the caller or inherited from renumbered sources.
    pub lim: Lim,
}

impl Doc {
    pub fn ids(&self) -> Vec<i32> {
        self.objs.iter().map(|o| o.id).collect()
    }
    pub fn max_id(&self) -> i32 {
        self.ids().into_iter().max().unwrap_or(0)
    }
}

struct Shared {
    inbox: Mutex<Vec<(u64, u32, Msg)>>,
    ids: Mutex<Ids>,
    seq: Mutex<u32>,
}

pub struct Ids {
    next: i32,
    pub used: Vec<i32>,
    gap_w: [u32; 4],
    p_reuse: u32,
}

impl Ids {
    pub fn new(gap_w: [u32; 4], p_reuse: u32) -> Ids {
        Ids { next: 1, used: vec![], gap_w, p_reuse }
    }
    pub fn alloc(&mut self, c: &Ctx) -> i32 {
        if self.p_reuse > 0 && !self.used.is_empty() && c.chance(self.p_reuse, 100) {
            c.fault("id_reuse");
            return *c.pick(&self.used);
        }
        let gap = match c.weighted(&self.gap_w) {
            0 => 0,
            1 => 1 + c.draw(4) as i32,
            2 => c.draw(60) as i32,
            // Among hundreds of objects only a few lie far apart.
            _ if self.used.len() > 60 => 0,
            _ => *c.pick(&[300, 1000, 5000, 66000]),
        };
        if gap > 0 {
            c.probe("id_gap");
        }
        let id = self.next + gap;
        self.next = id + 1;
        self.used.push(id);
        id
    }
}

pub fn settings(c: &Ctx, compact: u32) -> Settings {
    Settings { pretty: !c.chance(compact, 100) }
}

/// A number of bytes to reserve.
pub fn capacity(c: &Ctx) -> usize {
    match c.draw(5) {
        0 => 0,
        1 => c.range(1, 300),
        2 => *c.pick(&[1usize, 15, 16, 17, 255, 256, 1000, 1023, 1024, 4000, 4096]),
        3 => 1 << c.range(8, 16),
        _ => (1 << c.range(16, 23)) + c.range(0, 1),
    }
}

pub fn new_chunk(c: &Ctx, s: Settings) -> Chunk {
    match c.draw(4) {
        0 if s.pretty && c.draw(2) == 0 => Chunk::new(),
        0 => Chunk::with_settings(s),
        1 => Chunk::with_settings_and_capacity(s, 0),
        _ => Chunk::with_settings_and_capacity(s, capacity(c)),
    }
}

pub fn new_pdf(c: &Ctx, s: Settings) -> Pdf {
    match c.draw(3) {
        0 if s.pretty && c.draw(2) == 0 => Pdf::new(),
        0 => Pdf::with_settings(s),
        1 if s.pretty && c.draw(2) == 0 => Pdf::with_capacity(c.range(0, 100)),
        1 => Pdf::with_settings_and_capacity(s, c.range(0, 100)),
        _ => Pdf::with_settings_and_capacity(s, capacity(c)),
    }
}

/// Write one object, possibly with a failing allocation.
pub fn write_faulty(c: &Ctx, chunk: &mut Chunk, plan: &ObjPlan, p_oom: u32) -> Res<(Option<Obj>, Outcome)> {
    let before = chunk.refs().len();
    if c.chance(p_oom, 100) {
        let k = c.range(0, 14) as u64;
        c.ev(|| format!("allocation {k} from here fails"));
        alloc::arm(k);
    }
    let (obj, out) = write_obj(c, chunk, plan);
    if alloc::disarm() {
        c.fault("alloc_failure");
    }
    if let Outcome::Panic(m) = &out {
        viol!("writing object {}: unexpected panic: {m}", plan.id);
    }
    if out == Outcome::Oom && chunk.refs().len() == before {
        // The object was never started.
        return Ok((None, out));
    }
    Ok((Some(obj), out))
}

/// Pages, forms and the like would be typed; here the coordinator's own document-level dictionaries.
fn own_dict(c: &Ctx, plan: &PlanCfg) -> Vec<Step> {
    let mut used = vec![b"Type".to_vec()];
    gen_steps(c, plan, 1, &mut used)
}

struct Producer<'a> {
    c: &'a Ctx,
    cfg: &'a WorldCfg,
    sh: &'a Shared,
    coord: usize,
}

impl Producer<'_> {
    fn run(&self) -> Res {
        let c = self.c;
        for k in 0..self.cfg.chunks_each {
            let n = c.range(0, self.cfg.objs_max);
            let mut plans: Vec<ObjPlan> = Vec::new();
            if k == 0 && self.cfg.bulk > 0 && c.draw(2) == 1 {
                for _ in 0..self.cfg.bulk {
                    let id = self.sh.ids.lock().unwrap().alloc(c);
                    plans.push(gen_tiny(c, id));
                }
            }
            for _ in 0..n {
                let id = self.sh.ids.lock().unwrap().alloc(c);
                let next = gen_next(c, &self.cfg.plan, id, plans.last());
                plans.push(next);
            }
            // Out-of-order writing.
            if c.chance(1, 3) && plans.len() > 1 {
                let k = c.range(0, plans.len() - 1);
                plans.rotate_left(k);
            }
            let s = settings(c, self.cfg.compact);
            let mut attempt = 0;
            loop {
                let mut chunk = new_chunk(c, s);
                let mut objs = Vec::new();
                let mut lim = Lim::default();
                let mut crashed = false;
                for p in &plans {
                    if c.chance(1, 8) {
                        let n = capacity(c);
                        lib(|| chunk.reserve(n));
                    }
                    let (obj, out) = write_faulty(c, &mut chunk, p, self.cfg.p_oom)?;
                    objs.extend(obj);
                    if out != Outcome::Done && c.chance(self.cfg.p_crash, 100) {
                        crashed = true;
                        break;
                    }
                    if self.cfg.extra_limits && c.chance(1, 3) {
                        let l = foreign_limits(c);
                        chunk.merge_limits(&l);
                        lim = lim.max(Lim::of(&l));
                    }
                    c.yield_now();
                }
                if crashed || c.chance(self.cfg.p_crash, 200) {
                    c.fault("producer_crash");
                    match if attempt < 2 { c.draw(3) } else { 0 } {
                        0 => {
                            c.ev(|| "supervisor salvages the crashed producer's chunk".into());
                        }
                        1 => {
                            c.ev(|| "crashed producer's chunk is discarded; it starts over".into());
                            attempt += 1;
                            continue;
                        }
                        _ => {
                            c.ev(|| "crashed producer's chunk is lost for good".into());
                            break;
                        }
                    }
                }
                if self.cfg.extra_limits && c.chance(1, 3) {
                    let l = foreign_limits(c);
                    chunk.merge_limits(&l);
                    lim = lim.max(Lim::of(&l));
                }
                if c.chance(1, 6) {
                    // What is sent is a copy; the original is gone.
                    chunk = chunk.clone();
                    c.probe("chunk_cloned");
                }
                self.send(Msg { seq: 0, chunk, objs, lim });
                break;
            }
        }
        Ok(())
    }

    fn send(&self, mut m: Msg) {
        let c = self.c;
        m.seq = {
            let mut s = self.sh.seq.lock().unwrap();
            *s += 1;
            *s
        };
        let now = c.time();
        if c.chance(self.cfg.p_loss, 100) {
            c.fault("message_loss");
            c.ev(|| format!("message {} lost", m.seq));
            return;
        }
        let copies = if c.chance(self.cfg.p_dup, 100) {
            c.fault("message_duplication");
            2
        } else {
            1
        };
        for k in 0..copies {
            let delay = if self.cfg.delay > 0 { c.draw(self.cfg.delay) as u64 } else { 0 };
            if delay > 0 {
                c.fault("message_delay");
            }
            c.ev(|| format!("message {} copy {k} ({} objects) due at t={}", m.seq, m.objs.len(), now + delay));
            let mut inbox = self.sh.inbox.lock().unwrap();
            let ord = inbox.len() as u32;
            inbox.push((now + delay, ord, m.copy()));
            drop(inbox);
            c.wake_at(self.coord, now + delay);
        }
    }
}

pub fn foreign_limits(c: &Ctx) -> pdf_writer::Limits {
    let mut k = pdf_writer::Content::new();
    k.op("x").operand(gen_int(c));
    k.op("y").operand(gen_real(c));
    let n = gen_name(c);
    k.op("z").operand(pdf_writer::Name(&n));
    k.finish().limits().clone()
}

pub struct Coordinator<'a> {
    pub c: &'a Ctx,
    pub cfg: &'a WorldCfg,
    sh: &'a Shared,
}

/// Merge `src` into `dst`, with an allocation failure now and then.
fn merge(c: &Ctx, dst: &mut Chunk, src: &Chunk, objs: &[Obj], out: &mut Vec<Obj>, p_oom: u32) -> Res {
    for _ in 0..3 {
        let before = dst.refs().len();
        let oom = c.chance(p_oom, 100);
        if oom {
            alloc::arm(c.range(0, 3) as u64);
        }
        let (_, o) = guarded(|| lib(|| dst.extend(src)));
        if alloc::disarm() {
            c.fault("alloc_failure_in_merge");
        }
        match o {
            Outcome::Done => {
                out.extend(objs.iter().cloned());
                return Ok(());
            }
            Outcome::Oom => {
                let gained = dst.refs().len() - before;
                c.ev(|| format!("merge hit an allocation failure after registering {gained} ids"));
                if gained > 0 {
                    for o in &objs[..gained.min(objs.len())] {
                        out.push(Obj { tainted: true, ..o.clone() });
                    }
                    return Ok(());
                }
                c.probe("merge_retried");
            }
            Outcome::Panic(m) => viol!("merging a chunk: unexpected panic: {m}"),
            Outcome::Injected => viol!("merging a chunk: injected panic escaped"),
        }
    }
    Ok(())
}

impl Coordinator<'_> {
    fn recv(&self) -> Option<Msg> {
        let c = self.c;
        loop {
            let now = c.time();
            {
                let mut inbox = self.sh.inbox.lock().unwrap();
                let due: Vec<usize> = (0..inbox.len()).filter(|&i| inbox[i].0 <= now).collect();
                if !due.is_empty() {
                    // Messages due at the same instant arrive in any order.
                    let k = due[c.draw(due.len() as u32) as usize];
                    if inbox.iter().any(|m| m.1 < inbox[k].1) {
                        c.probe("message_overtaken");
                    }
                    let m = inbox.remove(k).2;
                    c.ev(|| format!("message {} delivered", m.seq));
                    return Some(m);
                }
            }
            let next = self.sh.inbox.lock().unwrap().iter().map(|m| m.0).min();
            match next {
                Some(d) => c.wait_until(d),
                None if c.others_alive() => c.wait_until(u64::MAX),
                None => return None,
            }
        }
    }

    fn own_op(&self, docs: &mut [Doc]) -> Res {
        let c = self.c;
        let what = c.weighted(&[4, 1, 1, 1, 1, 1]);
        match what {
            0 => {
                let id = self.sh.ids.lock().unwrap().alloc(c);
                let plan = gen_obj(c, &self.cfg.plan, id, 0);
                for d in docs.iter_mut() {
                    let (o, _) = write_faulty(c, &mut d.pdf, &plan, self.cfg.p_oom)?;
                    d.objs.extend(o);
                }
            }
            1 | 2 if !self.cfg.catalog => {}
            1 => {
                let id = self.sh.ids.lock().unwrap().alloc(c);
                let steps = own_dict(c, &self.cfg.plan);
                c.ev(|| format!("catalog {id}"));
                for d in docs.iter_mut() {
                    let mut sh = Shadow::default();
                    let (_, out) = guarded(|| {
                        sh.open(&[], true);
                        let mut w = lib(|| d.pdf.catalog(Ref::new(id)));
                        sh.add(b"Type", nm("Catalog"));
                        exec_dict(c, &mut w, &steps, &mut sh);
                        lib(|| drop(w));
                    });
                    if let Outcome::Panic(m) = out {
                        viol!("catalog: unexpected panic: {m}");
                    }
                    sh.truncate(0);
                    d.objs.push(Obj { id, body: sh.done.unwrap(), stream: None, tainted: sh.tainted });
                    d.set.root = Some(id);
                }
            }
            2 => {
                let id = self.sh.ids.lock().unwrap().alloc(c);
                let steps = own_dict(c, &self.cfg.plan);
                c.ev(|| format!("document info {id}"));
                for d in docs.iter_mut() {
                    let mut sh = Shadow::default();
                    let (_, out) = guarded(|| {
                        sh.open(&[], true);
                        let mut w = lib(|| d.pdf.document_info(Ref::new(id)));
                        exec_dict(c, &mut w, &steps, &mut sh);
                        lib(|| drop(w));
                    });
                    if let Outcome::Panic(m) = out {
                        viol!("document info: unexpected panic: {m}");
                    }
                    sh.truncate(0);
                    d.objs.push(Obj { id, body: sh.done.unwrap(), stream: None, tainted: sh.tainted });
                    d.set.info = Some(id);
                }
            }
            3 => {
                let v = (c.draw(10) as u8, c.draw(10) as u8);
                c.ev(|| format!("set_version {v:?}"));
                for d in docs.iter_mut() {
                    lib(|| d.pdf.set_version(v.0, v.1));
                    d.set.version = v;
                }
            }
            4 => {
                let m = match c.draw(3) {
                    0 => [0x80 + c.draw(128) as u8, 0x81, 0xff, 0xe2],
                    1 => [c.draw(256) as u8, c.draw(256) as u8, c.draw(256) as u8, c.draw(256) as u8],
                    _ => *b"AAAA",
                };
                // A marker is the body of a comment: no line ends.
                let m = m.map(|b| if b == b'\n' || b == b'\r' { b'x' } else { b });
                c.ev(|| format!("set_binary_marker {m:?}"));
                for d in docs.iter_mut() {
                    lib(|| d.pdf.set_binary_marker(&m));
                    d.set.marker = m;
                }
            }
            _ => {
                let id = (gen_bytes(c, false), gen_bytes(c, false));
                c.ev(|| format!("set_file_id {id:?}"));
                for d in docs.iter_mut() {
                    let id = id.clone();
                    d.set.file_id = Some(id.clone());
                    lib(|| d.pdf.set_file_id(id));
                }
            }
        }
        Ok(())
    }

    fn run(&self) -> Res<Vec<Doc>> {
        let c = self.c;
        let cfg = self.cfg;
        let mut docs: Vec<Doc> = (0..cfg.pdfs.max(1))
            .map(|_| {
                let s = settings(c, cfg.compact);
                let pdf = new_pdf(c, s);
                Doc {
                    pdf,
                    objs: vec![],
                    set: DocSettings { version: (1, 7), marker: [0x80; 4], ..Default::default() },
                    lim: Lim::default(),
                }
            })
            .collect();
        let mut held: Vec<Msg> = vec![];
        let mut known: BTreeSet<u32> = BTreeSet::new();
        let mut budget = cfg.own_objs + cfg.settings_ops;
        let mut early = c.range(0, budget);
        if cfg.bulk > 0 && (cfg.producers == 0 || c.draw(2) == 0) {
            for _ in 0..cfg.bulk {
                let id = self.sh.ids.lock().unwrap().alloc(c);
                let plan = gen_tiny(c, id);
                for d in docs.iter_mut() {
                    let (o, _) = write_faulty(c, &mut d.pdf, &plan, cfg.p_oom)?;
                    d.objs.extend(o);
                }
            }
        }
        loop {
            while early > 0 && budget > 0 {
                self.own_op(&mut docs)?;
                early -= 1;
                budget -= 1;
                c.yield_now();
            }
            let Some(m) = self.recv() else { break };
            early = if budget > 0 { c.range(0, 1) } else { 0 };
            let redelivered = !known.insert(m.seq);
            if redelivered {
                match cfg.redelivery {
                    0 => {
                        c.probe("redelivery_dropped");
                        continue;
                    }
                    1 => {
                        c.probe("redelivery_renumbered");
                        for d in docs.iter_mut() {
                            self.renumber_merge(d, &m)?;
                        }
                        continue;
                    }
                    _ => c.probe("redelivery_merged"),
                }
            }
            if c.chance(cfg.p_hold, 100) {
                // Merge into a chunk held back, or hold back as a new one.
                if !held.is_empty() && c.chance(1, 2) {
                    let k = c.range(0, held.len() - 1);
                    let h = &mut held[k];
                    let mut objs = std::mem::take(&mut h.objs);
                    merge(c, &mut h.chunk, &m.chunk, &m.objs, &mut objs, cfg.p_oom)?;
                    h.objs = objs;
                    h.lim = h.lim.max(m.lim);
                    c.probe("nested_merge");
                } else {
                    held.push(m);
                }
                continue;
            }
            self.take(&mut docs, m)?;
            if !held.is_empty() && c.chance(1, 3) {
                let k = c.range(0, held.len() - 1);
                let h = held.remove(k);
                self.take(&mut docs, h)?;
            }
        }
        while !held.is_empty() {
            let k = c.range(0, held.len() - 1);
            let h = held.remove(k);
            self.take(&mut docs, h)?;
        }
        while budget > 0 {
            self.own_op(&mut docs)?;
            budget -= 1;
        }
        Ok(docs)
    }

    fn renumber_merge(&self, d: &mut Doc, m: &Msg) -> Res {
        let c = self.c;
        let mut map = std::collections::BTreeMap::new();
        for o in &m.objs {
            let mut ids = self.sh.ids.lock().unwrap();
            if self.cfg.far_ids && ids.next < 1_800_000_000 && c.draw(2) == 1 {
                ids.next += *c.pick(&[300, 66_000, 70_000_000, 300_000_000]);
                c.probe("far_id");
            }
            let id = ids.alloc(c);
            drop(ids);
            map.insert(o.id, id);
        }
        // References to objects outside the message are moved, too.
        let shift = if self.cfg.far_ids { *c.pick(&[0, 5000, 1_000_000_000]) } else { 0 };
        let outside = |r: i32| if r < 1_000_000_000 { r + shift } else { r };
        let before: Vec<Ref> = d.pdf.refs().collect();
        let (_, out) = guarded(|| {
            lib(|| {
                m.chunk.renumber_into(&mut d.pdf, |r| Ref::new(map.get(&r.get()).copied().unwrap_or_else(|| outside(r.get()))));
            })
        });
        if let Outcome::Panic(p) = out {
            viol!("renumbering into the document: unexpected panic: {p}");
        }
        let gained: Vec<i32> = d.pdf.refs().skip(before.len()).map(|r| r.get()).collect();
        for o in &m.objs {
            let id = map[&o.id];
            if o.tainted && !gained.contains(&id) {
                continue;
            }
            d.objs.push(Obj {
                id,
                body: map_refs(&o.body, &mut |r| map.get(&r).copied().unwrap_or_else(|| outside(r))),
                stream: o.stream.clone(),
                tainted: o.tainted,
            });
        }
        d.lim = d.lim.max(m.lim).max(Lim::of(m.chunk.limits()));
        Ok(())
    }

    fn take(&self, docs: &mut [Doc], m: Msg) -> Res {
        let c = self.c;
        let renumber = c.chance(self.cfg.p_renumber, 100);
        for d in docs.iter_mut() {
            if renumber {
                c.ev(|| format!("renumber message {} into the document", m.seq));
                c.probe("renumber_merge");
                self.renumber_merge(d, &m)?;
            } else {
                c.ev(|| format!("merge message {} ({} objects) into the document", m.seq, m.objs.len()));
                let mut objs = std::mem::take(&mut d.objs);
                let r = merge(c, &mut d.pdf, &m.chunk, &m.objs, &mut objs, self.cfg.p_oom);
                d.objs = objs;
                d.lim = d.lim.max(m.lim);
                r?;
            }
        }
        Ok(())
    }
}

/// Run the whole world; returns the unfinished document(s) with their histories.
pub fn run_world(c: &Ctx, cfg: &WorldCfg) -> Res<Vec<Doc>> {
    c.ev(|| format!("world {cfg:?}"));
    c.set_switch(cfg.switch);
    let sh = Shared {
        inbox: Mutex::new(vec![]),
        ids: Mutex::new(Ids::new(cfg.gap_w, cfg.p_reuse)),
        seq: Mutex::new(0),
    };
    let slot: Mutex<Option<Vec<Doc>>> = Mutex::new(None);
    let coord = cfg.producers;
    let mut actors: Vec<Box<dyn FnOnce() -> Res + Send + '_>> = Vec::new();
    for _ in 0..cfg.producers {
        let p = Producer { c, cfg, sh: &sh, coord };
        actors.push(Box::new(move || p.run()));
    }
    let k = Coordinator { c, cfg, sh: &sh };
    let slot_ref = &slot;
    actors.push(Box::new(move || {
        let r = k.run()?;
        *slot_ref.lock().unwrap() = Some(r);
        Ok(())
    }));
    c.run_actors(actors)?;
    let docs = slot.into_inner().unwrap().ok_or_else(|| Viol("coordinator ended without a document".into()))?;
    ensure!(!docs.is_empty(), "no document");
    Ok(docs)
}
