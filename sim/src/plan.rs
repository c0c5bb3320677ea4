//! Producer programs: what one object's writer nest does, generated from the choice stream, and the
//! executor that drives the real writers while recording the shadow.

use std::cell::RefCell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

use pdf_writer::{Array, Chunk, Dict, Filter, Finish, Name, Obj as PObj, Rect, Ref, Str, Stream, TextStr, TypedArray, TypedDict};

use crate::alloc::{harness, lib};
use crate::ctx::{guarded, raise, Ctx, Injected, Outcome};
use crate::model::*;
use crate::typed::{self, Drive, Prog, TypedPlan};
use crate::with_prim;

#[derive(Clone, Debug)]
pub enum Step {
    Put(Vec<u8>, Prim),
    Many(Many),
    Nest(Vec<u8>, Cont),
    /// A nested typed array (or dictionary) filled by one call.
    TypedNest(Vec<u8>, Many, bool),
    Yield,
    Panic,
    /// Work whose panic is caught while the enclosing writer stays in use.
    Guard(Vec<Step>),
}

#[derive(Clone, Debug)]
pub struct Many {
    pub keys: Vec<Vec<u8>>,
    pub vals: Vec<Prim>,
    pub panic_at: Option<usize>,
    pub yields: bool,
    pub hint: u8,
    pub reenter: Option<(usize, Box<ObjPlan>)>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End {
    Drop,
    Finish,
    Leak,
}

#[derive(Clone, Debug)]
pub struct Cont {
    pub dict: bool,
    pub steps: Vec<Step>,
    pub end: End,
}

#[derive(Clone, Debug)]
pub enum Body {
    Prim(Prim),
    Cont(Cont),
    Stream(StreamPlan),
    Typed(TypedPlan),
}

#[derive(Clone, Debug)]
pub struct StreamPlan {
    pub kind: usize,
    pub data: Vec<u8>,
    pub filter: Option<usize>,
    /// Calls of the stream's own typed methods.
    pub prog: Option<Prog>,
    pub steps: Vec<Step>,
    pub end: End,
}

#[derive(Clone, Debug)]
pub struct ObjPlan {
    pub id: i32,
    pub body: Body,
}

pub const FILTERS: [(Filter, &str); 10] = [
    (Filter::AsciiHexDecode, "ASCIIHexDecode"),
    (Filter::Ascii85Decode, "ASCII85Decode"),
    (Filter::LzwDecode, "LZWDecode"),
    (Filter::FlateDecode, "FlateDecode"),
    (Filter::RunLengthDecode, "RunLengthDecode"),
    (Filter::CcittFaxDecode, "CCITTFaxDecode"),
    (Filter::Jbig2Decode, "JBIG2Decode"),
    (Filter::DctDecode, "DCTDecode"),
    (Filter::JpxDecode, "JPXDecode"),
    (Filter::Crypt, "Crypt"),
];

pub const STREAM_KINDS: [&str; 11] = [
    "stream", "form_xobject", "image_xobject", "cmap", "embedded_file", "metadata", "icc_profile", "tiling_pattern", "sampled_function",
    "post_script_function", "stream_shading",
];

/// Generation configuration: one per run (swarm).
#[derive(Clone, Debug)]
pub struct PlanCfg {
    pub g: GenCfg,
    pub p_panic: u32,
    pub p_guard: u32,
    pub p_leak: u32,
    pub p_yield: u32,
    pub p_iter_panic: u32,
    pub p_reenter: u32,
    pub stream_w: u32,
    pub deep: bool,
    pub max_steps: usize,
    pub max_payload: usize,
    /// Now and then far more entries, or far longer payloads, than usual.
    pub scale: bool,
    /// Restrict to these primitive kinds when not empty.
    pub kinds: Vec<usize>,
    /// How often an object is built with typed writers, and from which families (all when empty).
    pub typed_w: u32,
    pub typed_groups: Vec<usize>,
}

impl PlanCfg {
    pub fn plain() -> Self {
        PlanCfg {
            g: GenCfg { max_ref: 20, wild: true, big: false },
            p_panic: 0,
            p_guard: 0,
            p_leak: 0,
            p_yield: 10,
            p_iter_panic: 0,
            p_reenter: 0,
            stream_w: 2,
            deep: false,
            max_steps: 6,
            max_payload: 2000,
            scale: false,
            kinds: vec![],
            typed_w: 0,
            typed_groups: vec![],
        }
    }
    /// A swarm draw: each fault family on or off at a drawn rate.
    pub fn swarm(c: &Ctx, panics: bool, leaks: bool) -> Self {
        let mut p = Self::plain();
        p.p_yield = *c.pick(&[10, 0, 30]);
        if panics {
            p.p_panic = *c.pick(&[0, 4, 10]);
            p.p_guard = *c.pick(&[0, 10, 25]);
            p.p_iter_panic = *c.pick(&[0, 20, 50]);
        }
        if leaks {
            p.p_leak = *c.pick(&[0, 5, 15]);
        }
        p.p_reenter = *c.pick(&[0, 0, 10]);
        p.stream_w = *c.pick(&[2, 0, 8]);
        p.max_steps = *c.pick(&[4, 6, 12]);
        p.deep = c.chance(1, 60);
        p.g.big = c.chance(1, 40);
        p.scale = c.chance(1, 120);
        p.g.max_ref = *c.pick(&[20, 9, 120]);
        p.typed_w = *c.pick(&[0, 2, 6]);
        if c.chance(1, 4) {
            let n = c.range(1, 3);
            p.kinds = (0..n).map(|_| c.draw(N_KINDS as u32) as usize).collect();
        }
        p
    }
}

fn prim(c: &Ctx, p: &PlanCfg) -> Prim {
    if p.kinds.is_empty() {
        gen_prim(c, &p.g)
    } else {
        let k = *c.pick(&p.kinds);
        gen_prim_kind(c, &p.g, k)
    }
}

fn key(c: &Ctx, used: &mut Vec<Vec<u8>>) -> Vec<u8> {
    let mut k = gen_name(c);
    let mut n = 0;
    while used.contains(&k) {
        k.extend_from_slice(format!("{n}").as_bytes());
        n += 1;
    }
    used.push(k.clone());
    k
}

pub fn gen_many(c: &Ctx, p: &PlanCfg, used: &mut Vec<Vec<u8>>, depth: usize) -> Many {
    let kind = if p.kinds.is_empty() { c.draw(10) as usize } else { (*c.pick(&p.kinds)).min(9) };
    let n = match c.weighted(&[12, 4, 1, if p.scale { 2 } else { 0 }]) {
        0 => c.range(0, 4),
        1 => c.range(0, 12),
        2 => c.range(90, 140),
        _ if c.chance(1, 300) => {
            c.probe("tens_of_thousands_of_entries");
            *c.pick(&[65_535, 65_536, 65_537, 66_000])
        }
        _ => {
            c.probe("hundreds_of_entries");
            *c.pick(&[255, 256, 257, 300, 511, 513, 700, 1025])
        }
    };
    let mut vals: Vec<Prim> = (0..n).map(|_| if n > 50 { gen_prim_kind(c, &p.g, [0, 4, 2][kind % 3]) } else { gen_prim_kind(c, &p.g, kind) }).collect();
    shape_list(c, &mut vals);
    let n = vals.len();
    let keys = if n > 50 {
        // Distinct from those of other such calls on the same dictionary.
        let tag = used.len();
        used.push(format!("L{tag}x").into_bytes());
        (0..n).map(|i| format!("L{tag}x{i}").into_bytes()).collect()
    } else {
        (0..n).map(|_| key(c, used)).collect()
    };
    let panic_at = if c.chance(p.p_iter_panic, 100) { Some(c.range(0, n)) } else { None };
    let reenter = if depth < 3 && c.chance(p.p_reenter, 100) {
        Some((c.range(0, n), Box::new(gen_obj(c, p, 1 + c.draw(500) as i32, depth + 2))))
    } else {
        None
    };
    Many { keys, vals, panic_at, yields: c.chance(p.p_yield, 100), hint: c.draw(3) as u8, reenter }
}

pub fn gen_steps(c: &Ctx, p: &PlanCfg, depth: usize, used: &mut Vec<Vec<u8>>) -> Vec<Step> {
    let n = c.range(0, if depth > 2 { 3 } else { p.max_steps });
    let mut out = Vec::new();
    for _ in 0..n {
        if c.chance(p.p_yield, 100) {
            out.push(Step::Yield);
        }
        if c.chance(p.p_panic, 100) {
            out.push(Step::Panic);
        }
        if c.chance(p.p_guard, 100) && depth < 5 {
            let inner = gen_steps(c, p, depth + 1, used);
            out.push(Step::Guard(inner));
            continue;
        }
        let s = match c.weighted(&[10, 3, if depth < 5 { 4 } else { 0 }, 2]) {
            0 => Step::Put(key(c, used), prim(c, p)),
            1 => Step::Many(gen_many(c, p, used, depth)),
            2 => Step::Nest(key(c, used), gen_cont(c, p, depth + 1)),
            _ => {
                let k = key(c, used);
                let d = c.draw(2) == 1;
                let mut inner = vec![];
                Step::TypedNest(k, gen_many(c, p, &mut inner, depth), d)
            }
        };
        out.push(s);
    }
    out
}

pub fn gen_cont(c: &Ctx, p: &PlanCfg, depth: usize) -> Cont {
    let dict = c.draw(2) == 1;
    let mut used = vec![];
    let steps = gen_steps(c, p, depth, &mut used);
    let end = if c.chance(p.p_leak, 100) { End::Leak } else if c.draw(2) == 0 { End::Drop } else { End::Finish };
    Cont { dict, steps, end }
}

/// An object after others, now and then just like the one before it.
pub fn gen_next(c: &Ctx, p: &PlanCfg, id: i32, before: Option<&ObjPlan>) -> ObjPlan {
    match before {
        Some(last) if c.chance(1, 14) => ObjPlan { id, body: last.body.clone() },
        _ => gen_obj(c, p, id, 0),
    }
}

pub fn gen_obj(c: &Ctx, p: &PlanCfg, id: i32, depth: usize) -> ObjPlan {
    let body = match c.weighted(&[3, 10, p.stream_w, p.typed_w]) {
        3 => Body::Typed(typed::gen_typed(c, p)),
        0 => Body::Prim(prim(c, p)),
        1 => {
            let mut cont = gen_cont(c, p, depth);
            if p.deep {
                // A very deep nest around it.
                let n = c.range(50, 160);
                let all_dict = c.draw(2) == 1;
                for i in 0..n {
                    let mut steps = vec![Step::Nest(b"D".to_vec(), cont)];
                    if i % 17 == 3 {
                        steps.push(Step::Put(b"X".to_vec(), prim(c, p)));
                    }
                    cont = Cont { dict: all_dict || c.draw(2) == 1, steps, end: End::Drop };
                }
            }
            Body::Cont(cont)
        }
        _ => Body::Stream(gen_stream(c, p, depth)),
    };
    ObjPlan { id, body }
}

/// One of many objects: next to nothing in it.
pub fn gen_tiny(c: &Ctx, id: i32) -> ObjPlan {
    let body = match c.draw(6) {
        0 => Body::Prim(Prim::Ref(1 + c.draw(300) as i32)),
        1 => Body::Prim(Prim::Int(c.draw(100) as i32)),
        2 => Body::Cont(Cont { dict: c.draw(2) == 1, steps: vec![Step::Put(b"K".to_vec(), Prim::Ref(1 + c.draw(900) as i32))], end: End::Drop }),
        3 => Body::Cont(Cont { dict: c.draw(2) == 1, steps: vec![], end: End::Drop }),
        4 => Body::Prim(Prim::Null),
        _ => Body::Stream(StreamPlan { kind: 0, data: vec![b'x'; c.range(0, 2)], filter: None, prog: None, steps: vec![], end: End::Drop }),
    };
    ObjPlan { id, body }
}

pub fn gen_payload(c: &Ctx, p: &PlanCfg) -> Vec<u8> {
    let mut data = gen_bytes(c, false);
    match c.weighted(&[6, 4, 2, 1]) {
        0 => {}
        1 => {
            for _ in 0..c.range(1, 5) {
                let kw = *c.pick(KEYWORDS);
                data.extend_from_slice(kw);
                data.extend_from_slice(*c.pick(&[b"".as_slice(), b"\n", b" ", b"\r\n", b"\r"]));
            }
        }
        2 => {
            // What a stream object itself looks like.
            data.extend_from_slice(b"\nendstream\nendobj\n9 0 obj\n<</Length 3>>\nstream\n1 0 R\nendstream\nendobj\n");
        }
        _ => {
            let n = match if p.scale { c.draw(8) } else { 0 } {
                1 | 2 => edge_len(c),
                0 => c.range(0, p.max_payload),
                7 => *c.pick(&[65_535, 65_536, 65_537, 131_072, 131_073, 262_145]),
                _ => c.range(0, 300_000),
            };
            if n > 70_000 {
                c.probe("long_payload");
            }
            let a = c.draw(256) as u8;
            data.extend((0..n).map(|i| (i as u8).wrapping_mul(a) ^ (i >> 8) as u8));
        }
    }
    data
}

pub fn gen_stream(c: &Ctx, p: &PlanCfg, depth: usize) -> StreamPlan {
    let kind = if c.draw(2) == 0 { 0 } else { c.draw(STREAM_KINDS.len() as u32) as usize };
    let data = gen_payload(c, p);
    let filter = if c.chance(1, 3) { Some(c.draw(10) as usize) } else { None };
    let mut used: Vec<Vec<u8>> =
        ["Length", "Filter", "Type", "Subtype", "FunctionType", "PatternType"].iter().map(|s| s.as_bytes().to_vec()).collect();
    let prog = if c.chance(p.typed_w, 30) { Some(typed::gen_prog(c, p)) } else { None };
    // With the typed methods in use, the caller's own entries stay clear of their keys.
    let mut steps = gen_steps(c, p, depth.max(1), &mut used);
    if prog.is_some() {
        prefix_keys(&mut steps);
    }
    let end = if c.chance(p.p_leak, 100) { End::Leak } else if c.draw(2) == 0 { End::Drop } else { End::Finish };
    StreamPlan { kind, data, filter, prog, steps, end }
}

fn prefix_keys(steps: &mut [Step]) {
    let pre = |k: &mut Vec<u8>| {
        k.splice(0..0, *b"zy");
    };
    for s in steps {
        match s {
            Step::Put(k, _) | Step::Nest(k, _) | Step::TypedNest(k, _, _) => pre(k),
            Step::Many(m) => m.keys.iter_mut().for_each(pre),
            Step::Guard(inner) => prefix_keys(inner),
            Step::Yield | Step::Panic => {}
        }
    }
}

// ---------------------------------------------------------------------------------------------

struct Frame {
    key: Vec<u8>,
    dict: bool,
    es: Vec<E>,
}

/// The shadow of one object being written.
#[derive(Default)]
pub struct Shadow {
    frames: Vec<Frame>,
    group: u32,
    /// The call under way that pulls from caller code: the frame it writes to, and how much that held before.
    call: Option<(usize, usize)>,
    pub tainted: bool,
    pub done: Option<V>,
    /// A mismatch noticed while recording (counter observations).
    pub bad: Option<String>,
}

impl Shadow {
    /// Does the current container have an entry of this key?
    pub fn has(&self, key: &[u8]) -> bool {
        self.frames.last().is_some_and(|f| f.es.iter().any(|e| e.key == key))
    }
    pub fn depth(&self) -> usize {
        self.frames.len()
    }
    pub fn open(&mut self, key: &[u8], dict: bool) {
        harness(|| self.frames.push(Frame { key: key.to_vec(), dict, es: vec![] }))
    }
    pub fn add(&mut self, key: &[u8], v: V) {
        harness(|| self.frames.last_mut().unwrap().es.push(E { key: key.to_vec(), v, group: 0 }))
    }
    pub fn set_root(&mut self, v: V) {
        harness(|| self.done = Some(v))
    }
    pub fn add_group(&mut self, m: &Many, n: usize) {
        harness(|| {
            self.group += 1;
            let group = self.group;
            let f = self.frames.last_mut().unwrap();
            for i in 0..n {
                let key = if f.dict { m.keys[i].clone() } else { vec![] };
                f.es.push(E { key, v: m.vals[i].v(), group });
            }
        })
    }
    pub fn add_many(&mut self, m: &Many) {
        harness(|| {
            let f = self.frames.last_mut().unwrap();
            for i in 0..m.vals.len() {
                let key = if f.dict { m.keys[i].clone() } else { vec![] };
                f.es.push(E { key, v: m.vals[i].v(), group: 0 });
            }
        })
    }
    /// The writer reports it holds `n` entries now.
    pub fn claim(&mut self, n: i32, empty: bool) {
        harness(|| {
            if (n == 0) != empty && self.bad.is_none() {
                self.bad = Some(format!("writer reports len {n} but is_empty {empty}"));
            }
            self.frames.last_mut().unwrap().es.push(E { key: vec![], v: V::Claim(n), group: 0 })
        })
    }
    pub fn close(&mut self) {
        harness(|| {
            let f = self.frames.pop().unwrap();
            let v = if f.dict { V::Dict(f.es) } else { V::Arr(f.es) };
            match self.frames.last_mut() {
                Some(p) => p.es.push(E { key: f.key, v, group: 0 }),
                None => self.done = Some(v),
            }
        })
    }
    /// A single call begins which may add several entries and runs caller code in between. If it is interrupted,
    /// nothing is promised about how many of them it gets to.
    pub fn begin(&mut self) {
        self.call = self.frames.last().map(|f| (self.frames.len(), f.es.len()));
    }
    pub fn end(&mut self) {
        self.call = None;
    }
    pub fn truncate(&mut self, depth: usize) {
        if let Some((d, n)) = self.call.take() {
            while self.frames.len() > d {
                self.close();
            }
            self.group += 1;
            if let Some(f) = self.frames.last_mut().filter(|_| d > 0) {
                f.es[n..].iter_mut().filter(|e| !matches!(e.v, V::Claim(_))).for_each(|e| e.group = self.group);
            }
        }
        while self.frames.len() > depth {
            self.close();
        }
    }
}

/// The caller's iterator: yields to the scheduler, builds other things re-entrantly, panics.
pub struct SimIter<'a> {
    cx: &'a Ctx,
    m: &'a Many,
    i: usize,
}

impl<'a> SimIter<'a> {
    pub fn new(cx: &'a Ctx, m: &'a Many) -> Self {
        SimIter { cx, m, i: 0 }
    }
}

impl<'a> Iterator for SimIter<'a> {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        harness(|| {
            if self.m.yields {
                side_work(self.cx);
            }
            if let Some((at, plan)) = &self.m.reenter {
                if *at == self.i {
                    self.cx.probe("reentrant_build");
                    if let Err(e) = crate::props::reentrant(self.cx, plan) {
                        self.cx.fail(e);
                    }
                }
            }
            if self.m.panic_at == Some(self.i) {
                raise(self.cx, "iterator_panic");
            }
            if self.i < self.m.vals.len() {
                self.i += 1;
                // Whoever collects values first may ask for some memory for each, even if nothing comes of it.
                crate::alloc::asked(128);
                Some(self.i - 1)
            } else {
                None
            }
        })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.m.vals.len() - self.i;
        match self.m.hint {
            0 => (left, Some(left)),
            1 => (0, None),
            _ => (0, Some(left + 7)),
        }
    }
}

/// Run `$body` with `$it` an iterator of the right primitive type over the values of `$m`.
macro_rules! typed_iter {
    ($cx:expr, $m:expr, |$it:ident| $body:expr) => {{
        let m: &Many = $m;
        let base = SimIter { cx: $cx, m, i: 0 };
        macro_rules! go {
            ($pat:pat => $e:expr) => {{
                let $it = base.map(|i| match &m.vals[i] {
                    $pat => $e,
                    _ => unreachable!("homogeneous"),
                });
                $body
            }};
        }
        match m.vals.first() {
            None | Some(Prim::Null) => go!(Prim::Null => pdf_writer::Null),
            // References to values are values, too.
            Some(Prim::Bool(_)) if m.vals.len() % 5 == 2 => go!(Prim::Bool(b) => b),
            Some(Prim::Bool(_)) => go!(Prim::Bool(b) => *b),
            Some(Prim::Int(_)) if m.vals.len() % 5 == 2 => go!(Prim::Int(b) => b),
            Some(Prim::Int(_)) => go!(Prim::Int(b) => *b),
            Some(Prim::Real(_)) if m.vals.len() % 5 == 2 => go!(Prim::Real(b) => b),
            Some(Prim::Real(_)) => go!(Prim::Real(b) => *b),
            Some(Prim::Str(_)) => go!(Prim::Str(b) => Str(b)),
            Some(Prim::Text(_)) => go!(Prim::Text(b) => TextStr(b)),
            Some(Prim::Name(_)) => go!(Prim::Name(b) => Name(b)),
            Some(Prim::Ref(_)) => go!(Prim::Ref(b) => Ref::new(*b)),
            Some(Prim::Rect(_)) => go!(Prim::Rect(r) => Rect::new(r[0], r[1], r[2], r[3])),
            Some(Prim::Date(_)) => go!(Prim::Date(d) => d.build()),
            Some(Prim::LangText(_)) => unreachable!("not generated in bulk"),
        }
    }};
}

macro_rules! dict_iter {
    ($cx:expr, $m:expr, |$it:ident| $body:expr) => {{
        let m: &Many = $m;
        let base = SimIter { cx: $cx, m, i: 0 };
        macro_rules! go {
            ($pat:pat => $e:expr) => {{
                let $it = base.map(|i| {
                    (
                        Name(&m.keys[i]),
                        match &m.vals[i] {
                            $pat => $e,
                            _ => unreachable!("homogeneous"),
                        },
                    )
                });
                $body
            }};
        }
        match m.vals.first() {
            None | Some(Prim::Null) => go!(Prim::Null => pdf_writer::Null),
            // References to values are values, too.
            Some(Prim::Bool(_)) if m.vals.len() % 5 == 2 => go!(Prim::Bool(b) => b),
            Some(Prim::Bool(_)) => go!(Prim::Bool(b) => *b),
            Some(Prim::Int(_)) if m.vals.len() % 5 == 2 => go!(Prim::Int(b) => b),
            Some(Prim::Int(_)) => go!(Prim::Int(b) => *b),
            Some(Prim::Real(_)) if m.vals.len() % 5 == 2 => go!(Prim::Real(b) => b),
            Some(Prim::Real(_)) => go!(Prim::Real(b) => *b),
            Some(Prim::Str(_)) => go!(Prim::Str(b) => Str(b)),
            Some(Prim::Text(_)) => go!(Prim::Text(b) => TextStr(b)),
            Some(Prim::Name(_)) => go!(Prim::Name(b) => Name(b)),
            Some(Prim::Ref(_)) => go!(Prim::Ref(b) => Ref::new(*b)),
            Some(Prim::Rect(_)) => go!(Prim::Rect(r) => Rect::new(r[0], r[1], r[2], r[3])),
            Some(Prim::Date(_)) => go!(Prim::Date(d) => d.build()),
            Some(Prim::LangText(_)) => unreachable!("not generated in bulk"),
        }
    }};
}

/// A nested `Many` call on the current frame: record, run, record.
pub fn run_many(m: &Many, sh: &mut Shadow, f: impl FnOnce()) {
    if let Some(k) = m.panic_at {
        sh.add_group(m, k);
        f();
        // The iterator was not drained to the panic: the library stopped pulling early.
        harness(|| sh.bad.get_or_insert_with(|| "an iterator was not pulled to its end".into()));
    } else {
        f();
        sh.add_many(m);
    }
}

pub fn end_writer<W>(cx: &Ctx, w: W, end: End, sh: &mut Shadow) {
    match end {
        End::Drop => lib(|| drop(w)),
        End::Finish => lib(|| w.finish()),
        End::Leak => {
            cx.fault("leak");
            sh.tainted = true;
            std::mem::forget(w);
        }
    }
}

fn catch_step(cx: &Ctx, sh: &mut Shadow, f: impl FnOnce(&mut Shadow)) {
    let depth = sh.depth();
    let r = catch_unwind(AssertUnwindSafe(|| f(sh)));
    if let Err(p) = r {
        if p.is::<Injected>() {
            sh.truncate(depth);
            cx.probe("caught_and_continued");
            cx.ev(|| format!("caught at nesting depth {depth}; writer stays in use"));
        } else {
            resume_unwind(p);
        }
    }
}

pub fn start_cont<'x>(o: PObj<'x>, cx: &Ctx, key: &[u8], cont: &Cont, sh: &mut Shadow) {
    sh.open(key, cont.dict);
    if cont.dict {
        let mut d = lib(|| o.dict());
        exec_dict(cx, &mut d, &cont.steps, sh);
        end_writer(cx, d, cont.end, sh);
    } else {
        let mut a = lib(|| o.array());
        exec_arr(cx, &mut a, &cont.steps, sh);
        end_writer(cx, a, cont.end, sh);
    }
    sh.close();
}

fn start_typed<'x>(o: PObj<'x>, cx: &Ctx, key: &[u8], m: &Many, dict: bool, sh: &mut Shadow) {
    sh.open(key, dict);
    if dict {
        let direct = m.vals.len() % 2 == 1;
        dict_iter!(cx, m, |it| {
            let mut t: TypedDict<'_, _> = lib(|| if direct { o.start() } else { o.dict().typed() });
            run_many(m, sh, || {
                lib(|| t.pairs(it));
            });
            sh.claim(t.len(), t.is_empty());
            lib(|| drop(t));
        });
    } else {
        let direct = m.vals.len() % 2 == 1;
        typed_iter!(cx, m, |it| {
            let mut t: TypedArray<'_, _> = lib(|| if direct { o.start() } else { o.array().typed() });
            run_many(m, sh, || {
                lib(|| t.items(it));
            });
            sh.claim(t.len(), t.is_empty());
            lib(|| drop(t));
        });
    }
    sh.close();
}

pub fn exec_arr(cx: &Ctx, a: &mut Array<'_>, steps: &[Step], sh: &mut Shadow) {
    for s in steps {
        match s {
            Step::Put(k, p) => {
                with_prim!(p, v => { lib(|| if k.len() % 3 == 2 { a.item(&v) } else { a.item(v) }); });
                sh.add(&[], p.v());
            }
            Step::Many(m) => {
                typed_iter!(cx, m, |it| run_many(m, sh, || {
                    lib(|| a.items(it));
                }));
            }
            Step::Nest(_, cont) => {
                let o = lib(|| a.push());
                start_cont(o, cx, &[], cont, sh);
            }
            Step::TypedNest(_, m, d) => {
                let o = lib(|| a.push());
                start_typed(o, cx, &[], m, *d, sh);
            }
            Step::Yield => side_work(cx),
            Step::Panic => raise(cx, "caller_panic"),
            Step::Guard(inner) => {
                catch_step(cx, sh, |sh| exec_arr(cx, a, inner, sh));
                sh.claim(a.len(), a.is_empty());
            }
        }
    }
    sh.claim(a.len(), a.is_empty());
}

pub fn exec_dict(cx: &Ctx, d: &mut Dict<'_>, steps: &[Step], sh: &mut Shadow) {
    for s in steps {
        match s {
            Step::Put(k, p) => {
                with_prim!(p, v => { lib(|| if k.len() % 3 == 2 { d.pair(Name(k), &v) } else { d.pair(Name(k), v) }); });
                sh.add(k, p.v());
            }
            Step::Many(m) => {
                dict_iter!(cx, m, |it| run_many(m, sh, || {
                    lib(|| d.pairs(it));
                }));
            }
            Step::Nest(k, cont) => {
                let o = lib(|| d.insert(Name(k)));
                start_cont(o, cx, k, cont, sh);
            }
            Step::TypedNest(k, m, dd) => {
                let o = lib(|| d.insert(Name(k)));
                start_typed(o, cx, k, m, *dd, sh);
            }
            Step::Yield => side_work(cx),
            Step::Panic => raise(cx, "caller_panic"),
            Step::Guard(inner) => {
                catch_step(cx, sh, |sh| exec_dict(cx, d, inner, sh));
                sh.claim(d.len(), d.is_empty());
            }
        }
    }
    sh.claim(d.len(), d.is_empty());
}

fn exec_stream(cx: &Ctx, s: &mut Stream<'_>, p: &StreamPlan, sh: &mut Shadow) {
    if let Some(f) = p.filter {
        if !sh.has(b"Filter") {
            lib(|| s.filter(FILTERS[f].0));
            sh.add(b"Filter", nm(FILTERS[f].1));
        }
    }
    exec_dict(cx, s, &p.steps, sh);
}

fn stream_obj(cx: &Ctx, chunk: &mut Chunk, id: Ref, p: &StreamPlan, sh: &mut Shadow) {
    sh.open(&[], true);
    let data = &p.data;
    sh.add(b"Length", V::Int(data.len() as i32));
    macro_rules! k {
        ($call:ident, [$($key:literal => $v:expr),*]) => {{
            let mut w = lib(|| chunk.$call(id, data));
            $( sh.add($key, $v); )*
            if let Some(prog) = &p.prog {
                typed::with_t(cx, prog, sh, |t| w.steps(t));
            }
            exec_stream(cx, &mut w, p, sh);
            end_writer(cx, w, p.end, sh);
        }};
    }
    match p.kind {
        0 => k!(stream, []),
        1 => k!(form_xobject, [b"Type" => nm("XObject"), b"Subtype" => nm("Form")]),
        2 => k!(image_xobject, [b"Type" => nm("XObject"), b"Subtype" => nm("Image")]),
        3 => k!(cmap, [b"Type" => nm("CMap")]),
        4 => k!(embedded_file, [b"Type" => nm("EmbeddedFile")]),
        5 => k!(metadata, [b"Type" => nm("Metadata"), b"Subtype" => nm("XML")]),
        6 => k!(icc_profile, []),
        7 => k!(tiling_pattern, [b"Type" => nm("Pattern"), b"PatternType" => V::Int(1)]),
        8 => k!(sampled_function, [b"FunctionType" => V::Int(0)]),
        9 => k!(post_script_function, [b"FunctionType" => V::Int(4)]),
        _ => k!(stream_shading, []),
    }
    sh.close();
}

fn exec_obj(cx: &Ctx, chunk: &mut Chunk, plan: &ObjPlan, sh: &mut Shadow) {
    let id = Ref::new(plan.id);
    match &plan.body {
        Body::Prim(p) => {
            let o = lib(|| chunk.indirect(id));
            with_prim!(p, v => { lib(|| if plan.id % 4 == 1 { o.primitive(&v) } else { o.primitive(v) }); });
            sh.set_root(p.v());
        }
        Body::Cont(cont) => {
            let o = lib(|| chunk.indirect(id));
            start_cont(o, cx, &[], cont, sh);
        }
        Body::Stream(p) => stream_obj(cx, chunk, id, p, sh),
        Body::Typed(p) => typed::exec_typed(cx, chunk, id, p, sh),
    }
}

/// Write one object for real; returns its shadow and how the work ended. An unexpected panic is the caller's to report.
pub fn write_obj(cx: &Ctx, chunk: &mut Chunk, plan: &ObjPlan) -> (Obj, Outcome) {
    cx.ev(|| match &plan.body {
        Body::Typed(p) => format!("write object {} through {}", plan.id, typed::root_name(p.kind)),
        b => format!("write object {}: {}", plan.id, clip(&format!("{b:?}"))),
    });
    cx.count_objects(1);
    let mut sh = Shadow::default();
    let (_, out) = guarded(|| exec_obj(cx, chunk, plan, &mut sh));
    sh.truncate(0);
    if let Some(b) = sh.bad.take() {
        cx.fail(format!("object {}: {b}", plan.id));
    }
    let tainted = sh.tainted || matches!(out, Outcome::Oom) || sh.done.is_none();
    if out == Outcome::Injected {
        cx.probe("object_unwound");
    }
    let stream = match &plan.body {
        Body::Stream(p) => Some(p.data.clone()),
        _ => None,
    };
    (Obj { id: plan.id, body: sh.done.unwrap_or(V::Any), stream, tainted }, out)
}

/// Where a homogeneous run of values goes besides arrays.
pub enum TypedSink<'x, 'y> {
    Op(&'x mut pdf_writer::writers::Operation<'y>),
}

pub fn typed_many(cx: &Ctx, m: &Many, sh: &mut Shadow, sink: TypedSink<'_, '_>) {
    let TypedSink::Op(w) = sink;
    typed_iter!(cx, m, |it| run_many(m, sh, || {
        lib(|| w.operands(it));
    }));
}

thread_local! {
    /// Work another builder does on this thread whenever the current one reaches a scheduling point, and the bytes
    /// it produced.
    static SIDE: RefCell<Option<SideQueue>> = const { RefCell::new(None) };
}

pub struct SideQueue {
    pub todo: Vec<ObjPlan>,
    pub next: usize,
    pub made: Vec<(usize, Vec<u8>)>,
}

pub fn set_side(todo: Vec<ObjPlan>) {
    SIDE.with(|s| *s.borrow_mut() = Some(SideQueue { todo, next: 0, made: vec![] }))
}
pub fn take_side() -> Option<SideQueue> {
    SIDE.with(|s| s.borrow_mut().take())
}

/// A scheduling point: other threads may run, and so may another builder on this very thread.
pub fn side_work(cx: &Ctx) {
    cx.yield_now();
    let job = harness(|| {
        SIDE.with(|s| {
            let mut s = s.borrow_mut();
            let q = s.as_mut()?;
            let i = q.next;
            let p = q.todo.get(i).cloned()?;
            q.next += 1;
            Some((i, p))
        })
    });
    if let Some((i, p)) = job {
        harness(|| {
            let armed = crate::alloc::pause();
            let mut chunk = Chunk::new();
            let _ = write_obj(cx, &mut chunk, &p);
            crate::alloc::resume(armed);
            cx.probe("interleaved_on_one_thread");
            SIDE.with(|s| {
                if let Some(q) = s.borrow_mut().as_mut() {
                    q.made.push((i, chunk.as_bytes().to_vec()));
                }
            });
        })
    }
}
