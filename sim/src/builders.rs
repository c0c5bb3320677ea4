//! Layout equivalence (C13), content streams (C14), character maps (C15), isolation of builders (C16).

use std::sync::Mutex;

use pdf_writer::types::{SystemInfo, UnicodeCmap};
use pdf_writer::writers::WMode;
use pdf_writer::{Chunk, Content, Name, Pdf, Ref, Settings, Str};

use crate::alloc::{self, harness, lib};
use crate::content::*;
use crate::ctx::{guarded, raise, Ctx, Outcome, Res, Viol};
use crate::merging::*;
use crate::model::*;
use crate::oracle::*;
use crate::plan::*;
use crate::reader::*;
use crate::world::*;
use crate::{ensure, viol};

fn wrap<T>(r: Result<T, String>) -> Res<T> {
    r.map_err(Viol)
}

// ---------------------------------------------------------------------------------------------
// C14

fn one_content(c: &Ctx, cfg: &ContentCfg) -> Res {
    let s = settings(c, 50);
    let ops = gen_ops(c, cfg, 0);
    let mut k = new_content(c, s);
    c.ev(|| format!("content stream, pretty {}: {}", s.pretty, clip(&format!("{ops:?}"))));
    let w = wrap(write_content(c, &mut k, &ops))?;
    let before = k.as_bytes().to_vec();
    ensure!(k.len() == before.len(), "content: reported length {} for {} bytes", k.len(), before.len());
    if let Err(e) = check_ops(&w.ops, &before) {
        viol!("content stream (pretty {}): {e}", s.pretty);
    }
    if w.outcome == Outcome::Injected {
        c.probe("content_unwound");
    }
    if w.depth > 0 {
        c.probe("unbalanced_saves");
    }
    let again = if c.draw(2) == 1 {
        // The builder goes on after whatever happened.
        let more = gen_ops(c, cfg, 1);
        wrap(write_more(c, &mut k, &more, w.depth))?.ops
    } else {
        vec![]
    };
    let mut want = w.ops;
    want.extend(again);
    let buf = finish_content(k);
    c.digest(&buf);
    if let Err(e) = check_ops(&want, &buf) {
        viol!("finished content stream (pretty {}): {e}", s.pretty);
    }
    // As the contents of a page, through a document.
    if c.chance(1, 4) {
        let mut chunk = new_chunk(c, s);
        lib(|| drop(chunk.stream(Ref::new(4), &buf)));
        let mut pdf = new_pdf(c, s);
        lib(|| pdf.extend(&chunk));
        let b = match finish(c, pdf, &gen_fin(c, &[4])) {
            Ok((b, _)) => b,
            Err(m) => viol!("finishing: panic: {m}"),
        };
        let f = read(&b)?;
        let o = wrap(f.object(&b, 4))?;
        if let Err(e) = check_ops(&want, o.stream.as_deref().unwrap_or(b"")) {
            viol!("content stream read from the document: {e}");
        }
    }
    Ok(())
}

pub fn c14(c: &Ctx) -> Res {
    if c.chance(1, 4000) {
        return crate::vast::deep_content(c);
    }
    let cfg = ContentCfg::swarm(c, true, false);
    let n = c.range(1, 3);
    if n == 1 {
        return one_content(c, &cfg);
    }
    c.set_switch(*c.pick(&[1, 3, 8]));
    let cfg = &cfg;
    c.run_actors((0..n).map(|_| Box::new(move || one_content(c, cfg)) as Box<dyn FnOnce() -> Res + Send + '_>).collect())
}

// ---------------------------------------------------------------------------------------------
// C15

#[derive(Clone, Debug)]
pub struct Mapping {
    glyph: u16,
    chars: Vec<char>,
    single: bool,
    panic_at: Option<usize>,
    yields: bool,
    reenter: Option<Box<ObjPlan>>,
}

#[derive(Clone, Debug)]
pub struct CmapPlan {
    wide: bool,
    name: Vec<u8>,
    registry: Vec<u8>,
    ordering: Vec<u8>,
    supplement: i32,
    vertical: Option<bool>,
    maps: Vec<Mapping>,
}

fn gen_char(c: &Ctx) -> char {
    match c.weighted(&[6, 3, 3, 2]) {
        0 => (b'a' + c.draw(26) as u8) as char,
        1 => *c.pick(&['é', '\0', '<', '>', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{feff}', '\n']),
        2 => *c.pick(&['😀', '\u{10000}', '\u{10ffff}', '\u{1f468}', '\u{2f800}']),
        _ => loop {
            if let Some(ch) = char::from_u32(c.draw(0x110000)) {
                break ch;
            }
        },
    }
}

fn plain_name(c: &Ctx) -> Vec<u8> {
    // Names go into comment lines, too: no line ends.
    let mut n: Vec<u8> = gen_name(c).into_iter().map(|b| if b == b'\n' || b == b'\r' { b'_' } else { b }).collect();
    if c.draw(2) == 0 {
        n = b"Custom".to_vec();
    }
    n
}

fn plain_bytes(c: &Ctx) -> Vec<u8> {
    if c.draw(2) == 0 {
        return b"Adobe".to_vec();
    }
    gen_bytes(c, false).into_iter().map(|b| if b == b'\n' || b == b'\r' { b'_' } else { b }).collect()
}

pub fn gen_cmap(c: &Ctx, p: &PlanCfg) -> CmapPlan {
    let n = match c.weighted(&[6000, 3000, 3000, 1000, 40, 4]) {
        0 => c.range(0, 6),
        1 => c.range(95, 105),
        2 => 100 * c.range(1, 4) + c.range(0, 3) - 1,
        3 => c.range(0, 900),
        4 => *c.pick(&[2500, 6553, 10_001, 25_600, 25_700]),
        _ => c.range(65_500, 66_000),
    };
    if n > 2000 {
        c.probe("thousands_of_mappings");
    }
    gen_cmap_of(c, p, n)
}

pub fn gen_cmap_of(c: &Ctx, p: &PlanCfg, n: usize) -> CmapPlan {
    let p_panic = *c.pick(&[0, p.p_iter_panic, 3]);
    let p_panic = if p.p_iter_panic == 0 { 0 } else { p_panic };
    let dull = n > 20;
    let mut maps: Vec<Mapping> = Vec::with_capacity(n);
    for i in 0..n {
        let mapping = {
            let glyph = match c.weighted(&[4, if dull { 0 } else { 3 }, if dull { 0 } else { 1 }]) {
                0 => i as u16,
                1 => c.draw(65536) as u16,
                _ => *c.pick(&[0, 1, 255, 256, 65535]),
            };
            let len = match c.weighted(&[10, 2, if dull { 0 } else { 1 }, if dull { 0 } else { 1 }]) {
                0 => 1,
                1 => c.range(0, 4),
                2 => 0,
                _ => *c.pick(&[c.range(10, 130), c.range(10, 130), 255, 256, 700]),
            };
            let chars: Vec<char> = (0..len).map(|_| gen_char(c)).collect();
            let panic_at = if c.chance(p_panic, 100) { Some(c.range(0, len)) } else { None };
            let single = len == 1 && panic_at.is_none() && c.draw(2) == 0;
            let reenter = if c.chance(p.p_reenter, 400) { Some(Box::new(gen_obj(c, p, 7, 3))) } else { None };
            let mut m = Mapping { glyph, chars, single, panic_at, yields: c.chance(p.p_yield, 200), reenter };
            if c.chance(1, if dull { 40 } else { 8 }) {
                // Close to the mapping before.
                if let Some(last) = maps.last() {
                    m.glyph = last.glyph.wrapping_add(c.draw(2) as u16);
                    if panic_at.is_none() && c.draw(3) > 0 {
                        let step = c.draw(2);
                        m.chars = last.chars.iter().map(|&x| char::from_u32(x as u32 + step).unwrap_or(x)).collect();
                        m.single = m.single && m.chars.len() == 1;
                    }
                }
            }
            m
        };
        maps.push(mapping);
    }
    CmapPlan {
        wide: c.draw(2) == 0,
        name: plain_name(c),
        registry: plain_bytes(c),
        ordering: plain_bytes(c),
        supplement: gen_int(c),
        vertical: if c.draw(2) == 0 { None } else { Some(c.draw(2) == 1) },
        maps,
    }
}

struct CharIter<'a> {
    c: &'a Ctx,
    m: &'a Mapping,
    i: usize,
}
impl Iterator for CharIter<'_> {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        harness(|| {
            if self.m.yields {
                side_work(self.c);
            }
            if let (0, Some(p)) = (self.i, &self.m.reenter) {
                self.c.probe("reentrant_build");
                if let Err(e) = crate::props::reentrant(self.c, p) {
                    self.c.fail(e);
                }
            }
            if self.m.panic_at == Some(self.i) {
                raise(self.c, "iterator_panic");
            }
            self.i += 1;
            self.m.chars.get(self.i - 1).copied()
        })
    }
}

/// The mappings that completed, in order, and the finished bytes.
pub fn write_cmap(c: &Ctx, p: &CmapPlan) -> Result<(Vec<(u16, Vec<u16>)>, Vec<u8>), String> {
    let info = SystemInfo { registry: Str(&p.registry), ordering: Str(&p.ordering), supplement: p.supplement };
    macro_rules! run {
        ($g:ty) => {{
            let mut k: UnicodeCmap<$g> = lib(|| match p.vertical {
                None => UnicodeCmap::new(Name(&p.name), info),
                Some(v) => UnicodeCmap::with_writing_mode(Name(&p.name), info, if v { WMode::Vertical } else { WMode::Horizontal }),
            });
            let mut done = vec![];
            for m in &p.maps {
                let (_, out) = guarded(|| {
                    lib(|| {
                        if m.single {
                            k.pair(m.glyph as $g, m.chars[0]);
                        } else {
                            k.pair_with_multiple(m.glyph as $g, CharIter { c, m, i: 0 });
                        }
                    })
                });
                match out {
                    Outcome::Done => {
                        let mut u = vec![];
                        for ch in &m.chars {
                            u.extend_from_slice(ch.encode_utf16(&mut [0; 2]));
                        }
                        done.push((m.glyph as $g as u16, u));
                    }
                    Outcome::Injected => c.probe("mapping_interrupted"),
                    o => return Err(format!("character map: {o:?}")),
                }
            }
            (done, lib(|| k.finish()).into_vec())
        }};
    }
    c.count_objects(p.maps.len() as u64);
    Ok(if p.wide { run!(u16) } else { run!(u8) })
}

pub struct CmapRead {
    pub maps: Vec<(Vec<u8>, Vec<u8>)>,
    pub blocks: Vec<usize>,
    pub space: Vec<(Vec<u8>, Vec<u8>)>,
    /// The entries of the resource the program defines, and the key it defines it under.
    pub key: Vec<u8>,
    pub entries: Vec<(Vec<u8>, Ps)>,
    pub info: Vec<(Vec<u8>, Ps)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ps {
    Num(String),
    Str(Vec<u8>),
    Name(Vec<u8>),
    Dict(usize),
    Mark,
}

/// Runs a character map as what it is, a PostScript program, on an interpreter that knows just the operators
/// such a program may use. Whatever else it names has to be defined.
pub fn read_cmap(b: &[u8]) -> R<CmapRead> {
    let mut lx = Lexer::new(b, 0);
    let mut r = CmapRead { maps: vec![], blocks: vec![], space: vec![], key: vec![], entries: vec![], info: vec![] };
    let mut heap: Vec<Vec<(Vec<u8>, Ps)>> = vec![vec![]];
    let mut st: Vec<Ps> = vec![];
    let mut dicts: Vec<usize> = vec![];
    let mut block: Option<(Vec<u8>, usize)> = None;
    let (mut inside, mut maps_seen, mut defined) = (false, 0, None);
    fn need(v: Option<Ps>, what: &str) -> R<Ps> {
        v.ok_or_else(|| format!("operand missing: {what}"))
    }
    loop {
        let t = match lx.tok()? {
            Tok::Eof => break,
            Tok::Num(n) => {
                st.push(Ps::Num(n));
                continue;
            }
            Tok::Str(s) => {
                st.push(Ps::Str(s));
                continue;
            }
            Tok::Name(n) => {
                st.push(Ps::Name(n));
                continue;
            }
            Tok::DictOpen => {
                st.push(Ps::Mark);
                continue;
            }
            Tok::DictClose => {
                let at = st.iter().rposition(|v| *v == Ps::Mark).ok_or("`>>` without `<<`")?;
                let got = st.split_off(at + 1);
                st.pop();
                let mut d = vec![];
                for kv in got.chunks(2) {
                    match kv {
                        [Ps::Name(k), v] => d.push((k.clone(), v.clone())),
                        x => return Err(format!("bad entry {x:?} in a dictionary")),
                    }
                }
                heap.push(d);
                st.push(Ps::Dict(heap.len() - 1));
                continue;
            }
            t @ (Tok::ArrOpen | Tok::ArrClose) => return Err(format!("{t:?} in a character map")),
            Tok::Kw(k) => k,
        };
        if let Some((end, n)) = &block {
            if t != *end {
                return Err(format!("`{}` inside a block", show(&t)));
            }
            let at = st.iter().rposition(|v| *v == Ps::Mark).ok_or("a block without its start")?;
            let got = st.split_off(at + 1);
            st.pop();
            let mut pairs = vec![];
            for ab in got.chunks(2) {
                match ab {
                    [Ps::Str(a), Ps::Str(b)] => pairs.push((a.clone(), b.clone())),
                    x => return Err(format!("bad entry in a block: {x:?}")),
                }
            }
            if pairs.len() != *n {
                return Err(format!("a block declares {n} entries and holds {}", pairs.len()));
            }
            if t == b"endbfchar" {
                r.blocks.push(*n);
                r.maps.extend(pairs);
            } else {
                r.space.extend(pairs);
            }
            block = None;
            continue;
        }
        match &t[..] {
            b"findresource" => {
                let (cat, key) = (need(st.pop(), "category")?, need(st.pop(), "key")?);
                if (&cat, &key) != (&Ps::Name(b"ProcSet".to_vec()), &Ps::Name(b"CIDInit".to_vec())) {
                    return Err(format!("no resource {key:?} of category {cat:?}"));
                }
                st.push(Ps::Dict(0));
            }
            b"dict" => match need(st.pop(), "size")? {
                Ps::Num(n) if n.parse::<u16>().is_ok() => {
                    heap.push(vec![]);
                    st.push(Ps::Dict(heap.len() - 1));
                }
                x => return Err(format!("a dictionary of {x:?} entries")),
            },
            b"begin" => match need(st.pop(), "dictionary")? {
                Ps::Dict(d) => dicts.push(d),
                x => return Err(format!("`begin` on {x:?}")),
            },
            b"end" => {
                dicts.pop().ok_or("`end` without `begin`")?;
            }
            b"dup" => {
                let v = need(st.last().cloned(), "dup")?;
                st.push(v);
            }
            b"pop" => {
                need(st.pop(), "pop")?;
            }
            b"exch" => {
                let (b, a) = (need(st.pop(), "exch")?, need(st.pop(), "exch")?);
                st.extend([b, a]);
            }
            b"currentdict" => st.push(Ps::Dict(*dicts.last().ok_or("no current dictionary")?)),
            b"def" => {
                let (v, k) = (need(st.pop(), "value")?, need(st.pop(), "key")?);
                let d = *dicts.last().ok_or("`def` outside any dictionary")?;
                match k {
                    Ps::Name(k) if d != 0 => {
                        heap[d].retain(|e| e.0 != k);
                        heap[d].push((k, v));
                    }
                    k => return Err(format!("`def` of {k:?} in dictionary {d}")),
                }
            }
            b"defineresource" => {
                let (cat, v, k) = (need(st.pop(), "category")?, need(st.pop(), "instance")?, need(st.pop(), "key")?);
                match (cat, &v, k) {
                    (Ps::Name(cat), Ps::Dict(d), Ps::Name(k)) if cat == b"CMap" && defined.is_none() => {
                        r.key = k;
                        defined = Some(*d);
                    }
                    x => return Err(format!("`defineresource` of {x:?}")),
                }
                st.push(v);
            }
            op @ (b"begincmap" | b"endcmap" | b"begincodespacerange" | b"beginbfchar") => {
                if !dicts.contains(&0) {
                    return Err(format!("`{}` without the CIDInit procedures", show(op)));
                }
                if op == b"begincmap" {
                    if inside || maps_seen > 0 {
                        return Err("`begincmap` again".into());
                    }
                    inside = true;
                    maps_seen = 1;
                } else if !inside {
                    return Err(format!("`{}` outside the map", show(op)));
                } else if op == b"endcmap" {
                    inside = false;
                } else {
                    match need(st.pop(), "block size")? {
                        Ps::Num(n) => {
                            let n = n.parse::<usize>().map_err(|_| format!("bad block count {n}"))?;
                            block = Some(([b"end", &op[5..]].concat(), n));
                            st.push(Ps::Mark);
                        }
                        x => return Err(format!("block without a count: {x:?}")),
                    }
                }
            }
            k => {
                let v = dicts.iter().rev().find_map(|&d| heap[d].iter().find(|e| e.0 == k)).map(|e| e.1.clone());
                st.push(v.ok_or_else(|| format!("`{}` is undefined", show(k)))?);
            }
        }
    }
    if !st.is_empty() || !dicts.is_empty() || inside || maps_seen == 0 || block.is_some() {
        return Err(format!("ends with operands {st:?}, {} open dictionaries, open map: {inside}", dicts.len()));
    }
    let d = defined.ok_or("no resource is defined")?;
    r.entries = heap[d].clone();
    if let Some((_, Ps::Dict(i))) = r.entries.iter().find(|e| e.0 == b"CIDSystemInfo") {
        r.info = heap[*i].clone();
    }
    Ok(r)
}

fn defined(d: &[(Vec<u8>, Ps)], key: &[u8], v: Ps) -> bool {
    d.iter().any(|e| e.0 == key && e.1 == v)
}

pub fn check_cmap(p: &CmapPlan, want: &[(u16, Vec<u16>)], b: &[u8]) -> Res {
    let r = match read_cmap(b) {
        Ok(r) => r,
        Err(e) => viol!("character map: {e}"),
    };
    let w = if p.wide { 2 } else { 1 };
    let code = |g: u16| if p.wide { g.to_be_bytes().to_vec() } else { vec![g as u8] };
    for (i, n) in r.blocks.iter().enumerate() {
        ensure!((1..=100).contains(n), "character map: block {i} holds {n} mappings");
    }
    for (i, (g, u)) in want.iter().enumerate() {
        let exp = (code(*g), u.iter().flat_map(|x| x.to_be_bytes()).collect::<Vec<u8>>());
        match r.maps.get(i) {
            None => viol!("character map: mapping {i} of {} is missing; it holds {}", want.len(), r.maps.len()),
            Some(m) => ensure!(*m == exp, "character map: mapping {i} of {} reads {m:?} instead of {exp:?}", want.len()),
        }
    }
    ensure!(r.maps.len() == want.len(), "character map: {} mappings were completed, {} read back", want.len(), r.maps.len());
    ensure!(r.space == vec![(vec![0; w], vec![0xff; w])], "character map: code space {:?} for {w}-byte codes", r.space);
    ensure!(defined(&r.entries, b"CMapName", Ps::Name(p.name.clone())), "character map: its name is not defined as {}", show(&p.name));
    ensure!(defined(&r.info, b"Registry", Ps::Str(p.registry.clone())), "character map: registry");
    ensure!(defined(&r.info, b"Ordering", Ps::Str(p.ordering.clone())), "character map: ordering");
    ensure!(defined(&r.info, b"Supplement", Ps::Num(p.supplement.to_string())), "character map: supplement");
    let mode = if p.vertical == Some(true) { "1" } else { "0" };
    ensure!(defined(&r.entries, b"WMode", Ps::Num(mode.into())), "character map: writing mode");
    ensure!(r.key == p.name, "character map: defined as {} instead of {}", show(&r.key), show(&p.name));
    let ty = r.entries.iter().find(|e| e.0 == b"CMapType").map(|e| &e.1);
    ensure!(matches!(ty, Some(Ps::Num(n)) if ["0", "1", "2"].contains(&&n[..])), "character map: of type {ty:?}");
    ensure!(b.starts_with(b"%!PS-Adobe-3.0 Resource-CMap"), "character map: not marked as one");
    let line = [b"%%BeginResource: CMap ", &p.name[..], b"\n"].concat();
    ensure!(b.windows(line.len()).any(|w| w == line), "character map: not marked as the resource {}", show(&p.name));
    Ok(())
}

fn one_cmap(c: &Ctx, plan: &PlanCfg) -> Res {
    let p = gen_cmap(c, plan);
    c.ev(|| format!("character map, {} mappings, {}-byte codes", p.maps.len(), 1 + p.wide as usize));
    let (want, b) = wrap(write_cmap(c, &p))?;
    c.digest(&b);
    check_cmap(&p, &want, &b)?;
    if want.len() > 100 {
        c.probe("several_blocks");
    }
    if c.chance(1, 4) {
        let s = settings(c, 50);
        let mut pdf = new_pdf(c, s);
        lib(|| {
            pdf.cmap(Ref::new(3), &b);
        });
        let fin = gen_fin(c, &[3]);
        let doc = match finish(c, pdf, &fin) {
            Ok((b, _)) => b,
            Err(m) => viol!("finishing: panic: {m}"),
        };
        let f = read(&doc)?;
        let o = wrap(f.object(&doc, 3))?;
        check_cmap(&p, &want, o.stream.as_deref().unwrap_or(b""))?;
    }
    Ok(())
}

pub fn c15(c: &Ctx) -> Res {
    let plan = PlanCfg::swarm(c, true, false);
    let n = c.range(1, 3);
    if n == 1 {
        return one_cmap(c, &plan);
    }
    c.set_switch(*c.pick(&[1, 3, 8]));
    let plan = &plan;
    c.run_actors((0..n).map(|_| Box::new(move || one_cmap(c, plan)) as Box<dyn FnOnce() -> Res + Send + '_>).collect())
}

// ---------------------------------------------------------------------------------------------
// C13

pub fn c13(c: &Ctx) -> Res {
    let mut cfg = PlanCfg::swarm(c, true, false);
    cfg.g.big = false;
    if c.draw(2) == 0 {
        return c13_content(c, cfg);
    }
    let mut ids = Ids::new([8, 2, 1, 0], 0);
    let n = c.range(1, 5);
    let plans: Vec<ObjPlan> = (0..n)
        .map(|_| {
            let id = ids.alloc(c);
            gen_obj(c, &cfg, id, 0)
        })
        .collect();
    let mut built: Vec<Built> = vec![];
    for pretty in [true, false] {
        let mut chunk = new_chunk(c, Settings { pretty });
        let mut objs = vec![];
        for p in &plans {
            let (o, out) = write_obj(c, &mut chunk, p);
            if let Outcome::Panic(m) = out {
                viol!("writing object {} (pretty {pretty}): unexpected panic: {m}", p.id);
            }
            objs.push(o);
        }
        built.push(Built { chunk, objs });
    }
    let names = ["pretty", "compact"];
    for (b, n) in built.iter().zip(names) {
        check_chunk(&b.chunk, &b.objs, n)?;
    }
    let (p, q) = (&built[0].chunk, &built[1].chunk);
    same_layouts(p, q, "chunk")?;
    // Merged with one another's, and renumbered.
    let s = settings(c, 50);
    let mut other = build(c, &cfg, &mut ids, c.range(0, 2), s)?;
    let other2 = other.chunk.clone();
    let after = c.draw(2) == 1;
    let (a, b) = if after {
        let mut a = p.clone();
        let mut b = q.clone();
        lib(|| a.extend(&other.chunk));
        lib(|| b.extend(&other.chunk));
        (a, b)
    } else {
        let mut o2 = other2;
        lib(|| other.chunk.extend(p));
        lib(|| o2.extend(q));
        (other.chunk, o2)
    };
    same_layouts(&a, &b, "merged chunk")?;
    let k = *c.pick(&[0, 9, 1000]);
    let m = |r: Ref| Ref::new(if r.get() < i32::MAX - 2000 { r.get() + k } else { r.get() });
    let mut ra = Chunk::with_settings(Settings { pretty: true });
    let mut rb = Chunk::with_settings(Settings { pretty: false });
    lib(|| a.renumber_into(&mut ra, m));
    lib(|| b.renumber_into(&mut rb, m));
    same_layouts(&ra, &rb, "renumbered chunk")?;
    // As documents.
    let mut fa = Pdf::with_settings(Settings { pretty: true });
    let mut fb = Pdf::with_settings(Settings { pretty: false });
    let all: Vec<i32> = a.refs().map(|r| r.get()).collect();
    lib(|| fa.extend(&a));
    lib(|| fb.extend(&b));
    let root = c.draw(2) == 1;
    let cat = all.iter().max().unwrap_or(&0) + 1;
    let mut ids_all = all.clone();
    if root {
        for d in [&mut fa, &mut fb] {
            lib(|| {
                d.catalog(Ref::new(cat)).pages(Ref::new(1));
            });
        }
        ids_all.push(cat);
    }
    let fin = gen_fin(c, &ids_all);
    let mut files = vec![];
    for d in [fa, fb] {
        match finish(c, d, &fin) {
            Ok((b, _)) => files.push(b),
            Err(m) => viol!("finishing: panic: {m}"),
        }
    }
    let (x, y) = (read(&files[0])?, read(&files[1])?);
    ensure!(files[1].len() <= files[0].len(), "the compact document has {} bytes, the pretty one {}", files[1].len(), files[0].len());
    let keys = |f: &File| f.entries.iter().map(|(i, e)| (*i, matches!(e, Entry::Used { .. }))).collect::<Vec<_>>();
    ensure!(keys(&x) == keys(&y), "the two layouts mark different ids in use");
    for k in ["Root", "Info", "ID", "Size"] {
        ensure!(x.trailer.get(k.as_bytes()) == y.trailer.get(k.as_bytes()), "the two layouts differ in /{k}");
    }
    let xs = wrap(scan_objects(&files[0], x.header_len, x.startxref))?;
    let ys = wrap(scan_objects(&files[1], y.header_len, y.startxref))?;
    same_objects(&ys, &xs, &|i| i, "compact document against the pretty one")
}

fn same_layouts(p: &Chunk, q: &Chunk, what: &str) -> Res {
    let a = chunk_objects(p, &format!("pretty {what}"))?;
    let b = chunk_objects(q, &format!("compact {what}"))?;
    same_objects(&b, &a, &|i| i, &format!("compact {what} against the pretty one"))?;
    ensure!(q.len() <= p.len(), "the compact {what} has {} bytes, the pretty one {}", q.len(), p.len());
    let (x, y) = (Lim::of(p.limits()), Lim::of(q.limits()));
    ensure!(x == y, "the pretty {what} reports limits {x:?}, the compact one {y:?}");
    ensure!(p.refs().collect::<Vec<_>>() == q.refs().collect::<Vec<_>>(), "the two layouts of the {what} list different ids");
    Ok(())
}

fn c13_content(c: &Ctx, plan: PlanCfg) -> Res {
    let mut cfg = ContentCfg::swarm(c, true, false);
    cfg.plan = plan;
    cfg.plan.max_steps = cfg.plan.max_steps.min(6);
    let ops = gen_ops(c, &cfg, 0);
    c.ev(|| format!("content stream both ways: {}", clip(&format!("{ops:?}"))));
    let mut out = vec![];
    for pretty in [true, false] {
        let mut k = new_content(c, Settings { pretty });
        let w = wrap(write_content(c, &mut k, &ops))?;
        let buf = finish_content(k);
        if let Err(e) = check_ops(&w.ops, &buf) {
            viol!("content stream (pretty {pretty}): {e}");
        }
        let lim = Lim::of(buf.limits());
        out.push((buf.into_vec(), lim));
    }
    let a = wrap(parse_content(&out[0].0))?;
    let b = wrap(parse_content(&out[1].0))?;
    ensure!(a.len() == b.len(), "the two layouts hold {} and {} operations", a.len(), b.len());
    for (i, (x, y)) in a.iter().zip(&b).enumerate() {
        ensure!(
            x.0 == y.0 && x.1.len() == y.1.len() && x.1.iter().zip(&y.1).all(|(p, q)| pv_eq(p, q)),
            "operation {i} is {} {} in one layout and {} {} in the other",
            clip(&format!("{:?}", x.1)),
            show(&x.0),
            clip(&format!("{:?}", y.1)),
            show(&y.0)
        );
    }
    ensure!(out[0].1 == out[1].1, "the two layouts report limits {:?} and {:?}", out[0].1, out[1].1);
    ensure!(
        out[1].0.len() <= out[0].0.len(),
        "the compact content stream has {} bytes ('{}'), the pretty one {} ('{}')",
        out[1].0.len(),
        show(&out[1].0[..out[1].0.len().min(60)]),
        out[0].0.len(),
        show(&out[0].0[..out[0].0.len().min(60)])
    );
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C16

#[derive(Clone, Debug)]
enum Prog {
    Chunk { s: bool, plans: Vec<ObjPlan>, shift: Option<i32>, merge: Vec<ObjPlan> },
    Content { s: bool, ops: Vec<COp> },
    Cmap(CmapPlan),
    Doc { s: bool, plans: Vec<ObjPlan>, version: Option<(u8, u8)>, id: Option<(Vec<u8>, Vec<u8>)>, fin: Fin },
}

#[derive(Clone, PartialEq)]
struct Out {
    bytes: Vec<u8>,
    refs: Vec<i32>,
    lim: Option<Lim>,
}

#[derive(Clone, Debug)]
struct How {
    cap: Option<usize>,
    reserve: Vec<usize>,
}

fn gen_prog(c: &Ctx, cfg: &ContentCfg) -> Prog {
    let p = &cfg.plan;
    let s = c.draw(2) == 0;
    let mut id = 0;
    let mut plans = |n: usize| -> Vec<ObjPlan> {
        (0..n)
            .map(|_| {
                id += 1 + (c.draw(4) == 3) as i32 * c.draw(30) as i32;
                gen_obj(c, p, id, 0)
            })
            .collect()
    };
    match c.weighted(&[4, 4, 2, 3]) {
        0 => {
            let shift = if c.chance(1, 3) { Some(*c.pick(&[1, 100, 70_000])) } else { None };
            let merge = if c.chance(1, 3) { plans(c.range(0, 3)) } else { vec![] };
            Prog::Chunk { s, plans: plans(c.range(1, 5)), shift, merge }
        }
        1 => Prog::Content { s, ops: gen_ops(c, cfg, 0) },
        2 => Prog::Cmap(gen_cmap(c, p)),
        _ => {
            let v = plans(c.range(0, 4));
            let ids: Vec<i32> = v.iter().map(|o| o.id).collect();
            Prog::Doc {
                s,
                version: if c.draw(2) == 1 { Some((c.draw(10) as u8, c.draw(10) as u8)) } else { None },
                id: if c.draw(2) == 1 { Some((gen_bytes(c, false), gen_bytes(c, false))) } else { None },
                fin: gen_fin(c, &ids),
                plans: v,
            }
        }
    }
}

fn run_prog(c: &Ctx, p: &Prog, how: &How) -> Res<Out> {
    let mut res = how.reserve.iter();
    let mut objects = |chunk: &mut Chunk, plans: &[ObjPlan]| -> Res {
        for o in plans {
            if let Some(n) = res.next() {
                lib(|| chunk.reserve(*n));
            }
            let (_, out) = write_obj(c, chunk, o);
            if let Outcome::Panic(m) = out {
                viol!("writing object {}: unexpected panic: {m}", o.id);
            }
            c.yield_now();
        }
        Ok(())
    };
    Ok(match p {
        Prog::Chunk { s, plans, shift, merge } => {
            let s = Settings { pretty: *s };
            let mut chunk = match how.cap {
                Some(n) => Chunk::with_settings_and_capacity(s, n),
                None => Chunk::with_settings(s),
            };
            objects(&mut chunk, plans)?;
            if !merge.is_empty() {
                let mut o = Chunk::with_settings(s);
                objects(&mut o, merge)?;
                lib(|| chunk.extend(&o));
            }
            if let Some(k) = shift {
                let k = *k;
                chunk = lib(|| {
                    chunk.renumber(|r| {
                        harness(|| c.yield_now());
                        Ref::new(if r.get() < i32::MAX - 100_000 { r.get() + k } else { r.get() })
                    })
                });
            }
            Out { bytes: chunk.as_bytes().to_vec(), refs: chunk.refs().map(|r| r.get()).collect(), lim: Some(Lim::of(chunk.limits())) }
        }
        Prog::Content { s, ops } => {
            let s = Settings { pretty: *s };
            let mut k = match how.cap {
                Some(n) => Content::with_settings_and_capacity(s, n),
                None => Content::with_settings(s),
            };
            if let Some(n) = how.reserve.first() {
                lib(|| k.reserve(*n));
            }
            wrap(write_content(c, &mut k, ops))?;
            let d = k.state_nesting_depth() as i32;
            let b = finish_content(k);
            Out { lim: Some(Lim::of(b.limits())), bytes: b.into_vec(), refs: vec![d] }
        }
        Prog::Cmap(p) => {
            let (_, b) = wrap(write_cmap(c, p))?;
            Out { bytes: b, refs: vec![], lim: None }
        }
        Prog::Doc { s, plans, version, id, fin } => {
            let s = Settings { pretty: *s };
            let mut pdf = match how.cap {
                Some(n) => Pdf::with_settings_and_capacity(s, n),
                None => Pdf::with_settings(s),
            };
            objects(&mut pdf, plans)?;
            if let Some((a, b)) = version {
                lib(|| pdf.set_version(*a, *b));
            }
            if let Some(i) = id {
                let i = i.clone();
                lib(|| pdf.set_file_id(i));
            }
            let refs = pdf.refs().map(|r| r.get()).collect();
            let lim = Lim::of(pdf.limits());
            c.yield_now();
            let b = match finish(c, pdf, fin) {
                Ok((b, _)) => b,
                Err(m) => viol!("finishing: panic: {m}"),
            };
            Out { bytes: b, refs, lim: Some(lim) }
        }
    })
}

/// Something that fails, to happen before and next to everything else.
fn saboteur(c: &Ctx, cfg: &PlanCfg) -> Res {
    for _ in 0..c.range(1, 4) {
        let mut chunk = Chunk::with_capacity(c.range(0, 40));
        let plan = gen_obj(c, cfg, 1 + c.draw(90) as i32, 0);
        alloc::arm(c.range(0, 12) as u64);
        let (_, out) = write_obj(c, &mut chunk, &plan);
        if alloc::disarm() {
            c.fault("alloc_failure_in_other_builder");
        }
        if let Outcome::Panic(m) = out {
            viol!("writing object {}: unexpected panic: {m}", plan.id);
        }
        let n = c.draw(4) as usize;
        let mut seen = 0;
        let (_, out) = guarded(|| {
            lib(|| {
                chunk.renumber(|r| {
                    harness(|| {
                        if seen == n {
                            raise(c, "mapping_panic_in_other_builder");
                        }
                        seen += 1;
                        r
                    })
                })
            })
        });
        if let Outcome::Panic(m) = out {
            viol!("renumbering: unexpected panic: {m}");
        }
        c.yield_now();
    }
    Ok(())
}

fn differ(what: &str, i: usize, p: &Prog, a: &Out, b: &Out) -> Res {
    let kind = match p {
        Prog::Chunk { .. } => "chunk",
        Prog::Content { .. } => "content stream",
        Prog::Cmap(_) => "character map",
        Prog::Doc { .. } => "document",
    };
    if a.bytes != b.bytes {
        let at = a.bytes.iter().zip(&b.bytes).position(|(x, y)| x != y).unwrap_or(a.bytes.len().min(b.bytes.len()));
        let lo = at.saturating_sub(20);
        viol!(
            "{kind} {i}: {what}, byte {at} differs: alone '{}' ({} bytes), here '{}' ({} bytes)",
            show(&a.bytes[lo..(at + 30).min(a.bytes.len())]),
            a.bytes.len(),
            show(&b.bytes[lo..(at + 30).min(b.bytes.len())]),
            b.bytes.len()
        );
    }
    ensure!(a.refs == b.refs, "{kind} {i}: {what}, it reports {:?} instead of {:?}", b.refs, a.refs);
    ensure!(a.lim == b.lim, "{kind} {i}: {what}, its limits are {:?} instead of {:?}", b.lim, a.lim);
    Ok(())
}

pub fn c16(c: &Ctx) -> Res {
    let mut cfg = ContentCfg::swarm(c, true, false);
    cfg.max_ops = cfg.max_ops.min(30);
    cfg.plan.p_yield = *c.pick(&[20, 50]);
    cfg.plan.deep = false;
    let n = c.range(1, 4);
    let progs: Vec<Prog> = (0..n).map(|_| gen_prog(c, &cfg)).collect();
    let plain = How { cap: None, reserve: vec![] };
    c.ev(|| format!("{n} builders, each alone first"));
    let mut alone: Vec<Out> = vec![];
    for p in &progs {
        alone.push(run_prog(c, p, &plain)?);
    }
    // On this thread, with the others' objects built at its scheduling points.
    let side: Vec<ObjPlan> = progs
        .iter()
        .flat_map(|p| match p {
            Prog::Chunk { plans, .. } | Prog::Doc { plans, .. } => plans.clone(),
            _ => vec![],
        })
        .collect();
    if !side.is_empty() && c.draw(2) == 1 {
        c.ev(|| "interleaved on one thread".into());
        let i = c.range(0, n - 1);
        let mut bytes = vec![];
        for o in &side {
            let mut k = Chunk::new();
            let _ = write_obj(c, &mut k, o);
            bytes.push(k.as_bytes().to_vec());
        }
        set_side(side);
        let r = run_prog(c, &progs[i], &plain);
        let q = take_side();
        differ("with others interleaved on the same thread", i, &progs[i], &alone[i], &r?)?;
        for (j, b) in q.map(|q| q.made).unwrap_or_default() {
            ensure!(b == bytes[j], "object {j}, written at another builder's scheduling point, has other bytes than alone");
        }
    }
    let hows: Vec<How> = (0..n)
        .map(|_| How {
            cap: match c.draw(4) {
                0 => None,
                1 => Some(0),
                _ => Some(capacity(c)),
            },
            reserve: (0..c.range(0, 4)).map(|_| capacity(c)).collect(),
        })
        .collect();
    let sabotage = c.draw(3);
    if sabotage == 1 {
        saboteur(c, &cfg.plan)?;
    }
    c.set_switch(*c.pick(&[1, 2, 5, 0]));
    let slots: Vec<Mutex<Option<Out>>> = (0..n).map(|_| Mutex::new(None)).collect();
    c.ev(|| "now all together".into());
    let mut actors: Vec<Box<dyn FnOnce() -> Res + Send + '_>> = vec![];
    for i in 0..n {
        let (progs, hows, slots) = (&progs, &hows, &slots);
        actors.push(Box::new(move || {
            let o = run_prog(c, &progs[i], &hows[i])?;
            *slots[i].lock().unwrap() = Some(o);
            Ok(())
        }));
    }
    if sabotage == 2 {
        let plan = &cfg.plan;
        actors.push(Box::new(move || saboteur(c, plan)));
    }
    c.run_actors(actors)?;
    for (i, s) in slots.into_iter().enumerate() {
        let Some(o) = s.into_inner().unwrap() else { viol!("builder {i} did not finish") };
        differ("built next to others, with another capacity", i, &progs[i], &alone[i], &o)?;
    }
    Ok(())
}
