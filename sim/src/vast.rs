//! Documents past the sizes where counters, ids and offsets outgrow 16 and 24 bits. Rare, since each run takes
//! tens to hundreds of milliseconds.

use std::collections::BTreeSet;

use pdf_writer::*;

use crate::alloc::lib;
use crate::ctx::{guarded, Ctx, Outcome, Res};
use crate::model::{E, Obj, V};
use crate::oracle::*;
use crate::reader::*;
use crate::world::*;
use crate::{ensure, viol};

fn must<R>(what: &str, f: impl FnOnce() -> R) -> Res<R> {
    let (r, out) = guarded(|| lib(f));
    match (r, out) {
        (Some(r), Outcome::Done) => Ok(r),
        (_, out) => viol!("{what}: unexpected panic: {out:?}"),
    }
}

/// The `i`-th object and what it should read as.
fn tiny(chunk: &mut Chunk, i: usize, id: i32, salt: u32) -> Obj {
    let other = 1 + (i as i32 * 7 + salt as i32) % 70_000;
    let r = Ref::new(id);
    let text = [b'a' + (i % 26) as u8, b' ', b'0', b' ', b'R'];
    let body = match (i + salt as usize) % 7 {
        0 => {
            chunk.indirect(r).primitive(i as i32);
            V::Int(i as i32)
        }
        1 => {
            chunk.indirect(r).primitive(Ref::new(other));
            V::Ref(other)
        }
        2 => {
            chunk.indirect(r).primitive(Str(&text));
            V::Str(text.to_vec())
        }
        3 => {
            chunk.indirect(r).dict().pair(Name(b"K"), Ref::new(other));
            V::Dict(vec![E::pair(b"K", V::Ref(other))])
        }
        4 => {
            chunk.indirect(r).array().item(Ref::new(other)).item(Name(&text[..1]));
            V::Arr(vec![E::item(V::Ref(other)), E::item(V::Name(text[..1].to_vec()))])
        }
        5 => {
            chunk.indirect(r).primitive(Name(&text));
            V::Name(text.to_vec())
        }
        _ => {
            chunk.indirect(r).dict();
            V::Dict(vec![])
        }
    };
    Obj { id, body, stream: None, tainted: false }
}

fn same_refs(chunk: &Chunk, objs: &[Obj], what: &str) -> Res {
    let got: Vec<i32> = chunk.refs().map(|r| r.get()).collect();
    ensure!(chunk.refs().len() == objs.len(), "{what}: claims {} ids, {} objects were written", chunk.refs().len(), objs.len());
    if let Some(at) = (0..objs.len()).find(|&i| got.get(i) != Some(&objs[i].id)) {
        viol!("{what}: id number {at} is listed as {:?} instead of {}", got.get(at), objs[at].id);
    }
    ensure!(got.len() == objs.len(), "{what}: lists {} ids, {} objects were written", got.len(), objs.len());
    Ok(())
}

/// A document of tens of thousands of objects, put together from few or many chunks.
pub fn many_objects(c: &Ctx) -> Res {
    let n = *c.pick(&[65_536usize, 65_535, 65_537, 66_000, 70_001, 32_768, 131_073]);
    let n = if n == 131_073 && c.draw(4) > 0 { 66_100 } else { n };
    c.probe("vast_document");
    let ids: Vec<i32> = match c.draw(5) {
        0 => (1..=n as i32).collect(),
        1 => (1..=n as i32).rev().collect(),
        2 => (0..n as i32).map(|i| 1 + 2 * i).collect(),
        3 => {
            let from = 1 + c.draw(70_000) as i32;
            (0..n as i32).map(|i| from + i).collect()
        }
        _ => {
            // A permutation with long jumps.
            let step = *c.pick(&[7usize, 4_099, 32_771, 100_003]);
            let step = if n % step == 0 { 1 } else { step };
            (0..n).map(|i| 1 + (i * step % n) as i32).collect()
        }
    };
    let parts = *c.pick(&[1usize, 2, 3, 300, 8_000]);
    let salt = c.draw(7);
    let s = settings(c, 50);
    c.ev(|| format!("{n} objects with ids {}, {}, … {} in {parts} chunks", ids[0], ids[1], ids[n - 1]));
    c.count_objects(n as u64);

    // Producers fill chunks; the last ones may merge first.
    let size = n.div_ceil(parts);
    let mut built: Vec<(Chunk, Vec<Obj>)> = vec![];
    let mut lim = Lim::default();
    for (k, part) in ids.chunks(size).enumerate() {
        let mut ch = if parts < 10 { new_chunk(c, s) } else { Chunk::with_settings_and_capacity(s, 64) };
        let objs = must("filling a chunk", || part.iter().enumerate().map(|(j, &id)| tiny(&mut ch, k * size + j, id, salt)).collect::<Vec<_>>())?;
        same_refs(&ch, &objs, "a filled chunk")?;
        let got = Lim::of(ch.limits());
        let present = match token_maxima(ch.as_bytes(), 0, ch.len()) {
            Ok(l) => l,
            Err(e) => viol!("a filled chunk: {e}"),
        };
        ensure!(got == present, "limits report {got:?}; present in the bytes {present:?}");
        lim = lim.max(got);
        built.push((ch, objs));
    }
    if c.draw(2) == 1 {
        built.reverse();
    }

    // A renumbering of everything, sometimes.
    let renumber = c.draw(3);
    let shift = 1 + c.draw(100_000) as i32;
    let top = *ids.iter().max().unwrap_or(&0);
    let f: Box<dyn Fn(i32) -> i32> = match renumber {
        0 => Box::new(move |r| r + shift),
        1 => Box::new(move |r| if r <= top { top + 1 - r } else { r }),
        _ => Box::new(|r| r),
    };
    let mut pdf = new_pdf(c, s);
    let mut objs: Vec<Obj> = vec![];
    let via = c.draw(3);
    let add = |pdf: &mut Pdf, ch: &Chunk| -> Res {
        match renumber {
            2 => must("merging", || pdf.extend(ch)),
            _ if via == 1 => must("renumbering", || pdf.extend(&ch.renumber(|r| Ref::new(f(r.get()))))),
            _ => must("renumbering into the document", || ch.renumber_into(pdf, |r| Ref::new(f(r.get())))),
        }
    };
    if via == 2 && parts > 1 {
        let mut mid = new_chunk(c, s);
        for (ch, o) in &built {
            must("merging", || mid.extend(ch))?;
            objs.extend(o.iter().cloned());
        }
        same_refs(&mid, &objs, "merged chunk")?;
        add(&mut pdf, &mid)?;
    } else {
        for (ch, o) in &built {
            add(&mut pdf, ch)?;
            objs.extend(o.iter().cloned());
        }
    }
    if renumber < 2 {
        for o in objs.iter_mut() {
            o.id = f(o.id);
            o.body = crate::model::map_refs(&o.body, &mut |r| f(r));
        }
        c.probe("vast_renumbered");
    }
    // The document goes on writing.
    let after = 1 + objs.iter().map(|o| o.id).max().unwrap_or(0);
    objs.push(must("writing after the merges", || tiny(&mut pdf, 3, after, salt))?);
    let mut dup = None;
    if c.draw(4) == 0 {
        let id = objs[c.range(0, objs.len() - 1)].id;
        objs.push(must("writing after the merges", || tiny(&mut pdf, 2, id, salt))?);
        dup = Some(id);
    }
    same_refs(&pdf, &objs, "document")?;
    let got = Lim::of(pdf.limits());
    let order: Vec<i32> = objs.iter().map(|o| o.id).collect();
    let fin = gen_fin(c, &order);
    c.ev(|| format!("finish {fin:?}; reused id {dup:?}"));
    let body_len = pdf.len();
    match (finish(c, pdf, &fin), dup) {
        (Ok(_), Some(d)) => viol!("finishing succeeded although id {d} is used twice"),
        (Err(m), Some(d)) => {
            let named = m.split(|ch: char| !ch.is_ascii_digit()).any(|t| t.parse() == Ok(d));
            ensure!(named, "the panic message '{m}' does not name the reused id {d}");
            c.probe("vast_rejected");
        }
        (Err(m), None) => viol!("finishing: panic: {m}"),
        (Ok((b, given)), None) => {
            let f = read(&b)?;
            ensure!(f.startxref == body_len, "startxref is {} but the section was started at {body_len}", f.startxref);
            let present = match token_maxima(&b, f.header_len, f.startxref) {
                Ok(l) => l.max(lim),
                Err(e) => viol!("document: {e}"),
            };
            ensure!(got == present, "limits report {got:?}; present in the bytes and sources {present:?}");
            check_structure(&b, &f, &order, fin.xref_id())?;
            let mut used: BTreeSet<i32> = order.iter().copied().collect();
            used.extend(fin.xref_id());
            let size = used.last().copied().unwrap_or(0) + 1;
            ensure!(f.trailer.get(b"Size").and_then(PV::int) == Some(size as i64), "declared size {:?} for highest id {}", f.trailer.get(b"Size"), size - 1);
            check_free_list(&f, &used, size)?;
            check_objects(&b, &f, &objs)?;
            drop(given);
        }
    }
    Ok(())
}

/// A document of more than 2^24 bytes with objects before, at and after that offset.
pub fn many_bytes(c: &Ctx) -> Res {
    c.probe("huge_document");
    let s = settings(c, 50);
    let mut objs: Vec<Obj> = vec![];
    let mut pdf = new_pdf(c, s);
    let mut id = c.draw(5) as i32;
    let mut next = |c: &Ctx| {
        id += 1 + (c.draw(4) / 3) as i32;
        id
    };
    let target = (1usize << 24) + c.range(0, 300_000) - 2_000;
    let parts = c.range(1, 4);
    let small = |pdf: &mut Chunk, objs: &mut Vec<Obj>, n: usize, c: &Ctx, next: &mut dyn FnMut(&Ctx) -> i32| {
        for i in 0..n {
            let id = next(c);
            objs.push(lib(|| tiny(pdf, i, id, 0)));
        }
    };
    small(&mut pdf, &mut objs, c.range(0, 4), c, &mut next);
    for k in 0..parts {
        let left = target.saturating_sub(pdf.len());
        let len = if k + 1 == parts { left } else { left / 2 };
        let mut data = vec![b'x'; len];
        for (at, w) in [(0, &b"endstream endobj 1 0 obj"[..]), (len / 2, b"startxref\n0\n%%EOF"), (len.saturating_sub(9), b"endobj\n\n")] {
            if at + w.len() <= len {
                data[at..at + w.len()].copy_from_slice(w);
            }
        }
        let sid = next(c);
        let merge = c.draw(2) == 1;
        let mut part = new_chunk(c, s);
        let to: &mut Chunk = if merge { &mut part } else { &mut pdf };
        must("a long stream", || drop(to.stream(Ref::new(sid), &data)))?;
        objs.push(Obj { id: sid, body: V::Dict(vec![E::pair(b"Length", V::Int(len as i32))]), stream: Some(data), tainted: false });
        small(to, &mut objs, c.range(0, 4), c, &mut next);
        if merge {
            if c.draw(2) == 1 {
                part = must("renumbering a long stream", || part.renumber(|r| r))?;
            }
            must("merging a long stream", || pdf.extend(&part))?;
        }
        small(&mut pdf, &mut objs, c.range(0, 3), c, &mut next);
    }
    // More chunks on top, so that a merge lands beyond the boundary.
    let mut tail = new_chunk(c, s);
    small(&mut tail, &mut objs, c.range(1, 200), c, &mut next);
    must("merging", || pdf.extend(&tail))?;
    small(&mut pdf, &mut objs, c.range(0, 3), c, &mut next);
    same_refs(&pdf, &objs, "document")?;
    let order: Vec<i32> = objs.iter().map(|o| o.id).collect();
    let got = Lim::of(pdf.limits());
    let fin = gen_fin(c, &order);
    // Filters other than Flate-less ones would only multiply the cost.
    let (b, _) = match finish(c, pdf, &fin) {
        Ok(x) => x,
        Err(m) => viol!("finishing: panic: {m}"),
    };
    let f = read(&b)?;
    check_structure(&b, &f, &order, fin.xref_id())?;
    check_objects(&b, &f, &objs)?;
    let present = match token_maxima(&b, f.header_len, f.startxref) {
        Ok(l) => l,
        Err(e) => viol!("document: {e}"),
    };
    ensure!(got == present, "limits report {got:?}; present in the bytes {present:?}");
    Ok(())
}

/// Either of them, at the given odds: one in `objects` and one in `bytes` (0: never).
pub fn sometimes(c: &Ctx, objects: u32, bytes: u32) -> Option<Res> {
    if objects > 0 && c.chance(1, objects) {
        return Some(many_objects(c));
    }
    if bytes > 0 && c.chance(1, bytes) {
        return Some(many_bytes(c));
    }
    None
}

/// A content stream with tens of thousands of saved states and operations.
pub fn deep_content(c: &Ctx) -> Res {
    c.probe("deep_content");
    let s = settings(c, 50);
    let n = *c.pick(&[65_536usize, 255, 256, 257, 65_535, 65_537, 70_000]);
    let rounds = c.range(1, 2);
    let text = c.draw(2) == 1;
    let mut k = crate::content::new_content(c, s);
    let mut want: Vec<&[u8]> = vec![];
    for _ in 0..rounds {
        for i in 0..n {
            must("saving the state", || {
                k.save_state();
            })?;
            want.push(b"q");
            if text && i % 1000 == 999 {
                must("a text object", || {
                    k.begin_text().show(Str(b"q Q")).end_text();
                })?;
                want.extend([&b"BT"[..], b"Tj", b"ET"]);
            }
            if i % 4096 == 4095 || i + 1 == n {
                ensure!(k.state_nesting_depth() == i + 1, "nesting depth is {} after {} saves", k.state_nesting_depth(), i + 1);
            }
        }
        for i in (0..n).rev() {
            must("restoring the state", || {
                k.restore_state();
            })?;
            want.push(b"Q");
            if i % 4096 == 0 {
                ensure!(k.state_nesting_depth() == i, "nesting depth is {} with {i} saves open", k.state_nesting_depth());
            }
        }
    }
    let buf = must("finishing a content stream", || k.finish())?;
    let ops = match crate::content::parse_content(buf.as_slice()) {
        Ok(o) => o,
        Err(e) => viol!("content stream: {e}"),
    };
    ensure!(ops.len() == want.len(), "{} operations read back, {} were written", ops.len(), want.len());
    if let Some(at) = (0..want.len()).find(|&i| ops[i].0 != want[i]) {
        viol!("operation {at} reads back as {} instead of {}", show(&ops[at].0), show(want[at]));
    }
    Ok(())
}

pub fn any(c: &Ctx) -> Res {
    match c.draw(5) {
        4 => counters(c),
        0 => many_bytes(c),
        1 => deep_content(c),
        _ => many_objects(c),
    }
}

/// Counters of arrays, dictionaries, their typed forms and chunks, asked along the way past 2^16 entries.
pub fn counters(c: &Ctx) -> Res {
    c.probe("vast_counters");
    let s = settings(c, 50);
    let n = *c.pick(&[65_537usize, 66_000, 32_769, 300, 131_100]);
    let every = *c.pick(&[1usize, 7, 255, 4_096]);
    let bulk = c.draw(3) == 0;
    let mut chunk = new_chunk(c, s);
    let mut bad: Option<String> = None;
    let mut ask = |what: &str, at: usize, len: i32, empty: bool| {
        if (len != at as i32 || empty != (at == 0)) && bad.is_none() {
            bad = Some(format!("{what}: reports length {len} and empty {empty} after {at} entries"));
        }
    };
    let kind = c.draw(5);
    let mut data: Vec<u8> = vec![];
    must("counting", || match kind {
        0 => {
            let mut a = chunk.indirect(Ref::new(1)).array();
            if bulk {
                a.items(0..n as i32);
            } else {
                for i in 0..n {
                    if i % every == 0 {
                        ask("array", i, a.len(), a.is_empty());
                    }
                    match i % 3 {
                        0 => drop(a.push().dict()),
                        1 => drop(a.push().array()),
                        _ => {
                            a.item(i as i32);
                        }
                    }
                }
            }
            ask("array", n, a.len(), a.is_empty());
        }
        1 => {
            let mut d = chunk.indirect(Ref::new(1)).dict();
            for i in 0..n {
                if i % every == 0 {
                    ask("dictionary", i, d.len(), d.is_empty());
                }
                match i % 3 {
                    0 => drop(d.insert(Name(b"D")).dict()),
                    1 => drop(d.insert(Name(b"A")).array()),
                    _ => {
                        d.pair(Name(b"P"), i as i32);
                    }
                }
            }
            ask("dictionary", n, d.len(), d.is_empty());
        }
        2 => {
            let mut a = chunk.indirect(Ref::new(1)).array().typed::<i32>();
            if bulk {
                a.items(0..n as i32);
            } else {
                for i in 0..n {
                    if i % every == 0 {
                        ask("typed array", i, a.len(), a.is_empty());
                    }
                    a.item(i as i32);
                }
            }
            ask("typed array", n, a.len(), a.is_empty());
        }
        3 => {
            let mut d = chunk.indirect(Ref::new(1)).dict().typed::<i32>();
            if bulk {
                d.pairs((0..n).map(|i| (Name(b"N"), i as i32)));
            } else {
                for i in 0..n {
                    if i % every == 0 {
                        ask("typed dictionary", i, d.len(), d.is_empty());
                    }
                    d.pair(Name(b"N"), i as i32);
                }
            }
            ask("typed dictionary", n, d.len(), d.is_empty());
        }
        _ => {
            data = vec![b'x'; n];
            let mut st = chunk.stream(Ref::new(1), &data);
            for i in 0..n {
                if i % every == 0 {
                    ask("stream dictionary", 1 + i, st.len(), st.is_empty());
                }
                st.pair(Name(b"S"), true);
            }
            ask("stream dictionary", 1 + n, st.len(), st.is_empty());
        }
    })?;
    if let Some(m) = bad {
        viol!("{m}");
    }
    let objs = match scan_objects(chunk.as_bytes(), 0, chunk.len()) {
        Ok(o) => o,
        Err(e) => viol!("{n} entries: {e}"),
    };
    let got = match objs.first().map(|o| &o.body) {
        Some(PV::Arr(xs)) => xs.len(),
        Some(PV::Dict(xs)) => xs.len() - (kind == 4) as usize,
        _ => 0,
    };
    ensure!(objs.len() == 1 && got == n, "{n} entries were written, {got} read back");
    let l = Lim::of(chunk.limits());
    let most = if kind == 0 || kind == 2 { l.arr } else { l.dict };
    ensure!(most == n + (kind == 4) as usize, "{n} entries: limits say {most}");
    Ok(())
}
