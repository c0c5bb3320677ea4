//! Calls within their contract return (C25): every other scenario, looked at for panics only, and the far ends of
//! sizes, nestings and emptiness.

use pdf_writer::types::{SystemInfo, UnicodeCmap};
use pdf_writer::writers::*;
use pdf_writer::*;

use crate::alloc::lib;
use crate::builders;
use crate::ctx::{guarded, Ctx, Outcome, Res};
use crate::merging;
use crate::model::{clip, gen_date, matches, nm, E, V};
use crate::oracle::*;
use crate::props;
use crate::reader::*;
use crate::world::*;
use crate::{ensure, viol};

struct Move<T>(T);
// The spawning thread waits in `join`, so what is moved is never used by two threads at once.
unsafe impl<T> Send for Move<T> {}
impl<T> Move<T> {
    fn take(self) -> T {
        self.0
    }
}

/// Run library code on a stack of ordinary size: what it needs must not grow with what it is given.
fn small_stack<R>(f: impl FnOnce() -> R) -> R {
    let f = Move(f);
    let r = std::thread::scope(|t| {
        std::thread::Builder::new().stack_size(1 << 20).spawn_scoped(t, move || Move(lib(f.take()))).unwrap().join()
    });
    r.unwrap_or_else(|p| std::panic::resume_unwind(p)).0
}

/// Run library code that has every right to succeed, on a stack of ordinary size.
fn must<R>(what: &str, f: impl FnOnce() -> R) -> Res<R> {
    must_deep(what, || small_stack(f))
}

/// The same for calls the harness itself nests.
fn must_deep<R>(what: &str, f: impl FnOnce() -> R) -> Res<R> {
    let (r, out) = guarded(|| lib(f));
    match (r, out) {
        (Some(r), Outcome::Done) => Ok(r),
        (_, out) => viol!("{what}: unexpected panic: {out:?}"),
    }
}

fn nest(o: Obj<'_>, depth: usize, mask: u64, extra: usize) {
    if depth == 0 {
        return o.primitive(Null);
    }
    if mask >> (depth % 64) & 1 == 1 {
        let mut a = o.array();
        nest(a.push(), depth - 1, mask, extra);
        if depth % 100 < extra {
            a.item(Name(b"A")).item(1);
        }
    } else {
        let mut d = o.dict();
        nest(d.insert(Name(b"D")), depth - 1, mask, extra);
        if depth % 100 < extra {
            d.pair(Name(b"E"), Str(b")"));
        }
    }
}

/// What `nest` writes.
fn nested(depth: usize, mask: u64, extra: usize) -> V {
    if depth == 0 {
        return V::Null;
    }
    let inner = nested(depth - 1, mask, extra);
    let more = depth % 100 < extra;
    if mask >> (depth % 64) & 1 == 1 {
        let mut es = vec![E::item(inner)];
        if more {
            es.extend([E::item(nm("A")), E::item(V::Int(1))]);
        }
        V::Arr(es)
    } else {
        let mut es = vec![E::pair(b"D", inner)];
        if more {
            es.push(E::pair(b"E", V::Str(b")".to_vec())));
        }
        V::Dict(es)
    }
}

fn sizes(c: &Ctx) -> usize {
    match c.draw(3) {
        0 => c.range(65_530, 65_540),
        1 => c.range(32_760, 32_770),
        _ => c.range(1000, 150_000),
    }
}

fn read_all(chunk: &Chunk, n: usize, what: &str) -> Res<Vec<PObj>> {
    match scan_objects(chunk.as_bytes(), 0, chunk.len()) {
        Ok(v) => {
            ensure!(v.len() == n, "{what}: {} objects read back instead of {n}", v.len());
            Ok(v)
        }
        Err(e) => viol!("{what}: {e}"),
    }
}

fn finish_all(c: &Ctx, pdf: &dyn Fn() -> Pdf, ids: &[i32]) -> Res {
    let x = fresh_id(c, ids);
    must("finishing", || pdf().finish())?;
    must("finishing with a stream", || pdf().finish_with_xref_stream(Ref::new(x)))?;
    for fin in [Fin::Table, Fin::Stream(x), gen_filtered(c, ids)] {
        let p = must("building", pdf)?;
        match finish(c, p, &fin) {
            Ok((b, _)) => {
                let f = read(&b)?;
                check_structure(&b, &f, ids, fin.xref_id())?;
            }
            Err(m) => viol!("finishing as {fin:?}: panic: {m}"),
        }
    }
    Ok(())
}

pub fn extremes(c: &Ctx) -> Res {
    let s = settings(c, 50);
    match c.draw(6) {
        0 => {
            let n = *c.pick(&[200usize, 127, 128, 129, 255, 256, 257, 1000, 3000, 30_000]);
            let (mask, extra) = ((c.draw(u32::MAX) as u64) << 32 | c.draw(u32::MAX) as u64, c.range(0, 3));
            let mut chunk = new_chunk(c, s);
            must_deep(&format!("{n} nested containers"), || nest(chunk.indirect(Ref::new(1)), n, mask, extra))?;
            c.probe("deep_nest");
            if n <= 300 {
                let v = read_all(&chunk, 1, "deep nest")?;
                if let Err(e) = matches(&nested(n, mask, extra), &v[0].body, &mut vec![]) {
                    viol!("{n} nested containers: {}", clip(&e));
                }
            }
            let out = must("renumbering a deep nest", || chunk.renumber(|r| r.next()))?;
            ensure!(out.refs().collect::<Vec<_>>() == [Ref::new(2)], "renumbering a deep nest lost it");
        }
        1 => {
            let n = sizes(c);
            let mut chunk = new_chunk(c, s);
            let kind = c.draw(7);
            if kind > 3 {
                must(&format!("a dictionary of {n} entries"), || {
                    let mut d = chunk.indirect(Ref::new(1)).dict();
                    match kind {
                        4 => (0..n).for_each(|i| {
                            d.pair(Name(format!("K{i}").as_bytes()), i as i32);
                        }),
                        5 => drop(d.typed::<Ref>().pairs((0..n).map(|i| (Name(b"Same"), Ref::new(1 + i as i32))))),
                        _ => (0..n).for_each(|i| drop(d.insert(Name(if i % 2 == 0 { b"A" } else { b"" })).array())),
                    }
                })?;
                let v = read_all(&chunk, 1, "long dictionary")?;
                ensure!(matches!(&v[0].body, PV::Dict(xs) if xs.len() == n), "a dictionary of {n} entries reads back otherwise");
                ensure!(chunk.limits().dict_entries() == n, "a dictionary of {n} entries: limits say {}", chunk.limits().dict_entries());
                let out = must("renumbering it", || chunk.renumber(|r| r))?;
                let w = read_all(&out, 1, "renumbered long dictionary")?;
                ensure!(v[0].body == w[0].body, "renumbering changed a long dictionary");
                c.probe("long_dictionary");
                return Ok(());
            }
            must(&format!("an array of {n} items"), || {
                let mut a = chunk.indirect(Ref::new(1)).array();
                match kind {
                    0 => drop(a.items(0..n as i32)),
                    1 => drop(a.items((0..n).map(|i| i as f32 / 3.0))),
                    2 => drop(a.items((0..n).map(|_| Name(b"")))),
                    _ => drop(a.items((0..n).map(|i| Ref::new(1 + i as i32)))),
                }
            })?;
            let v = read_all(&chunk, 1, "long array")?;
            ensure!(matches!(&v[0].body, PV::Arr(xs) if xs.len() == n), "an array of {n} items reads back otherwise");
            ensure!(chunk.limits().array_len() == n, "an array of {n} items: limits say {}", chunk.limits().array_len());
            must("renumbering it", || chunk.renumber(|r| r))?;
            c.probe("long_array");
        }
        2 => {
            let n = sizes(c);
            let mut chunk = new_chunk(c, s);
            let fill: u8 = *c.pick(&[b'(', b')', b'a', b'\\', 0xff, 0, b'R', b's', b' ']);
            let mut data = vec![fill; n];
            for _ in 0..c.range(0, 3) {
                let at = c.range(0, n - 1);
                data[at] = *c.pick(&[b'(', b')', b'\\', 0x80, b'\r', b'z']);
            }
            if c.draw(3) == 0 {
                // Parentheses nested as deeply as the text is long, balanced or nearly so.
                let inner = c.range(0, 2);
                let open = (n - inner) / 2;
                data[..open].fill(b'(');
                data[open..open + inner].fill(b'x');
                data[open + inner..].fill(b')');
                c.probe("deep_parentheses");
            }
            let text: String = data.iter().map(|&b| if b < 128 { b as char } else { *['é', '😀', '\u{fffd}'].get(b as usize % 3).unwrap() }).collect();
            must(&format!("texts of {n} bytes"), || {
                chunk.indirect(Ref::new(1)).primitive(Str(&data));
                chunk.indirect(Ref::new(2)).primitive(TextStr(&text));
                chunk.indirect(Ref::new(3)).primitive(Name(&data));
                chunk.indirect(Ref::new(4)).dict().pair(Name(&data), Str(&data));
                chunk.stream(Ref::new(5), &data);
            })?;
            let v = read_all(&chunk, 5, "long texts")?;
            ensure!(v[0].body == PV::Str(data.clone()) && v[2].body == PV::Name(data.clone()), "long texts read back otherwise");
            let out = must("renumbering long texts", || chunk.renumber(|r| r))?;
            let w = read_all(&out, 5, "renumbered long texts")?;
            ensure!(v.iter().zip(&w).all(|(a, b)| a.body == b.body && a.stream == b.stream), "renumbering changed long texts");
            let mut k = crate::content::new_content(c, s);
            must("showing long texts", || {
                k.begin_text().show(Str(&data)).end_text();
            })?;
            c.probe("long_text");
        }
        3 => {
            // References to the highest ids there are.
            let mut chunk = new_chunk(c, s);
            let top = i32::MAX - c.draw(3) as i32;
            must("references to high ids", || {
                chunk.indirect(Ref::new(1)).array().items([Ref::new(top), Ref::new(1), Ref::new(i32::MAX)]);
                chunk.indirect(Ref::new(2)).primitive(Ref::new(top));
            })?;
            let high = must("renumbering to high ids", || chunk.renumber(|r| if r.get() < 3 { Ref::new(top - r.get()) } else { r }))?;
            read_all(&high, 2, "high ids")?;
            let mut back = new_chunk(c, s);
            must("renumbering back", || high.renumber_into(&mut back, |r| if r.get() > top - 3 && r.get() < top { Ref::new(top - r.get()) } else { r }))?;
            let gap = *c.pick(&[255, 256, 65_535, 65_536, 100_000]);
            finish_all(
                c,
                &|| {
                    let mut p = Pdf::with_settings(s);
                    p.extend(&back);
                    p.indirect(Ref::new(gap)).primitive(true);
                    p
                },
                &[1, 2, gap],
            )?;
            c.probe("high_ids");
        }
        4 => {
            // Nothing at all.
            finish_all(c, &|| Pdf::with_settings(s), &[])?;
            let empty = new_chunk(c, s);
            let out = must("renumbering nothing", || empty.renumber(|r| r))?;
            ensure!(out.is_empty_chunk() && empty.is_empty_chunk(), "renumbering nothing gave something");
            let mut into = new_chunk(c, s);
            must("merging nothing", || {
                into.extend(&empty);
                into.merge_limits(empty.limits());
                into.reserve(0);
            })?;
            ensure!(into.is_empty_chunk(), "merging nothing gave something");
            must("an empty content stream", || {
                let mut k = Content::with_settings(s);
                k.reserve(0);
                k.finish()
            })?;
            must("an empty character map", || {
                let info = SystemInfo { registry: Str(b""), ordering: Str(b""), supplement: 0 };
                UnicodeCmap::<u8>::new(Name(b""), info).finish();
                let mut k = UnicodeCmap::<u16>::new(Name(b""), info);
                k.pair_with_multiple(0, []);
                k.finish()
            })?;
            finish_all(
                c,
                &|| {
                    let mut p = Pdf::with_settings(s);
                    p.stream(Ref::new(1), b"");
                    p.indirect(Ref::new(2)).array();
                    p.indirect(Ref::new(3)).dict();
                    p.indirect(Ref::new(4)).primitive(Str(b""));
                    p.indirect(Ref::new(5)).primitive(TextStr(""));
                    p.indirect(Ref::new(6)).primitive(Name(b""));
                    p.catalog(Ref::new(7));
                    p.document_info(Ref::new(8));
                    p.pages(Ref::new(9)).kids([]).count(0);
                    p.page(Ref::new(10)).annotations([]).contents_array([]);
                    p.outline(Ref::new(11));
                    p.indirect(Ref::new(12)).start::<Resources>().fonts();
                    p.set_file_id((vec![], vec![]));
                    p
                },
                &(1..=12).collect::<Vec<_>>(),
            )?;
            c.probe("nothing");
        }
        _ => {
            // Dates and other clamped or checked values never fail.
            let mut chunk = new_chunk(c, s);
            for i in 0..c.range(1, 20) {
                let d = gen_date(c);
                must("a date", || chunk.indirect(Ref::new(1 + i as i32)).primitive(d.build()))?;
            }
            let n = chunk.refs().len();
            read_all(&chunk, n, "dates")?;
            c.probe("dates");
        }
    }
    Ok(())
}

trait Empty {
    fn is_empty_chunk(&self) -> bool;
}
impl Empty for Chunk {
    fn is_empty_chunk(&self) -> bool {
        self.len() == 0 && self.as_bytes().is_empty() && self.refs().len() == 0
    }
}

/// Panics only; what else a scenario finds belongs to its own property.
fn panics(r: Res) -> Res {
    match r {
        Err(v) if v.0.contains("panic: ") => Err(v),
        _ => Ok(()),
    }
}

pub fn c25(c: &Ctx) -> Res {
    if let Some(r) = crate::vast::sometimes(c, 6000, 10000) {
        return panics(r);
    }
    match c.weighted(&[2, 6, 2, 2, 2, 2, 1]) {
        0 => extremes(c),
        1 => panics(props::wide(c)),
        2 => panics(builders::c14(c)),
        3 => panics(builders::c15(c)),
        4 => panics(merging::c05(c)),
        5 => panics(merging::c06(c)),
        _ => panics(props::c10(c)),
    }
}
