//! File-level oracles shared by the properties.

use std::collections::{BTreeMap, BTreeSet};

use pdf_writer::{Filter, Pdf, Ref};

use crate::alloc::{harness, lib};
use crate::ctx::{guarded, Ctx, Outcome, Res};
use crate::model::*;
use crate::plan::FILTERS;
use crate::reader::*;
use crate::world::*;
#[allow(unused_imports)]
use crate::{ensure, viol};

/// How a document is finished.
#[derive(Clone, Debug, PartialEq)]
pub enum Fin {
    Table,
    Stream(i32),
    Filtered(i32, Vec<usize>, bool),
}

impl Fin {
    pub fn xref_id(&self) -> Option<i32> {
        match self {
            Fin::Table => None,
            Fin::Stream(i) | Fin::Filtered(i, ..) => Some(*i),
        }
    }
}

/// An id no object uses: next, in a gap, or further out.
pub fn fresh_id(c: &Ctx, ids: &[i32]) -> i32 {
    let used: BTreeSet<i32> = ids.iter().copied().collect();
    let max = used.last().copied().unwrap_or(0);
    match c.weighted(&[6, 3, 2]) {
        0 => max + 1,
        1 => match (1..max).find(|i| !used.contains(i)) {
            Some(_) => {
                let gaps: Vec<i32> = (1..max).filter(|i| !used.contains(i)).take(50).collect();
                *c.pick(&gaps)
            }
            None => max + 1,
        },
        _ => max + 1 + c.draw(40) as i32,
    }
}

pub fn gen_fin(c: &Ctx, ids: &[i32]) -> Fin {
    match c.draw(3) {
        0 => Fin::Table,
        1 => Fin::Stream(fresh_id(c, ids)),
        _ => gen_filtered(c, ids),
    }
}

pub fn gen_filtered(c: &Ctx, ids: &[i32]) -> Fin {
    let n = c.weighted(&[2, 6, 3, 1]);
    let fs: Vec<usize> = (0..n).map(|_| c.draw(10) as usize).collect();
    let single = n == 1 && c.draw(2) == 0;
    Fin::Filtered(fresh_id(c, ids), fs, single)
}

/// Finish for real. `Err` carries the library's panic message. Second value: what the filter closure was given.
pub fn finish(c: &Ctx, pdf: Pdf, fin: &Fin) -> Result<(Vec<u8>, Option<Vec<u8>>), String> {
    let mut given = None;
    let (r, out) = guarded(|| {
        lib(|| match fin {
            Fin::Table => pdf.finish(),
            Fin::Stream(id) => pdf.finish_with_xref_stream(Ref::new(*id)),
            Fin::Filtered(id, fs, single) => pdf.finish_with_xref_stream_and_filter(Ref::new(*id), |raw| {
                harness(|| {
                    c.probe("xref_filter_called");
                    given = Some(raw.to_vec());
                    let mut d = raw.to_vec();
                    // The list is in decoding order.
                    for &f in fs.iter().rev() {
                        d = encode_filter(&d, FILTERS[f].1.as_bytes());
                    }
                    let list: Vec<Filter> = fs.iter().map(|&f| FILTERS[f].0).collect();
                    let x = if *single {
                        pdf_writer::XRefFilter::Single(list[0])
                    } else {
                        pdf_writer::XRefFilter::Multiple(list)
                    };
                    (d, x)
                })
            }),
        })
    });
    match (r, out) {
        (Some(b), _) => {
            c.digest(&b);
            Ok((b, given))
        }
        (_, Outcome::Panic(m)) => Err(m),
        (_, o) => Err(format!("{o:?}")),
    }
}

pub fn read(b: &[u8]) -> Res<File> {
    read_file(b).map_err(|e| crate::ctx::Viol(format!("finished file: {e}")))
}

/// C01: header, objects, cross-reference section, end; nothing else; offsets exact; in-use set exact.
pub fn check_structure(b: &[u8], f: &File, order: &[i32], xref_id: Option<i32>) -> Res {
    let objs = match scan_objects(b, f.header_len, f.startxref) {
        Ok(o) => o,
        Err(e) => viol!("file body: {e}"),
    };
    let found: Vec<i64> = objs.iter().map(|o| o.id).collect();
    let want: Vec<i64> = order.iter().map(|&i| i as i64).collect();
    ensure!(found == want, "file body: objects written {} but found {}", clip(&format!("{want:?}")), clip(&format!("{found:?}")));
    for o in &objs {
        ensure!(o.gen == 0, "object {} has generation {}", o.id, o.gen);
        match f.entries.get(&(o.id as u64)) {
            Some(Entry::Used { off, gen: 0 }) if *off == o.start as u64 => {}
            e => viol!("cross-reference: object {} starts at {} but its entry is {e:?}", o.id, o.start),
        }
    }
    let mut expect: BTreeSet<u64> = order.iter().map(|&i| i as u64).collect();
    if let Some(x) = xref_id {
        expect.insert(x as u64);
        match f.entries.get(&(x as u64)) {
            Some(Entry::Used { off, gen: 0 }) if *off == f.startxref as u64 => {}
            e => viol!("cross-reference: the stream itself ({x}) starts at {} but its entry is {e:?}", f.startxref),
        }
        ensure!(f.xref_obj.as_ref().map(|o| o.id) == Some(x as i64), "cross-reference stream has the wrong id");
    }
    for (i, e) in &f.entries {
        if matches!(e, Entry::Used { .. }) && !expect.contains(i) {
            viol!("cross-reference: entry {i} is marked in use ({e:?}) but no such object was written");
        }
    }
    Ok(())
}

/// Every non-tainted object reads back through the cross-reference section.
pub fn check_objects(b: &[u8], f: &File, objs: &[Obj]) -> Res {
    for o in objs {
        if o.tainted {
            continue;
        }
        let p = match f.object(b, o.id as i64) {
            Ok(p) => p,
            Err(e) => viol!("read back: {e}"),
        };
        if let Err(e) = o.check(&p) {
            viol!("read back: {e}");
        }
    }
    Ok(())
}

/// C09.
pub fn check_free_list(f: &File, used: &BTreeSet<i32>, size: i32) -> Res {
    ensure!(f.entries.len() as i64 == size as i64, "free list: {} entries listed for size {size}", f.entries.len());
    let mut free = BTreeMap::new();
    for (i, e) in &f.entries {
        ensure!(*i < size as u64, "free list: entry {i} at or above size {size}");
        if let Entry::Free { next, gen } = e {
            ensure!(!used.contains(&(*i as i32)), "free list: entry {i} is in use but marked free");
            let want = if *i == 0 { 65535 } else { 0 };
            ensure!(*gen == want, "free list: entry {i} has generation {gen}, expected {want}");
            free.insert(*i, *next);
        }
    }
    ensure!(free.contains_key(&0), "free list: entry 0 is not free");
    for i in 0..size {
        ensure!(
            used.contains(&i) != free.contains_key(&(i as u64)),
            "free list: entry {i} is {}",
            if used.contains(&i) { "used but free" } else { "unused but not free" }
        );
    }
    let order: Vec<u64> = free.keys().copied().collect();
    for (k, i) in order.iter().enumerate() {
        let want = order.get(k + 1).copied().unwrap_or(0);
        ensure!(free[i] == want, "free list: entry {i} links to {} but the next free entry is {want}", free[i]);
    }
    Ok(())
}

/// C11: header and trailer.
pub fn check_settings(f: &File, s: &DocSettings, max_id: i32, xref: bool) -> Res {
    ensure!(f.version == s.version, "header: version {:?}, last set {:?}", f.version, s.version);
    ensure!(f.marker == s.marker, "header: binary marker {:?}, last set {:?}", f.marker, s.marker);
    let t = &f.trailer;
    ensure!(t.get(b"Size").and_then(PV::int) == Some(max_id as i64 + 1), "trailer: /Size {:?} but the highest id is {max_id}", t.get(b"Size"));
    let want = |k: &str, id: Option<i32>| -> Res {
        let got = t.get(k.as_bytes());
        let w = id.map(|i| PV::Ref(i as i64, 0));
        ensure!(got == w.as_ref(), "trailer: /{k} is {got:?}, last set {id:?}");
        Ok(())
    };
    want("Root", s.root)?;
    want("Info", s.info)?;
    let id = s.file_id.as_ref().map(|(a, b)| PV::Arr(vec![PV::Str(a.clone()), PV::Str(b.clone())]));
    ensure!(t.get(b"ID") == id.as_ref(), "trailer: /ID is {:?}, last set {:?}", t.get(b"ID"), s.file_id);
    let PV::Dict(d) = t else { viol!("trailer is not a dictionary") };
    let mut seen = BTreeSet::new();
    for (k, _) in d {
        ensure!(seen.insert(k.clone()), "trailer: key /{} appears twice", show(k));
        let known: &[&[u8]] = &[b"Size", b"Root", b"Info", b"ID"];
        let xr: &[&[u8]] = &[b"Type", b"W", b"Index", b"Length", b"Filter", b"DecodeParms"];
        ensure!(known.contains(&k.as_slice()) || (xref && xr.contains(&k.as_slice())), "trailer: unexpected key /{}", show(k));
    }
    Ok(())
}

/// All tokens of some bytes, as maxima (C12).
pub fn token_maxima(b: &[u8], from: usize, stop: usize) -> Result<Lim, String> {
    let mut l = Lim::default();
    for o in scan_objects(b, from, stop)? {
        l = l.max(num_max(&o.id.to_string())).max(num_max(&o.gen.to_string()));
        value_maxima(&o.body, &mut l);
    }
    Ok(l)
}

fn num_max(t: &str) -> Lim {
    let mut l = Lim::default();
    if !t.contains('.') {
        if let Ok(v) = t.parse::<i64>() {
            if v.abs() <= i32::MAX as i64 + 1 {
                l.int = v.abs().min(i32::MAX as i64) as i32;
                return l;
            }
        }
    }
    l.real = t.parse::<f32>().unwrap_or(0.0).abs();
    l
}

pub fn value_maxima(v: &PV, l: &mut Lim) {
    match v {
        PV::Num(t) => *l = l.max(num_max(t)),
        PV::Str(s) => l.str = l.str.max(s.len()),
        PV::Name(n) => l.name = l.name.max(n.len()),
        PV::Ref(a, g) => {
            *l = l.max(num_max(&a.to_string()));
            *l = l.max(num_max(&g.to_string()));
        }
        PV::Arr(xs) => {
            l.arr = l.arr.max(xs.len());
            xs.iter().for_each(|x| value_maxima(x, l));
        }
        PV::Dict(d) => {
            l.dict = l.dict.max(d.len());
            for (k, x) in d {
                l.name = l.name.max(k.len());
                value_maxima(x, l);
            }
        }
        PV::Null | PV::Bool(_) => {}
    }
}
