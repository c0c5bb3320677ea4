//! One scenario per property.

use std::collections::BTreeSet;

use pdf_writer::{Chunk, Ref};

use crate::alloc::{self, lib};
use crate::ctx::{Ctx, Outcome, Res, Viol};
use crate::builders;
use crate::content::{content_maxima, finish_content, gen_ops, new_content, write_content, ContentCfg};
use crate::merging;
use crate::reject;
use crate::typed;
use crate::model::*;
use crate::oracle::*;
use crate::plan::*;
use crate::reader::*;
use crate::world::*;
use crate::{ensure, viol};

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&Ctx) -> Res,
    pub quick: u64,
    pub thorough_factor: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub assumptions: &'static [&'static str],
    pub divergence_is_violation: bool,
}

const BASE: Prop = Prop {
    id: "",
    run: c01,
    quick: 4000,
    thorough_factor: 40,
    rule: "",
    real: "",
    assumptions: &[
        "single-threaded library code (forbid(unsafe_code), no interior mutability): schedules interleave whole library calls and caller callbacks",
        "object writers that are must_use and dropped without ever being started are outside the contract",
        "finite floating-point arguments; object ids below i32::MAX",
    ],
    divergence_is_violation: false,
};

pub const ALL: &[Prop] = &[
    Prop {
        id: "C01",
        run: c01,
        quick: 200000,
        rule: "one run = one multi-party document build with drawn faults, finished in a drawn form and scanned end to end by an independent reader; every indirect object's offset, every in-use entry and startxref compared",
        real: "Pdf, Chunk, Obj, Array, Dict, Stream, xref table/stream writers",
        ..BASE
    },
    Prop {
        id: "C02",
        run: c02,
        quick: 120000,
        rule: "one run = one multi-party build of value-heavy objects read back in full (scan and via the cross-reference section) and compared with the recorded calls",
        real: "all primitives, Array/Dict/Stream/Typed writers",
        ..BASE
    },
    Prop {
        id: "C03",
        run: c03,
        quick: 200000,
        rule: "one run = one build under a high rate of caller panics (between calls, inside iterators, caught at drawn levels); every object must read back with exactly the entries completed",
        real: "Drop of Array/Dict/Stream and of 11 typed stream writers under unwinding",
        ..BASE
    },
    Prop {
        id: "C04",
        run: c04,
        quick: 200000,
        rule: "one run = one build with leaked writers and failing allocations at drawn allocation indices, in writes and merges; every object not in flight is located and compared through the cross-reference section",
        real: "all writers and Chunk::extend under null-returning allocations",
        ..BASE
    },
    Prop {
        id: "C05",
        run: merging::c05,
        quick: 300000,
        rule: "one run = one random merge tree over chunks built under faults; after every merge the receiver's objects, ids, limits and the source's bytes are compared with the concatenation",
        real: "Chunk::extend, Buf::extend_buf, Limits::merge",
        ..BASE
    },
    Prop {
        id: "C06",
        run: merging::c06,
        quick: 300000,
        rule: "one run = one chunk renumbered by a drawn mapping and re-read; compared with the mapped model, with the mapped reading of the source, and for composition, merging or memoised allocation",
        real: "renumber.rs, Chunk::renumber/renumber_into",
        ..BASE
    },
    Prop {
        id: "C07",
        run: merging::c07,
        quick: 250000,
        rule: "one run = one to three renumberings interrupted at a drawn mapping call or allocation, followed by further writing and a full read-back",
        real: "renumber.rs, Chunk::renumber_into under unwinding and failing allocations",
        ..BASE
    },
    Prop {
        id: "C08",
        run: c08,
        quick: 200000,
        rule: "one run = one multi-party build with drawn id reuse (messages redelivered, ids shared, xref id reused); finish must panic naming a reused id exactly when one exists",
        real: "write_offsets, Pdf::finish*",
        ..BASE
    },
    Prop {
        id: "C10",
        run: c10,
        quick: 25000,
        rule: "one run = one history applied to three documents finished as table, stream and filtered stream; entries, objects, trailer and filter declarations compared, with sizes drawn around field-width boundaries",
        real: "PlainXRefWriter, XRefStreamWriter, finish_with_xref_stream(_and_filter)",
        ..BASE
    },
    Prop {
        id: "C12",
        run: c12,
        quick: 200000,
        rule: "one run = one multi-party build with merges, renumberings, caller-supplied limits and interruptions; reported limits compared with the maxima over all tokens present plus what was merged in",
        real: "Limits and every registration site",
        ..BASE
    },
    Prop {
        id: "C13",
        run: builders::c13,
        quick: 250000,
        rule: "one run = one program of objects or content operations executed in both layouts, then merged, renumbered and finished both ways; tokens, limits and sizes compared",
        real: "all writers in both layouts, Content, Operation",
        ..BASE
    },
    Prop {
        id: "C14",
        run: builders::c14,
        quick: 250000,
        rule: "one run = one to three content streams written from drawn operations with interruptions, interleaved under the scheduler; tokenised and compared operation by operation",
        real: "Content, Operation, ShowPositioned, MarkContent, PropertyList, Artifact",
        ..BASE
    },
    Prop {
        id: "C15",
        run: builders::c15,
        quick: 150000,
        rule: "one run = one to three character maps of drawn mappings with interrupted iterators, interleaved under the scheduler; parsed and compared mapping by mapping",
        real: "UnicodeCmap<u8>, UnicodeCmap<u16>, Chunk::cmap",
        ..BASE
    },
    Prop {
        id: "C16",
        run: builders::c16,
        quick: 120000,
        rule: "one run = one to four builders run alone, then interleaved on one thread, then on several under the scheduler with other capacities and failing neighbours; bytes, ids and limits compared",
        real: "Chunk, Content, UnicodeCmap, Pdf",
        divergence_is_violation: true,
        ..BASE
    },
    Prop {
        id: "C17",
        run: c17,
        quick: 120000,
        rule: "one run = one build dominated by streams with adversarial payloads carried through merges and renumberings; payload and declared length read back byte for byte",
        real: "Stream::start, Drop for Stream, 11 typed stream writers, renumber's verbatim copy",
        ..BASE
    },
    Prop {
        id: "C18",
        run: reject::c18,
        quick: 250000,
        rule: "one run = one to three builds holding calls outside their contract (and both sides of every bound), caught at the call or further out, against the same build without them; bytes, ids, limits, counters and the finished file compared",
        real: "every asserting setter: icc_profile, tiling_pattern, decode_parms, Separation, DeviceN, ViewerPreferences, Outline, line width, flatness, Ref, LanguageIdentifier, Stream",
        ..BASE
    },
    Prop {
        id: "C19",
        run: merging::c19,
        quick: 100000,
        rule: "one run = one history of writes, merges, renumberings, reservations and settings on a chunk or document; prefix stability, length, id list and element counters checked after each step",
        real: "Chunk/Pdf accessors, Array/Dict/TypedArray/TypedDict counters",
        ..BASE
    },
    Prop {
        id: "C20",
        run: c20,
        quick: 150000,
        rule: "one run = one multi-party build of catalogs, pages, outlines, name dictionaries, labels, structure trees and attribute objects through their typed writers, with interrupted calls and early ends; every dictionary read back and compared key by key with what the calls documented, plus the role conversions",
        real: "structure.rs, attributes.rs",
        ..BASE
    },
    Prop {
        id: "C21",
        run: c21,
        quick: 150000,
        rule: "one run = one multi-party build of fonts, colour spaces, patterns, shadings, functions, graphics states, external objects, resources and trees through their typed writers, with interrupted calls and early ends; every dictionary read back and compared key by key with what the calls documented, plus PostScript programs decoded back",
        real: "font.rs, color.rs, functions.rs, xobject.rs, content.rs (Resources, ExtGraphicsState, SoftMask), object.rs (filters, name and number trees)",
        ..BASE
    },
    Prop {
        id: "C22",
        run: c22,
        quick: 150000,
        rule: "one run = one multi-party build of annotations, appearances, forms, signature dictionaries, actions, renditions, transitions and file specifications through their typed writers, with interrupted calls and early ends; every dictionary read back and compared key by key with what the calls documented",
        real: "annotations.rs, forms.rs, actions.rs, renditions.rs, transitions.rs, files.rs",
        ..BASE
    },
    Prop {
        id: "C23",
        run: c23,
        quick: 150000,
        rule: "one run = one multi-party document build over value-heavy and typed objects, or one content stream or character map, with interruptions; every byte outside stream data and the binary marker checked to be visible text",
        real: "every primitive's encoder, all writers, Content, UnicodeCmap, header, sections and trailer",
        ..BASE
    },
    Prop {
        id: "C24",
        run: crate::memory::c24,
        quick: 60000,
        rule: "one run = one or two histories of many small calls (objects, entries, merges, renumberings, operations, mappings, a finished document), interleaved and interrupted; bytes requested from the allocator compared with bytes written",
        real: "Buf growth in every builder, Chunk::extend, renumber, write_offsets, both section writers, Content, UnicodeCmap",
        ..BASE
    },
    Prop {
        id: "C25",
        run: crate::extremes::c25,
        quick: 60000,
        rule: "one run = one history of in-contract calls (multi-party documents of typed and untyped objects, content streams, character maps, merges, renumberings, finishing, or extreme sizes, nestings and emptiness); no call may panic, abort or fail to return",
        real: "the whole library",
        ..BASE
    },
    Prop {
        id: "C09",
        run: c09,
        quick: 20000,
        rule: "one run = one document with drawn id gaps finished in both cross-reference forms; the free list is followed entry by entry",
        real: "write_offsets and both xref writers",
        ..BASE
    },
    Prop {
        id: "C11",
        run: c11,
        quick: 120000,
        rule: "one run = one build with document-level settings interleaved with producers' merges and faults; header and trailer compared with the last calls",
        real: "Pdf settings, trailer writer, both finish forms",
        ..BASE
    },
];

/// Everything in `b` outside the given ranges is visible ASCII, a space, a tab or a line break.
fn plain_text(b: &[u8], skip: &[(usize, usize)], what: &str) -> Res {
    let mut at = 0;
    for &(a, z) in skip.iter().chain(&[(b.len(), b.len())]) {
        for i in at..a {
            if !matches!(b[i], b' '..=b'~' | b'\n' | b'\r' | b'\t') {
                viol!("{what}: byte 0x{:02x} at offset {i}, near '{}'", b[i], show(&b[i.saturating_sub(24)..(i + 12).min(b.len())]));
            }
        }
        at = z.max(at);
    }
    Ok(())
}

fn c23(c: &Ctx) -> Res {
    match c.draw(4) {
        0 => {
            let cfg = ContentCfg::swarm(c, true, false);
            let s = settings(c, 50);
            let mut k = new_content(c, s);
            let ops = gen_ops(c, &cfg, 0);
            write_content(c, &mut k, &ops).map_err(Viol)?;
            plain_text(k.as_bytes(), &[], "content stream in progress")?;
            let buf = finish_content(k);
            c.digest(&buf);
            c.probe("content_stream");
            return plain_text(&buf, &[], "content stream");
        }
        1 if c.draw(2) == 1 => {
            let p = builders::gen_cmap(c, &PlanCfg::swarm(c, true, false));
            let (_, b) = builders::write_cmap(c, &p).map_err(Viol)?;
            c.digest(&b);
            // Comment lines repeat the map's name as it is.
            let mut skip = vec![];
            let mut at = 0;
            for line in b.split_inclusive(|&x| x == b'\n') {
                if line.starts_with(b"%%") {
                    skip.push((at, at + line.len()));
                }
                at += line.len();
            }
            c.probe("character_map");
            return plain_text(&b, &skip, "character map");
        }
        1 => typed::c21_pure(c)?,
        _ => {}
    }
    let mut cfg = WorldCfg::swarm(c, true, false, false);
    cfg.plan.typed_w = *c.pick(&[20, 0, 60]);
    cfg.settings_ops = c.range(0, 6);
    if c.draw(2) == 1 {
        cfg.plan.kinds = vec![*c.pick(&[3usize, 4, 5, 6, 7, 9]), *c.pick(&[3usize, 4, 5, 6, 7, 9])];
    }
    for d in run_world(c, &cfg)? {
        let (b, f, _, _, _) = finish_any(c, d)?;
        let objs = match scan_objects(&b, f.header_len, f.startxref) {
            Ok(v) => v,
            Err(e) => viol!("{e}"),
        };
        // The binary marker, and stream data.
        let mut skip = vec![(10, 14)];
        skip.extend(objs.iter().chain(&f.xref_obj).filter_map(|o| o.data));
        plain_text(&b, &skip, "document")?;
        c.probe("document");
    }
    Ok(())
}

/// Everything at once: all kinds of objects, typed or not, under all faults but lost objects.
pub fn wide(c: &Ctx) -> Res {
    if c.draw(4) == 0 {
        typed::c20_pure(c)?;
        typed::c21_pure(c)?;
    }
    let mut cfg = WorldCfg::swarm(c, c.draw(2) == 1, false, false);
    cfg.plan.typed_w = *c.pick(&[20, 60]);
    cfg.plan.stream_w = *c.pick(&[2, 15]);
    cfg.settings_ops = c.range(0, 6);
    for d in run_world(c, &cfg)? {
        let fin = gen_fin(c, &d.ids());
        if let Err(m) = finish(c, d.pdf, &fin) {
            viol!("finishing a document with distinct ids: panic: {m}");
        }
    }
    Ok(())
}

/// Scenarios several properties draw on, on their own (for soaks by hand; no property of their own).
const EXTRA: &[Prop] = &[Prop { id: "VAST", run: crate::vast::any, quick: 200, rule: "documents past 16- and 24-bit sizes", real: "Pdf, Chunk", ..BASE }];

pub fn find(id: &str) -> Option<&'static Prop> {
    ALL.iter().chain(EXTRA).find(|p| p.id == id)
}

/// Build a plan on its own fresh chunk from inside a callback, and check it there and then.
pub fn reentrant(c: &Ctx, plan: &ObjPlan) -> Result<(), String> {
    let armed = alloc::pause();
    let mut chunk = Chunk::new();
    let (obj, out) = write_obj(c, &mut chunk, plan);
    alloc::resume(armed);
    match out {
        Outcome::Done | Outcome::Injected => {}
        o => return Err(format!("building inside a callback: {o:?}")),
    }
    if obj.tainted {
        return Ok(());
    }
    let objs = scan_objects(chunk.as_bytes(), 0, chunk.len()).map_err(|e| format!("built inside a callback: {e}"))?;
    if objs.len() != 1 {
        return Err(format!("built inside a callback: {} objects", objs.len()));
    }
    obj.check(&objs[0]).map_err(|e| format!("built inside a callback: {e}"))
}

fn finish_any(c: &Ctx, d: Doc) -> Res<(Vec<u8>, File, Fin, Vec<Obj>, DocSettings)> {
    let fin = gen_fin(c, &d.ids());
    c.ev(|| format!("finish {fin:?}"));
    let (b, _) = match finish(c, d.pdf, &fin) {
        Ok(x) => x,
        Err(m) => viol!("finishing a document with distinct ids: panic: {m}"),
    };
    let f = read(&b)?;
    Ok((b, f, fin, d.objs, d.set))
}

fn c01(c: &Ctx) -> Res {
    if let Some(r) = crate::vast::sometimes(c, 6000, 8000) {
        return r;
    }
    let mut cfg = WorldCfg::swarm(c, true, false, false);
    cfg.plan.g.wild = false;
    for d in run_world(c, &cfg)? {
        let order = d.ids();
        let (b, f, fin, _, _) = finish_any(c, d)?;
        check_structure(&b, &f, &order, fin.xref_id())?;
    }
    Ok(())
}

fn c02(c: &Ctx) -> Res {
    if c.chance(1, 200) {
        return crate::extremes::extremes(c);
    }
    let mut cfg = WorldCfg::swarm(c, false, false, false);
    cfg.plan.max_steps = *c.pick(&[8, 4, 16]);
    cfg.objs_max = *c.pick(&[4, 8]);
    for d in run_world(c, &cfg)? {
        let (b, f, _, objs, _) = finish_any(c, d)?;
        check_objects(&b, &f, &objs)?;
    }
    Ok(())
}

fn c03(c: &Ctx) -> Res {
    let mut cfg = WorldCfg::swarm(c, true, false, false);
    cfg.plan.p_panic = *c.pick(&[6, 12, 3]);
    cfg.plan.p_guard = *c.pick(&[15, 0, 30]);
    cfg.plan.p_iter_panic = *c.pick(&[30, 60]);
    for d in run_world(c, &cfg)? {
        let order = d.ids();
        let (b, f, fin, objs, _) = finish_any(c, d)?;
        check_structure(&b, &f, &order, fin.xref_id())?;
        check_objects(&b, &f, &objs)?;
    }
    Ok(())
}

/// A build made mostly of typed writers of one family.
fn typed_world(c: &Ctx, group: usize, stream_w: u32) -> Res {
    let mut cfg = WorldCfg::swarm(c, c.draw(2) == 1, c.draw(4) == 3, false);
    cfg.plan.typed_groups = vec![group];
    cfg.plan.typed_w = 60;
    cfg.plan.stream_w = stream_w;
    for d in run_world(c, &cfg)? {
        let (b, f, _, objs, _) = finish_any(c, d)?;
        check_objects(&b, &f, &objs)?;
    }
    Ok(())
}

fn c20(c: &Ctx) -> Res {
    typed_world(c, typed::GROUP_STRUCTURE, 0)?;
    typed::c20_pure(c)
}
fn c21(c: &Ctx) -> Res {
    typed_world(c, typed::GROUP_RESOURCES, 15)?;
    typed::c21_pure(c)
}
fn c22(c: &Ctx) -> Res {
    typed_world(c, typed::GROUP_INTERACTION, 4)
}

fn c04(c: &Ctx) -> Res {
    let mut cfg = WorldCfg::swarm(c, c.draw(2) == 1, true, true);
    if cfg.plan.p_leak == 0 && cfg.p_oom == 0 {
        cfg.p_oom = 30;
    }
    for d in run_world(c, &cfg)? {
        let (b, f, _, objs, _) = finish_any(c, d)?;
        check_objects(&b, &f, &objs)?;
    }
    Ok(())
}

fn c09(c: &Ctx) -> Res {
    if let Some(r) = crate::vast::sometimes(c, 4000, 0) {
        return r;
    }
    let mut cfg = WorldCfg::swarm(c, false, false, false);
    cfg.plan.max_steps = 2;
    cfg.plan.deep = false;
    cfg.gap_w = *c.pick(&[[4, 4, 2, 0], [0, 6, 1, 0], [1, 1, 1, 0], [6, 1, 1, 1]]);
    if cfg.bulk > 0 {
        cfg.gap_w = *c.pick(&[[300, 1, 1, 0], [60, 1, 0, 0], cfg.gap_w]);
    }
    cfg.pdfs = 2;
    cfg.objs_max = 4;
    for (k, d) in run_world(c, &cfg)?.into_iter().enumerate() {
        let ids = d.ids();
        let fin = if k == 0 { Fin::Table } else { Fin::Stream(fresh_id(c, &ids)) };
        let mut used: BTreeSet<i32> = ids.iter().copied().collect();
        used.extend(fin.xref_id());
        let size = used.last().copied().unwrap_or(0) + 1;
        if (size as usize) > used.len() + 1 {
            c.probe("has_free_entries");
        }
        let b = match finish(c, d.pdf, &fin) {
            Ok((b, _)) => b,
            Err(m) => viol!("finishing: panic: {m}"),
        };
        let f = read(&b)?;
        ensure!(f.trailer.get(b"Size").and_then(PV::int) == Some(size as i64), "free list: declared size is {:?} for highest id {}", f.trailer.get(b"Size"), size - 1);
        check_free_list(&f, &used, size)?;
    }
    Ok(())
}

fn c11(c: &Ctx) -> Res {
    let mut cfg = WorldCfg::swarm(c, true, false, false);
    cfg.settings_ops = c.range(0, 8);
    cfg.own_objs = c.range(0, 4);
    for d in run_world(c, &cfg)? {
        let (b, f, fin, objs, set) = finish_any(c, d)?;
        let max = objs.iter().map(|o| o.id).chain(fin.xref_id()).max().unwrap_or(0);
        check_settings(&f, &set, max, fin.xref_id().is_some())?;
        check_objects(&b, &f, &objs)?;
    }
    Ok(())
}

fn c08(c: &Ctx) -> Res {
    if let Some(r) = crate::vast::sometimes(c, 4000, 0) {
        return r;
    }
    let mut cfg = WorldCfg::swarm(c, true, false, false);
    cfg.plan.max_steps = 3;
    cfg.p_reuse = *c.pick(&[0, 8, 25]);
    cfg.p_dup = *c.pick(&[0, 30]);
    cfg.redelivery = *c.pick(&[2, 0, 1]);
    cfg.own_objs = c.range(0, 5);
    for d in run_world(c, &cfg)? {
        let ids = d.ids();
        let mut fin = gen_fin(c, &ids);
        if c.chance(1, 4) && !ids.is_empty() {
            let id = *c.pick(&ids);
            match &mut fin {
                Fin::Stream(i) | Fin::Filtered(i, ..) => {
                    *i = id;
                    c.probe("xref_id_reused");
                }
                Fin::Table => {}
            }
        }
        let mut all = ids.clone();
        all.extend(fin.xref_id());
        let mut seen = BTreeSet::new();
        let dups: BTreeSet<i32> = all.iter().copied().filter(|i| !seen.insert(*i)).collect();
        c.ev(|| format!("finish {fin:?}; reused ids {dups:?}"));
        match finish(c, d.pdf, &fin) {
            Ok((b, _)) => {
                ensure!(dups.is_empty(), "finishing succeeded although ids {dups:?} are used more than once");
                let f = read(&b)?;
                check_structure(&b, &f, &ids, fin.xref_id())?;
                c.probe("accepted");
            }
            Err(m) => {
                ensure!(!dups.is_empty(), "finishing panicked ('{m}') although every id is used once");
                let named: Vec<i32> = m.split(|ch: char| !ch.is_ascii_digit()).filter_map(|t| t.parse().ok()).collect();
                ensure!(named.iter().any(|n| dups.contains(n)), "the panic message '{m}' names none of the reused ids {dups:?}");
                c.probe("rejected");
            }
        }
    }
    Ok(())
}

/// Pad the documents so that the next object (or the cross-reference section) lands near `target` bytes.
fn pad_to(c: &Ctx, docs: &mut [Doc], id: i32, target: usize) {
    let len = docs[0].pdf.len();
    let near = target as i64 - len as i64 - 70 + c.draw(140) as i64 - 60;
    if near <= 0 {
        return;
    }
    let data = vec![b'z'; near as usize];
    for d in docs.iter_mut() {
        lib(|| {
            d.pdf.stream(Ref::new(id), &data);
        });
        d.objs.push(Obj {
            id,
            body: V::Dict(vec![E::pair(b"Length", V::Int(data.len() as i32))]),
            stream: Some(data.clone()),
            tainted: false,
        });
    }
    c.probe("padded_to_width_boundary");
}

pub fn c10(c: &Ctx) -> Res {
    let mut cfg = WorldCfg::swarm(c, true, false, false);
    cfg.pdfs = 3;
    cfg.p_renumber = 0;
    cfg.redelivery = 0;
    cfg.compact = *c.pick(&[0, 100]);
    cfg.plan.g.big = false;
    cfg.plan.deep = false;
    cfg.plan.max_steps = 3;
    cfg.gap_w = *c.pick(&[[8, 2, 1, 0], [1, 2, 4, 0], [12, 2, 1, 1]]);
    let mut docs = run_world(c, &cfg)?;
    let top = docs[0].max_id();
    match c.weighted(&[10, 4, 4, 2]) {
        0 => {}
        1 => pad_to(c, &mut docs, top + 1, 256),
        2 => pad_to(c, &mut docs, top + 1, 65536),
        _ => {
            if c.chance(1, 40) {
                pad_to(c, &mut docs, top + 1, 1 << 24);
                c.probe("padded_to_16_mib");
            } else if c.draw(2) == 0 {
                // A large id in a small file.
                let id = *c.pick(&[255, 256, 257, 65535, 65536, 65537, 300, 1000]);
                if id > top {
                    for d in docs.iter_mut() {
                        lib(|| d.pdf.indirect(Ref::new(id)).primitive(1));
                        d.objs.push(Obj { id, body: V::Int(1), stream: None, tainted: false });
                    }
                    c.probe("large_id_small_file");
                }
            }
        }
    }
    let ids = docs[0].ids();
    for d in &docs[1..] {
        ensure!(d.pdf.as_bytes() == docs[0].pdf.as_bytes() && d.ids() == ids, "the same calls on two documents gave different bytes or ids");
    }
    let x = fresh_id(c, &ids);
    let fins = [
        Fin::Table,
        Fin::Stream(x),
        match gen_filtered(c, &ids) {
            Fin::Filtered(_, fs, s) => Fin::Filtered(x, fs, s),
            f => f,
        },
    ];
    c.ev(|| format!("finish three ways: {fins:?}"));
    let objs = docs[0].objs.clone();
    let set = docs[0].set.clone();
    let mut outs = vec![];
    for (d, fin) in docs.into_iter().zip(&fins) {
        match finish(c, d.pdf, fin) {
            Ok((b, given)) => outs.push((b, given)),
            Err(m) => viol!("finishing {fin:?}: panic: {m}"),
        }
    }
    let files: Vec<File> = outs.iter().map(|(b, _)| read(b)).collect::<Res<_>>()?;
    let used: BTreeSet<i32> = ids.iter().copied().collect();
    let mut used_x = used.clone();
    used_x.insert(x);
    let max = used.last().copied().unwrap_or(0);
    let max_x = used_x.last().copied().unwrap_or(0);
    check_structure(&outs[0].0, &files[0], &ids, None)?;
    check_free_list(&files[0], &used, max + 1)?;
    check_settings(&files[0], &set, max, false)?;
    for k in 1..3 {
        let f = &files[k];
        let b = &outs[k].0;
        ensure!(f.is_stream, "finishing with a stream produced a table");
        ensure!(f.startxref == files[0].startxref && b[..f.startxref] == outs[0].0[..f.startxref], "{:?}: the file body differs from the table form's", fins[k]);
        check_structure(b, f, &ids, Some(x))?;
        check_free_list(f, &used_x, max_x + 1)?;
        check_settings(f, &set, max_x, true)?;
        for (i, e) in &files[0].entries {
            if let Entry::Used { .. } = e {
                ensure!(f.entries.get(i) == Some(e), "{:?}: entry {i} is {:?} in the stream but {e:?} in the table", fins[k], f.entries.get(i));
            }
        }
        ensure!(f.entries.get(&(x as u64)) == Some(&Entry::Used { off: f.startxref as u64, gen: 0 }), "{:?}: the stream's own entry is {:?}", fins[k], f.entries.get(&(x as u64)));
        let filter = f.trailer.get(b"Filter");
        match &fins[k] {
            Fin::Filtered(_, fs, single) => {
                let names: Vec<PV> = fs.iter().map(|&i| PV::Name(FILTERS[i].1.as_bytes().to_vec())).collect();
                let ok = match filter {
                    Some(PV::Arr(xs)) => *xs == names && !*single,
                    Some(n) => names.len() == 1 && *n == names[0],
                    None => names.is_empty(),
                };
                ensure!(ok, "the stream declares filters {filter:?}, the caller reported {names:?}");
                let raw = files[1].xref_obj.as_ref().and_then(|o| o.stream.clone());
                ensure!(outs[k].1 == raw, "the filter closure was given other data than the unfiltered stream holds");
            }
            _ => ensure!(filter.is_none(), "an unfiltered stream declares {filter:?}"),
        }
    }
    check_objects(&outs[1].0, &files[1], &objs)
}

/// Content streams: their limits, and what a chunk makes of them.
fn c12_content(c: &Ctx) -> Res {
    let mut cfg = ContentCfg::swarm(c, true, false);
    cfg.p_reject = *c.pick(&[0, 20]);
    let s = settings(c, 50);
    let mut k = new_content(c, s);
    let ops = gen_ops(c, &cfg, 0);
    write_content(c, &mut k, &ops).map_err(Viol)?;
    let early = k.as_bytes().to_vec();
    let buf = finish_content(k);
    let got = Lim::of(buf.limits());
    let want = match content_maxima(&early) {
        Ok(l) => l,
        Err(e) => viol!("content stream: {e}"),
    };
    ensure!(got == want, "content stream: limits report {got:?}; present in the bytes {want:?}");
    let mut chunk = new_chunk(c, s);
    let plan = gen_obj(c, &cfg.plan, 7, 0);
    let (_, out) = write_obj(c, &mut chunk, &plan);
    if let Outcome::Panic(m) = out {
        viol!("writing an object: unexpected panic: {m}");
    }
    lib(|| {
        chunk.stream(Ref::new(8), &buf);
    });
    let own = match token_maxima(chunk.as_bytes(), 0, chunk.len()) {
        Ok(l) => l,
        Err(e) => viol!("chunk with a content stream: {e}"),
    };
    ensure!(Lim::of(chunk.limits()) == own, "a chunk with a content stream reports {:?}; present in the bytes {own:?}", Lim::of(chunk.limits()));
    chunk.merge_limits(buf.limits());
    ensure!(Lim::of(chunk.limits()) == own.max(want), "merging a content stream's limits {want:?} into {own:?} gives {:?}", Lim::of(chunk.limits()));
    c.probe("content_limits");
    Ok(())
}

fn c12(c: &Ctx) -> Res {
    if let Some(r) = crate::vast::sometimes(c, 4000, 10000) {
        return r;
    }
    if c.chance(1, 300) {
        return crate::extremes::extremes(c);
    }
    if c.draw(3) == 2 {
        return c12_content(c);
    }
    let mut cfg = WorldCfg::swarm(c, true, false, false);
    cfg.extra_limits = c.draw(2) == 1;
    cfg.p_renumber = *c.pick(&[0, 30, 70]);
    cfg.far_ids = c.draw(2) == 1;
    if c.draw(2) == 1 {
        cfg.plan.kinds = vec![*c.pick(&[0usize, 1, 3, 5, 6, 8, 9, 10])];
    }
    for d in run_world(c, &cfg)? {
        let got = Lim::of(d.pdf.limits());
        let present = match token_maxima(d.pdf.as_bytes(), 14, d.pdf.len()) {
            Ok(l) => l,
            Err(e) => viol!("document: {e}"),
        };
        let want = present.max(d.lim);
        ensure!(got == want, "limits report {got:?}; present in the bytes {present:?}, merged in {:?}", d.lim);
    }
    Ok(())
}

fn c17(c: &Ctx) -> Res {
    if let Some(r) = crate::vast::sometimes(c, 0, 3000) {
        return r;
    }
    let mut cfg = WorldCfg::swarm(c, true, false, false);
    cfg.plan.stream_w = 40;
    cfg.plan.max_payload = *c.pick(&[2000, 200, 12_000, 70_000]);
    cfg.p_renumber = *c.pick(&[0, 40]);
    cfg.p_hold = *c.pick(&[0, 50]);
    for d in run_world(c, &cfg)? {
        let order = d.ids();
        let (b, f, fin, objs, _) = finish_any(c, d)?;
        check_structure(&b, &f, &order, fin.xref_id())?;
        check_objects(&b, &f, &objs)?;
    }
    Ok(())
}
