//! The reference model: what the caller asked for, and how it compares to what a reader finds.

use std::collections::{BTreeSet, HashMap, VecDeque};

use crate::ctx::{Ctx, Rng, Slot};
use crate::reader::{show, PV};

/// A primitive as handed to the library.
#[derive(Clone, Debug, PartialEq)]
pub enum Prim {
    Null,
    Bool(bool),
    Int(i32),
    Real(f32),
    Str(Vec<u8>),
    Text(String),
    LangText(Vec<([u8; 2], Option<[u8; 2]>, String)>),
    Name(Vec<u8>),
    Ref(i32),
    Rect([f32; 4]),
    Date(DateP),
}

#[derive(Clone, Debug, PartialEq)]
pub struct DateP {
    pub year: u16,
    /// Month, day, hour, minute, second: possibly out of range (clamped), possibly with gaps.
    pub parts: [Option<u8>; 5],
    pub hour_off: Option<i8>,
    pub min_off: Option<u8>,
    /// The order the setters are called in does not matter.
    pub backwards: bool,
}

impl DateP {
    pub fn build(&self) -> pdf_writer::Date {
        let mut d = pdf_writer::Date::new(self.year);
        if self.backwards {
            if let Some(m) = self.min_off {
                d = d.utc_offset_minute(m);
            }
            if let Some(h) = self.hour_off {
                d = d.utc_offset_hour(h);
            }
        }
        for k in 0..5 {
            let i = if self.backwards { 4 - k } else { k };
            let Some(p) = self.parts[i] else { continue };
            d = match i {
                0 => d.month(p),
                1 => d.day(p),
                2 => d.hour(p),
                3 => d.minute(p),
                _ => d.second(p),
            };
        }
        if !self.backwards {
            if let Some(h) = self.hour_off {
                d = d.utc_offset_hour(h);
            }
            if let Some(m) = self.min_off {
                d = d.utc_offset_minute(m);
            }
        }
        d
    }
    /// The PDF date string this date denotes. Offsets of exactly zero are `Z`.
    pub fn text(&self) -> String {
        const LIM: [(u8, u8); 5] = [(1, 12), (1, 31), (0, 23), (0, 59), (0, 59)];
        let mut s = format!("D:{:04}", self.year.min(9999));
        for (p, (lo, hi)) in self.parts.iter().zip(LIM) {
            let Some(p) = p else { return s };
            s += &format!("{:02}", (*p).max(lo).min(hi));
        }
        if let Some(h) = self.hour_off {
            let (h, m) = (h.max(-23).min(23), self.min_off.unwrap_or(0).min(59));
            if h == 0 && m == 0 {
                s.push('Z');
            } else {
                s += &format!("{}{:02}'{:02}", if h < 0 { '-' } else { '+' }, h.abs(), m);
            }
        }
        s
    }
}

/// Expected value.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Null,
    Bool(bool),
    Int(i32),
    Real(f32),
    Str(Vec<u8>),
    /// Text as UTF-16 units, with whether plain ASCII is an acceptable spelling.
    Text(Vec<u16>, bool),
    Name(Vec<u8>),
    Ref(i32),
    Arr(Vec<E>),
    Dict(Vec<E>),
    /// Anything well-formed.
    Any,
    /// Not a value: at this point the writer reported holding this many entries.
    Claim(i32),
}

/// An element of an expected array or dictionary. Elements with the same non-zero group were offered by an
/// interrupted call: any prefix of the group may be present.
#[derive(Clone, Debug, PartialEq)]
pub struct E {
    pub key: Vec<u8>,
    pub v: V,
    pub group: u32,
}

impl E {
    pub fn item(v: V) -> E {
        E { key: vec![], v, group: 0 }
    }
    pub fn pair(k: &[u8], v: V) -> E {
        E { key: k.to_vec(), v, group: 0 }
    }
}

pub fn arr(xs: impl IntoIterator<Item = V>) -> V {
    V::Arr(xs.into_iter().map(E::item).collect())
}
pub fn nm(s: &str) -> V {
    V::Name(s.as_bytes().to_vec())
}

pub fn text_v(s: &str) -> V {
    V::Text(s.encode_utf16().collect(), s.bytes().all(|b| (32..=126).contains(&b)))
}

impl Prim {
    pub fn v(&self) -> V {
        match self {
            Prim::Null => V::Null,
            Prim::Bool(b) => V::Bool(*b),
            Prim::Int(i) => V::Int(*i),
            Prim::Real(r) => V::Real(*r),
            Prim::Str(s) => V::Str(s.clone()),
            Prim::Text(s) => text_v(s),
            Prim::LangText(parts) => {
                let mut u = Vec::new();
                for (l, r, t) in parts {
                    u.push(0x1b);
                    u.extend(l.iter().map(|&b| b as u16));
                    if let Some(r) = r {
                        u.extend(r.iter().map(|&b| b as u16));
                    }
                    u.push(0x1b);
                    u.extend(t.encode_utf16());
                }
                V::Text(u, false)
            }
            Prim::Name(n) => V::Name(n.clone()),
            Prim::Ref(r) => V::Ref(*r),
            Prim::Rect(r) => arr(r.iter().map(|x| V::Real(*x))),
            Prim::Date(d) => V::Str(d.text().into_bytes()),
        }
    }
}

/// A language identifier, by way of the checked constructors where they take it.
pub fn language(l: [u8; 2], r: Option<[u8; 2]>) -> pdf_writer::LanguageIdentifier {
    use pdf_writer::LanguageIdentifier as L;
    let text = |b: [u8; 2]| String::from_utf8(b.to_vec()).ok().filter(|s| s.bytes().all(|x| x.is_ascii_alphanumeric()));
    match (text(l), r.map(text)) {
        (Some(l2), None) if l[0] % 2 == 0 => L::from_lang(&l2).expect("two alphanumeric bytes are a language"),
        (Some(l2), Some(Some(r2))) if l[0] % 2 == 0 => L::from_lang_region(&l2, &r2).expect("two alphanumeric bytes each are a language and region"),
        _ => L::new(l, r),
    }
}

/// Call `$f` with the library primitive for `$p`.
#[macro_export]
macro_rules! with_prim {
    ($p:expr, $v:ident => $body:expr) => {
        match $p {
            $crate::model::Prim::Null => { let $v = pdf_writer::Null; $body }
            $crate::model::Prim::Bool(b) => { let $v = *b; $body }
            $crate::model::Prim::Int(b) => { let $v = *b; $body }
            $crate::model::Prim::Real(b) => { let $v = *b; $body }
            $crate::model::Prim::Str(b) => { let $v = pdf_writer::Str(b); $body }
            $crate::model::Prim::Text(b) => { let $v = pdf_writer::TextStr(b); $body }
            $crate::model::Prim::LangText(parts) => {
                let parts: Vec<(pdf_writer::LanguageIdentifier, &str)> = $crate::alloc::harness(|| parts.iter()
                    .map(|(l, r, t)| ($crate::model::language(*l, *r), t.as_str()))
                    .collect());
                let $v = pdf_writer::TextStrWithLang(&parts);
                $body
            }
            $crate::model::Prim::Name(b) => { let $v = pdf_writer::Name(b); $body }
            $crate::model::Prim::Ref(b) => { let $v = pdf_writer::Ref::new(*b); $body }
            $crate::model::Prim::Rect(r) => { let $v = pdf_writer::Rect::new(r[0], r[1], r[2], r[3]); $body }
            $crate::model::Prim::Date(d) => { let $v = d.build(); $body }
        }
    };
}

pub fn decode_text(b: &[u8]) -> Option<Vec<u16>> {
    let r = b.strip_prefix(&[0xFE, 0xFF])?;
    if r.len() % 2 != 0 {
        return None;
    }
    Some(r.chunks(2).map(|c| (c[0] as u16) << 8 | c[1] as u16).collect())
}

/// Does the value a reader found mean what was asked for?
pub fn matches(e: &V, p: &PV, path: &mut Vec<String>) -> Result<(), String> {
    let bad = |path: &Vec<String>| -> Result<(), String> {
        let mut s = format!("{p:?}");
        if s.len() > 300 {
            let mut k = 300;
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            s.truncate(k);
        }
        let mut w = format!("{e:?}");
        if w.len() > 300 {
            let mut k = 300;
            while !w.is_char_boundary(k) {
                k -= 1;
            }
            w.truncate(k);
        }
        Err(format!("at /{}: wrote {w} but read {s}", path.join("/")))
    };
    match (e, p) {
        (V::Any, _) => Ok(()),
        (V::Null, PV::Null) => Ok(()),
        (V::Bool(a), PV::Bool(b)) if a == b => Ok(()),
        (V::Int(a), PV::Num(_)) if p.int() == Some(*a as i64) => Ok(()),
        (V::Real(a), PV::Num(_)) if p.real() == Some(*a) => Ok(()),
        (V::Str(a), PV::Str(b)) if a == b => Ok(()),
        (V::Text(u, ascii), PV::Str(b)) => {
            if decode_text(b).as_deref() == Some(u) {
                return Ok(());
            }
            if *ascii && b.len() == u.len() && b.iter().zip(u).all(|(x, y)| *x as u16 == *y) {
                return Ok(());
            }
            bad(path)
        }
        (V::Name(a), PV::Name(b)) if a == b => Ok(()),
        (V::Ref(a), PV::Ref(i, 0)) if *a as i64 == *i => Ok(()),
        (V::Arr(es), PV::Arr(ps)) => match_list(es, ps, path),
        (V::Dict(es), PV::Dict(ps)) => match_dict(es, ps, path),
        _ => bad(path),
    }
}

fn match_list(es: &[E], ps: &[PV], path: &mut Vec<String>) -> Result<(), String> {
    if es.iter().all(|e| e.group == 0) {
        let mut n = 0;
        for e in es {
            if let V::Claim(c) = e.v {
                if c as usize != n {
                    return Err(format!("at /{}: writer reported {c} array items when {n} had been written", path.join("/")));
                }
                continue;
            }
            let Some(p) = ps.get(n) else {
                return Err(format!("at /{}: array item {n} was written but only {} items read back", path.join("/"), ps.len()));
            };
            path.push(n.to_string());
            matches(&e.v, p, path)?;
            path.pop();
            n += 1;
        }
        if n != ps.len() {
            return Err(format!("at /{}: wrote {n} array items but read {}", path.join("/"), ps.len()));
        }
        return Ok(());
    }
    // With optional groups: every position a reading may have reached. Within a group, `fronts` are readings that
    // still follow it and `done` those that stopped following it.
    let mut fronts: BTreeSet<usize> = BTreeSet::from([0]);
    let mut done: BTreeSet<usize> = BTreeSet::new();
    let mut group = 0;
    for e in es {
        if e.group == 0 || e.group != group {
            fronts.append(&mut done);
            group = e.group;
        }
        if let V::Claim(c) = e.v {
            fronts.retain(|&n| n == c as usize);
            continue;
        }
        let mut next = BTreeSet::new();
        for n in fronts {
            if n < ps.len() && matches(&e.v, &ps[n], &mut path.clone()).is_ok() {
                next.insert(n + 1);
            }
            if e.group != 0 {
                done.insert(n);
            }
        }
        fronts = next;
    }
    fronts.append(&mut done);
    if fronts.contains(&ps.len()) {
        Ok(())
    } else {
        Err(format!(
            "at /{}: array {} is not the written items {} with interrupted calls cut short (and the reported counts)",
            path.join("/"),
            clip(&format!("{ps:?}")),
            clip(&format!("{es:?}"))
        ))
    }
}

pub fn clip(s: &str) -> String {
    if s.len() <= 400 {
        return s.to_string();
    }
    let mut k = 400;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}…", &s[..k])
}

/// Dictionaries compare as multisets of entries (entries of one key in order).
pub fn match_dict(es: &[E], ps: &[(Vec<u8>, PV)], path: &mut Vec<String>) -> Result<(), String> {
    let mut used = vec![false; ps.len()];
    let mut at: HashMap<&[u8], VecDeque<usize>> = HashMap::new();
    for (i, (k, _)) in ps.iter().enumerate() {
        at.entry(k).or_default().push_back(i);
    }
    let mut cut: Vec<u32> = Vec::new();
    let mut n = 0;
    for e in es {
        if let V::Claim(c) = e.v {
            if c != n {
                return Err(format!("at /{}: writer reported {c} entries when {n} had been written", path.join("/")));
            }
            continue;
        }
        if e.group != 0 && cut.contains(&e.group) {
            continue;
        }
        let found = at.get_mut(e.key.as_slice());
        match found.as_ref().and_then(|q| q.front().copied()) {
            Some(i) => {
                path.push(show(&e.key));
                let r = matches(&e.v, &ps[i].1, path);
                if r.is_err() && e.group != 0 {
                    // An interrupted call that did not get this far.
                    path.pop();
                    cut.push(e.group);
                    continue;
                }
                r?;
                path.pop();
                used[i] = true;
                found.map(VecDeque::pop_front);
                n += 1;
            }
            None if e.group != 0 => cut.push(e.group),
            None => return Err(format!("at /{}: entry /{} was written but is missing", path.join("/"), show(&e.key))),
        }
    }
    if let Some(i) = used.iter().position(|u| !u) {
        return Err(format!(
            "at /{}: entry /{} = {} was never written",
            path.join("/"),
            show(&ps[i].0),
            clip(&format!("{:?}", ps[i].1))
        ));
    }
    Ok(())
}

/// Expected indirect object.
#[derive(Clone, Debug)]
pub struct Obj {
    pub id: i32,
    pub body: V,
    pub stream: Option<Vec<u8>>,
    /// The object was in flight when it was lost (leak, failing allocation): nothing is promised about it.
    pub tainted: bool,
}

impl Obj {
    pub fn check(&self, o: &crate::reader::PObj) -> Result<(), String> {
        if o.id != self.id as i64 || o.gen != 0 {
            return Err(format!("object {} reads back as object {} {}", self.id, o.id, o.gen));
        }
        let mut path = vec![];
        match (&self.stream, &o.stream) {
            (None, None) => matches(&self.body, &o.body, &mut path).map_err(|e| format!("object {}: {e}", self.id)),
            (Some(a), Some(b)) => {
                if a != b {
                    let at = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
                    return Err(format!(
                        "object {}: stream data differs at byte {at} (wrote {} bytes, read {}): wrote '{}' read '{}'",
                        self.id, a.len(), b.len(),
                        show(&a[at..(at + 40).min(a.len())]), show(&b[at..(at + 40).min(b.len())])
                    ));
                }
                // The library adds the length entry.
                let V::Dict(es) = &self.body else { return Err("model: stream body".into()) };
                let mut es = es.clone();
                if !es.iter().any(|e| e.key == b"Length") {
                    es.push(E::pair(b"Length", V::Int(a.len() as i32)));
                }
                matches(&V::Dict(es), &o.body, &mut path).map_err(|e| format!("object {}: {e}", self.id))
            }
            (a, b) => Err(format!("object {}: stream written: {}, read: {}", self.id, a.is_some(), b.is_some())),
        }
    }
}

pub fn map_refs(v: &V, f: &mut dyn FnMut(i32) -> i32) -> V {
    match v {
        V::Ref(r) => V::Ref(f(*r)),
        V::Arr(es) => V::Arr(es.iter().map(|e| E { key: e.key.clone(), v: map_refs(&e.v, f), group: e.group }).collect()),
        V::Dict(es) => V::Dict(es.iter().map(|e| E { key: e.key.clone(), v: map_refs(&e.v, f), group: e.group }).collect()),
        v => v.clone(),
    }
}

// ---------------------------------------------------------------------------------------------
// Value generation.

#[derive(Clone, Copy, Debug)]
pub struct GenCfg {
    /// References are drawn from 1..=max_ref most of the time.
    pub max_ref: i32,
    /// Wilder values.
    pub wild: bool,
    pub big: bool,
}

pub const KEYWORDS: &[&[u8]] = &[
    b"endobj", b"1 0 R", b"stream", b"endstream", b"obj", b"R", b"4 0 obj", b"xref", b"trailer", b">>", b"<<", b"%", b"startxref",
    b"%%EOF", b"true", b"null", b"2 0 R 3 0 R", b">>\nstream\n", b"\nendstream\nendobj\n", b"\\", b"(", b")", b"stream 7 0 R",
    b"<41>", b"beginobj", b"\r\n", b"s", b"endobj 5 0 R",
];

/// A length at or next to where buffers, counters and limits tend to end.
pub fn edge_len(c: &Ctx) -> usize {
    let n = *c.pick(&[127usize, 128, 255, 256, 512, 999, 1000, 1023, 1024, 2048, 4095, 4096, 8191, 8192, 10_000, 16_383, 16_384, 32_767, 32_768]);
    match c.draw(4) {
        0 => n,
        1 => n + 1,
        2 => n - 1,
        _ => c.range(n / 2, n),
    }
}

/// Long data over a drawn alphabet, most of it one byte.
fn long_bytes(c: &Ctx) -> Vec<u8> {
    let n = edge_len(c);
    let alphabet: &[u8] = *c.pick(&[b"ab(".as_slice(), b"a)", b"()", b"\\a", b"\\()7", b"abc def", b"a\r\n", b"\r", b"\0a0", b"\x80\xffa", b"\n\t ", b"R 0 1"]);
    let mut rng = Rng::new(c.draw(u32::MAX) as u64);
    let mut out: Vec<u8> = match c.draw(4) {
        0 => (0..n).map(|_| alphabet[rng.next() as usize % alphabet.len()]).collect(),
        1 => (0..n).map(|_| rng.next() as u8).collect(),
        // One odd byte out, often last.
        2 => {
            let mut v = vec![b'a'; n];
            let at = if c.draw(2) == 0 { n - 1 } else { c.range(0, n - 1) };
            v[at] = *c.pick(b"()\\\r\n\x80\xff\0#");
            v
        }
        // Properly nested, or almost.
        _ => {
            let k = n / 2;
            let mut v = vec![b'('; k];
            v.extend(vec![b')'; k]);
            v
        }
    };
    if c.draw(4) == 0 {
        let kw = *c.pick(KEYWORDS);
        let at = c.range(0, out.len());
        out.splice(at..at, kw.iter().copied());
    }
    out
}

pub fn gen_bytes(c: &Ctx, big: bool) -> Vec<u8> {
    if c.chance(1, 20) {
        if let Some(x) = c.recall::<Vec<u8>>(Slot::Other) {
            return x;
        }
    }
    let x = new_bytes(c, big);
    if x.len() < 400 { c.remember(Slot::Other, &x); }
    x
}

fn new_bytes(c: &Ctx, big: bool) -> Vec<u8> {
    let cls = c.weighted(&[6, 4, 3, 3, 4, 3, 2, 2]);
    let n = match c.weighted(&[90, 30, 12, 1, if big { 3 } else { 0 }]) {
        0 => c.range(0, 6),
        1 => c.range(0, 24),
        2 => c.range(0, 300),
        3 => return long_bytes(c),
        _ => *c.pick(&[c.range(30_000, 70_000), 65_535, 65_536, c.range(70_000, 200_000)]),
    };
    if n > 2000 {
        let (a, b) = (c.draw(256) as u8, c.draw(256) as u8);
        return (0..n).map(|i| a.wrapping_add(b.wrapping_mul(i as u8))).collect();
    }
    let mut out = Vec::new();
    match cls {
        0 => (0..n).for_each(|_| out.push(b'a' + c.draw(26) as u8)),
        1 => (0..n).for_each(|_| out.push(*c.pick(b"()\\()a"))),
        2 => (0..n).for_each(|_| out.push(c.draw(32) as u8)),
        3 => (0..n).for_each(|_| out.push(c.draw(256) as u8)),
        4 => {
            for _ in 0..n.min(6) {
                let kw = *c.pick(KEYWORDS);
                out.extend_from_slice(kw);
                if c.chance(1, 3) {
                    out.push(*c.pick(b" \n(/<"));
                }
            }
        }
        5 => (0..n).for_each(|_| out.push(c.draw(128) as u8)),
        6 => (0..n).for_each(|_| out.push(*c.pick(b"\\01278nrtbf()\n\r \x7f"))),
        _ => (0..n).for_each(|_| out.push(*c.pick(b"[]<>(){}/%# R0"))),
    }
    out
}

pub fn gen_text(c: &Ctx) -> String {
    if c.chance(1, 20) {
        if let Some(x) = c.recall::<String>(Slot::Main) {
            return x;
        }
    }
    let x = new_text(c);
    if x.len() < 400 { c.remember(Slot::Main, &x); }
    x
}

fn new_text(c: &Ctx) -> String {
    let n = match c.weighted(&[60, 18, 3, 1]) {
        0 => c.range(0, 6),
        1 => c.range(0, 20),
        2 => c.range(100, 400),
        // Long, with one character that differs.
        _ => {
            let mut v = vec![*c.pick(&['a', 'a', 'é', '語', '(', '\r']); edge_len(c).min(9_000)];
            let at = if c.draw(2) == 0 { v.len() - 1 } else { c.range(0, v.len() - 1) };
            v[at] = *c.pick(&['é', '語', '😀', '(', ')', '\\', '\0', '\u{10ffff}', 'b']);
            return v.into_iter().collect();
        }
    };
    let cls = c.draw(7);
    if cls == 6 {
        return c.pick(&["en", "en-US", "de", "x", "UTF-8", "Untitled", "1.0", "A", "%", "null", "D:20240101"]).to_string();
    }
    let mut s = String::new();
    if n >= 100 {
        let ch = *c.pick(&['a', 'é', '語', '😀']);
        s.extend(std::iter::repeat(ch).take(n));
        return s;
    }
    for _ in 0..n {
        s.push(match cls {
            0 => (b'a' + c.draw(26) as u8) as char,
            1 => *c.pick(&['a', '(', ')', '\\', ' ', '~', 'R', '0', '1']),
            2 => *c.pick(&['é', 'ü', 'þ', 'ÿ', 'a', '\u{80}', '\u{7f}']),
            3 => *c.pick(&['語', 'ก', '\u{feff}', '\u{ffff}', '\u{d7ff}', '\u{e000}', '\u{fffd}']),
            4 => *c.pick(&['😀', '\u{10000}', '\u{10ffff}', 'a', '\u{1f468}']),
            _ => *c.pick(&['\n', '\r', '\t', '\0', 'x', '\u{1f}', '\u{7f}', '\u{1b}']),
        });
    }
    s
}

pub fn gen_name(c: &Ctx) -> Vec<u8> {
    if c.chance(1, 16) {
        if let Some(x) = c.recall::<Vec<u8>>(Slot::Main) {
            return x;
        }
    }
    let x = new_name(c);
    if x.len() < 400 { c.remember(Slot::Main, &x); }
    x
}

fn new_name(c: &Ctx) -> Vec<u8> {
    match c.weighted(&[24, 12, 9, 9, 6, 6, 4, 1, 4]) {
        7 => {
            let mut v = vec![*c.pick(b"aA1#\xff "); edge_len(c)];
            let at = if c.draw(2) == 0 { v.len() - 1 } else { c.range(0, v.len() - 1) };
            v[at] = *c.pick(b"#/() \0\x80z!~");
            v
        }
        0 => (0..c.range(1, 5)).map(|_| b'A' + c.draw(26) as u8).collect(),
        1 => c.pick(&[
            b"R".as_slice(), b"stream", b"endobj", b"obj", b"endstream", b"Length", b"Type", b"1", b"0 R", b"4 0 R", b"true", b"null", b"xref", b"trailer",
            b"s", b"Rstream", b"1.5", b"-", b"beginobj", b"Default", b"None", b"Normal", b"Identity", b"Identity-H", b"StandardEncoding", b"DeviceRGB", b"All",
            b"Root", b"Custom", b".notdef",
        ])
        .to_vec(),
        2 => (0..c.range(1, 6)).map(|_| *c.pick(b"#/()<>[]{}% \n\t\r\x0c\0A")).collect(),
        3 => (0..c.range(1, 6)).map(|_| c.draw(256) as u8).collect(),
        4 => (0..c.range(1, 8)).map(|_| *c.pick(b"!~+-_.'\"*,;:=?@^`|&$\x7f\x80A")).collect(),
        5 => vec![],
        8 => {
            let mut v: Vec<u8> = (0..c.range(0, 5)).map(|_| b'A' + c.draw(26) as u8).collect();
            let odd = *c.pick(b"  \t\n\0/#");
            match c.draw(3) {
                0 => v.push(odd),
                1 => v.insert(0, odd),
                _ => {
                    v.push(odd);
                    v.insert(0, odd)
                }
            }
            v
        }
        _ => (0..c.range(100, 300)).map(|i| b'a' + (i % 26) as u8).collect(),
    }
}

pub fn gen_int(c: &Ctx) -> i32 {
    if c.chance(1, 16) {
        if let Some(x) = c.recall::<i32>(Slot::Main) {
            return x;
        }
    }
    let x = new_int(c);
    c.remember(Slot::Main, &x);
    x
}

fn new_int(c: &Ctx) -> i32 {
    match c.weighted(&[8, 4, 4, 2, 4, 1]) {
        4 => *c.pick(&[0, 0, 0, 1, 1, 1, -1, 2, 3, 4, 8, 16, 90, 180, 270, 360, 100, 400, 255, 1000]),
        5 => *c.pick(&[i32::MIN, i32::MAX]),
        0 => c.draw(20) as i32,
        1 => *c.pick(&[0, 1, -1, 9, 10, 99, 100, 127, 128, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 8388607, 16777217, 999_999_999, 1_000_000_000, -1_000_000_000, i32::MAX, i32::MIN, -i32::MAX, i32::MIN + 1]),
        2 => c.draw(2000) as i32 - 1000,
        _ => c.draw(u32::MAX) as i32,
    }
}

/// A small code: one that neighbours a recent one now and then.
pub fn gen_u16(c: &Ctx) -> u16 {
    let x = match c.weighted(&[3, 3, 3, 3]) {
        0 => *c.pick(&[0, 0, 1, 1, 2, 3, 6, 9, 10, 31, 32, 99, 100, 127, 128, 255, 256, 400, 700, 999, 1000, 32767, 32768, 65534, 65535]),
        1 => c.draw(20) as u16,
        2 => match c.recall::<u16>(Slot::Main) {
            Some(x) => x.wrapping_add(c.draw(3) as u16).wrapping_sub(1),
            None => 5,
        },
        _ => c.draw(65536) as u16,
    };
    c.remember(Slot::Main, &x);
    x
}

pub fn gen_u8(c: &Ctx) -> u8 {
    match c.draw(3) {
        0 => *c.pick(&[0, 1, 2, 9, 10, 12, 31, 32, 99, 100, 127, 128, 254, 255]),
        1 => c.draw(10) as u8,
        _ => c.draw(256) as u8,
    }
}

pub fn gen_real(c: &Ctx) -> f32 {
    if c.chance(1, 16) {
        if let Some(x) = c.recall::<f32>(Slot::Main) {
            return x;
        }
    }
    let x = new_real(c);
    c.remember(Slot::Main, &x);
    x
}

fn new_real(c: &Ctx) -> f32 {
    match c.weighted(&[6, 4, 5, 4, 4, 5]) {
        5 => *c.pick(&[
            0.0, 0.0, 1.0, 1.0, 1.0, -1.0, 0.5, 2.0, 3.0, 4.0, 8.0, 10.0, 12.0, 72.0, 90.0, 100.0, 180.0, 255.0, 270.0, 360.0, 400.0, 500.0, 595.0, 612.0,
            792.0, 842.0, 1000.0, -90.0, 2048.5, 65535.0,
        ]),
        0 => c.draw(200) as f32 / 4.0,
        1 => -(c.draw(2000) as f32 / 8.0),
        2 => *c.pick(&[
            0.0, -0.0, 0.1, 1e-6, 9.9999e-7, 1.0000001e-6, -1e-6, 1e-7, 1e-38, f32::MIN_POSITIVE, 1e-45, -1e-45, 1e12, 9.9999999e11, 1.0000001e12, -1e12,
            1e13, 1e30, f32::MAX, f32::MIN, 2147483648.0, -2147483648.0, 2147483520.0, -2147483904.0, 4294967296.0, 16777216.0, 16777217.0, 0.3333333,
            123456.79, 8388607.5, 0.5, 1.5, -1.5, f32::EPSILON, 1e7, 1e8, 1.0e9, 1e10, 99999.99, 0.00001, 0.000099, 1e-5,
        ]),
        3 => {
            let x = f32::from_bits(c.draw(u32::MAX));
            if x.is_finite() {
                x
            } else {
                1.25
            }
        }
        _ => {
            let m = c.draw(1_000_000) as f32;
            let e = c.draw(14) as i32 - 7;
            let x = m * 10f32.powi(e);
            if c.chance(1, 2) {
                -x
            } else {
                x
            }
        }
    }
}

pub fn gen_ref(c: &Ctx, g: &GenCfg) -> i32 {
    if c.chance(1, 16) {
        if let Some(x) = c.recall::<i32>(Slot::Other) {
            return x;
        }
    }
    let x = new_ref(c, g);
    c.remember(Slot::Other, &x);
    x
}

fn new_ref(c: &Ctx, g: &GenCfg) -> i32 {
    match c.weighted(&[12, 2, 1]) {
        0 => 1 + c.draw(g.max_ref.max(1) as u32) as i32,
        1 => 1 + c.draw(100_000) as i32,
        _ => *c.pick(&[
            1, 9, 10, 99, 100, 255, 256, 999, 1000, 9999, 10_000, 32_767, 32_768, 65_535, 65_536, 99_999, 100_000, 999_999, 1_000_000, 8_388_607, 8_388_608,
            9_999_999, 10_000_000, 16_777_215, 16_777_216, 16_777_217, 99_999_999, 100_000_000, 999_999_999, 1_000_000_000, i32::MAX - 1, i32::MAX,
        ]),
    }
}

pub fn gen_date(c: &Ctx) -> DateP {
    if c.chance(1, 8) {
        if let Some(x) = c.recall::<DateP>(Slot::Main) {
            return x;
        }
    }
    let x = new_date(c);
    c.remember(Slot::Main, &x);
    x
}

fn new_date(c: &Ctx) -> DateP {
    let year = *c.pick(&[2024u16, 0, 1, 999, 1000, 9999, 1970, 10000, 65535]);
    let n = c.range(0, 5);
    let lim = [(1u8, 12u8), (1, 31), (0, 23), (0, 59), (0, 59)];
    let mut parts = [None; 5];
    let wild = c.draw(4) == 3;
    for (i, p) in parts.iter_mut().enumerate().take(n) {
        *p = Some(if wild { *c.pick(&[0u8, 1, 9, 10, 12, 13, 23, 24, 31, 32, 59, 60, 61, 99, 100, 255]) } else { c.range(lim[i].0 as usize, lim[i].1 as usize) as u8 });
    }
    if n > 1 && c.chance(1, 8) {
        parts[c.range(0, n - 1)] = None;
    }
    let off = (n == 5 || c.chance(1, 8)) && c.chance(1, 2);
    let hour_off = if off { Some(if wild { *c.pick(&[0i8, -1, 1, 23, -23, 24, -24, 127, -128]) } else { c.range(0, 46) as i8 - 23 }) } else { None };
    let min_off = if c.chance(1, 2) { Some(*c.pick(&[0u8, 30, 59, 1, 60, 255])) } else { None };
    DateP { year, parts, hour_off, min_off, backwards: c.draw(2) == 1 }
}

pub const N_KINDS: usize = 11;

/// Give numbers that belong together one of the shapes such numbers often have.
pub fn shape(c: &Ctx, xs: &mut [f32]) {
    let n = xs.len();
    if n < 2 || !c.chance(1, 5) {
        return;
    }
    let first = xs[0];
    let set = |xs: &mut [f32], f: &dyn Fn(usize) -> f32| (0..n).for_each(|i| xs[i] = f(i));
    match c.draw(18) {
        0 => set(xs, &|_| first),
        1 => set(xs, &|_| 0.0),
        2 => set(xs, &|_| 1.0),
        3 => set(xs, &|i| (i % 2) as f32),
        4 => set(xs, &|i| [-100.0, 100.0][i % 2]),
        5 | 6 => {
            // The identity, for as many rows as fit.
            let diagonal = if n == 9 { 4 } else { 3 };
            set(xs, &|i| if i % diagonal == 0 { 1.0 } else { 0.0 })
        }
        7 => set(xs, &|i| if i < n / 2 { 0.0 } else { 1.0 }),
        8 => (2..n).for_each(|i| xs[i] = xs[i % 2]),
        9 => (n / 2..n).for_each(|i| xs[i] = xs[i - n / 2]),
        10 => (0..n / 2).for_each(|i| xs[n - 1 - i] = xs[i]),
        11 => xs.sort_by(f32::total_cmp),
        12 => xs.sort_by(|a, b| b.total_cmp(a)),
        13 => {
            let i = 1 + c.draw(n as u32 - 1) as usize;
            xs[i] = xs[i - 1];
        }
        14 => set(xs, &|i| i as f32),
        15 => (1..n).for_each(|i| xs[i] = -xs[i - 1]),
        16 => set(xs, &|i| if i == 0 || i == 3 { 0.001 } else { 0.0 }),
        _ => {
            let (i, j) = (c.draw(n as u32) as usize, c.draw(n as u32) as usize);
            xs[i] = xs[j];
        }
    }
}

pub fn gen_reals<const N: usize>(c: &Ctx) -> [f32; N] {
    let mut xs: Vec<Prim> = (0..N).map(|_| Prim::Real(gen_real(c))).collect();
    shape_list(c, &mut xs);
    std::array::from_fn(|i| if let Some(Prim::Real(x)) = xs.get(i) { *x } else { 0.0 })
}

/// The same for a list of values of one kind, now and then the very list of a moment ago.
pub fn shape_list(c: &Ctx, vals: &mut Vec<Prim>) {
    let n = vals.len();
    if n == 0 || n > 50 {
        return;
    }
    if c.chance(1, 16) {
        if let Some(xs) = c.recall::<Vec<Prim>>(Slot::Main) {
            if std::mem::discriminant(&xs[0]) == std::mem::discriminant(&vals[0]) {
                *vals = xs;
            }
            return;
        }
    }
    new_shape(c, vals);
    if vals.len() > 1 {
        c.remember(Slot::Main, vals);
    }
}

fn new_shape(c: &Ctx, vals: &mut [Prim]) {
    let n = vals.len();
    if n < 2 {
        return;
    }
    if vals.iter().all(|v| matches!(v, Prim::Real(_))) {
        let mut xs: Vec<f32> = vals.iter().map(|v| if let Prim::Real(x) = v { *x } else { 0.0 }).collect();
        shape(c, &mut xs);
        vals.iter_mut().zip(xs).for_each(|(v, x)| *v = Prim::Real(x));
        return;
    }
    if !c.chance(1, 5) {
        return;
    }
    match c.draw(6) {
        0 => (1..n).for_each(|i| vals[i] = vals[0].clone()),
        1 => {
            let i = 1 + c.draw(n as u32 - 1) as usize;
            vals[i] = vals[i - 1].clone();
        }
        2 => (2..n).for_each(|i| vals[i] = vals[i % 2].clone()),
        3 => (0..n / 2).for_each(|i| vals[n - 1 - i] = vals[i].clone()),
        step => {
            let step = if step == 4 { 1 } else { -1 };
            for i in 1..n {
                let next = match &vals[i - 1] {
                    Prim::Int(x) => Prim::Int(x.wrapping_add(step)),
                    Prim::Ref(x) => Prim::Ref(x.checked_add(step).filter(|&x| x > 0).unwrap_or(1)),
                    Prim::Bool(x) => Prim::Bool(!x),
                    other => other.clone(),
                };
                vals[i] = next;
            }
        }
    }
}

pub fn gen_prim_kind(c: &Ctx, g: &GenCfg, kind: usize) -> Prim {
    match kind {
        0 => Prim::Int(gen_int(c)),
        1 => Prim::Name(gen_name(c)),
        2 => Prim::Ref(gen_ref(c, g)),
        3 => Prim::Str(gen_bytes(c, g.big)),
        4 => Prim::Bool(c.draw(2) == 1),
        5 => Prim::Real(gen_real(c)),
        6 => Prim::Text(gen_text(c)),
        7 => Prim::Null,
        8 => Prim::Rect(gen_reals(c)),
        9 => Prim::Date(gen_date(c)),
        _ => {
            let n = c.range(0, 3);
            Prim::LangText(
                (0..n)
                    .map(|_| {
                        let l = *c.pick(&[*b"en", *b"de", *b"zh", *b"fr", *b"9z", *b"\x1b\xff"]);
                        let r = if c.chance(1, 2) { Some(*c.pick(&[*b"US", *b"CH", *b"00", *b"\0<"])) } else { None };
                        (l, r, gen_text(c))
                    })
                    .collect(),
            )
        }
    }
}

pub fn gen_prim(c: &Ctx, g: &GenCfg) -> Prim {
    let k = c.weighted(&[5, 5, 5, 5, 2, 5, 3, 2, 2, 1, 1]);
    gen_prim_kind(c, g, k)
}
