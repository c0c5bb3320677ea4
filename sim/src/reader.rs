//! An independent, strict PDF reader. It shares no code with the library under test and is
//! insensitive to optional whitespace, number spelling and string spelling.

use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum PV {
    Null,
    Bool(bool),
    /// The token text.
    Num(String),
    Str(Vec<u8>),
    Name(Vec<u8>),
    Ref(i64, i64),
    Arr(Vec<PV>),
    Dict(Vec<(Vec<u8>, PV)>),
}

impl PV {
    pub fn get(&self, key: &[u8]) -> Option<&PV> {
        match self {
            PV::Dict(d) => d.iter().find(|(k, _)| k == key).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn int(&self) -> Option<i64> {
        match self {
            PV::Num(t) if !t.contains('.') => t.parse().ok(),
            _ => None,
        }
    }
    pub fn real(&self) -> Option<f32> {
        match self {
            PV::Num(t) => t.parse().ok(),
            _ => None,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Num(String),
    Str(Vec<u8>),
    Name(Vec<u8>),
    ArrOpen,
    ArrClose,
    DictOpen,
    DictClose,
    Kw(Vec<u8>),
    Eof,
}

pub fn is_ws(b: u8) -> bool {
    matches!(b, 0 | 9 | 10 | 12 | 13 | 32)
}
pub fn is_delim(b: u8) -> bool {
    matches!(b, b'(' | b')' | b'<' | b'>' | b'[' | b']' | b'{' | b'}' | b'/' | b'%')
}
fn is_regular(b: u8) -> bool {
    !is_ws(b) && !is_delim(b)
}

pub type R<T> = Result<T, String>;

#[derive(Clone)]
pub struct Lexer<'a> {
    pub b: &'a [u8],
    pub i: usize,
}

fn hexv(b: u8) -> Option<u8> {
    match b {
        b'0'..=b'9' => Some(b - b'0'),
        b'a'..=b'f' => Some(b - b'a' + 10),
        b'A'..=b'F' => Some(b - b'A' + 10),
        _ => None,
    }
}

pub fn is_number(t: &[u8]) -> bool {
    let t = match t.first() {
        Some(b'+' | b'-') => &t[1..],
        _ => t,
    };
    let mut digits = 0;
    let mut dots = 0;
    for &b in t {
        match b {
            b'0'..=b'9' => digits += 1,
            b'.' => dots += 1,
            _ => return false,
        }
    }
    digits > 0 && dots <= 1
}

pub fn show(b: &[u8]) -> String {
    let s: String = b
        .iter()
        .take(160)
        .map(|&c| if (32..127).contains(&c) && c != b'\\' { (c as char).to_string() } else { format!("\\x{c:02x}") })
        .collect();
    if b.len() > 160 {
        format!("{s}…({} bytes)", b.len())
    } else {
        s
    }
}

impl<'a> Lexer<'a> {
    pub fn new(b: &'a [u8], i: usize) -> Self {
        Lexer { b, i }
    }

    pub fn skip_ws(&mut self) {
        while self.i < self.b.len() {
            let c = self.b[self.i];
            if is_ws(c) {
                self.i += 1;
            } else if c == b'%' {
                while self.i < self.b.len() && self.b[self.i] != b'\n' && self.b[self.i] != b'\r' {
                    self.i += 1;
                }
            } else {
                break;
            }
        }
    }

    pub fn tok(&mut self) -> R<Tok> {
        self.skip_ws();
        let at = self.i;
        let Some(&c) = self.b.get(self.i) else { return Ok(Tok::Eof) };
        match c {
            b'[' => {
                self.i += 1;
                Ok(Tok::ArrOpen)
            }
            b']' => {
                self.i += 1;
                Ok(Tok::ArrClose)
            }
            b'<' if self.b.get(self.i + 1) == Some(&b'<') => {
                self.i += 2;
                Ok(Tok::DictOpen)
            }
            b'<' => {
                self.i += 1;
                let mut out = Vec::new();
                let mut half: Option<u8> = None;
                loop {
                    let Some(&c) = self.b.get(self.i) else { return Err(format!("unterminated hex string at {at}")) };
                    self.i += 1;
                    if c == b'>' {
                        break;
                    }
                    if is_ws(c) {
                        continue;
                    }
                    let Some(v) = hexv(c) else { return Err(format!("bad hex string byte {c:#x} at {}", self.i - 1)) };
                    match half.take() {
                        None => half = Some(v),
                        Some(h) => out.push(h << 4 | v),
                    }
                }
                if let Some(h) = half {
                    out.push(h << 4);
                }
                Ok(Tok::Str(out))
            }
            b'>' if self.b.get(self.i + 1) == Some(&b'>') => {
                self.i += 2;
                Ok(Tok::DictClose)
            }
            b'(' => self.literal(at),
            b'/' => {
                self.i += 1;
                let mut out = Vec::new();
                while self.i < self.b.len() && is_regular(self.b[self.i]) {
                    let c = self.b[self.i];
                    if c == b'#' {
                        let h = self.b.get(self.i + 1).copied().and_then(hexv);
                        let l = self.b.get(self.i + 2).copied().and_then(hexv);
                        match (h, l) {
                            (Some(h), Some(l)) => out.push(h << 4 | l),
                            _ => return Err(format!("bad name escape at {}", self.i)),
                        }
                        self.i += 3;
                    } else {
                        out.push(c);
                        self.i += 1;
                    }
                }
                Ok(Tok::Name(out))
            }
            b')' | b'>' | b'{' | b'}' => Err(format!("stray delimiter {:?} at {at}", c as char)),
            _ => {
                let s = self.i;
                while self.i < self.b.len() && is_regular(self.b[self.i]) {
                    self.i += 1;
                }
                let t = &self.b[s..self.i];
                if is_number(t) {
                    Ok(Tok::Num(String::from_utf8(t.to_vec()).unwrap()))
                } else {
                    Ok(Tok::Kw(t.to_vec()))
                }
            }
        }
    }

    fn literal(&mut self, at: usize) -> R<Tok> {
        self.i += 1;
        let mut depth = 1;
        let mut out = Vec::new();
        loop {
            let Some(&c) = self.b.get(self.i) else { return Err(format!("unterminated string at {at}")) };
            self.i += 1;
            match c {
                b'(' => {
                    depth += 1;
                    out.push(c);
                }
                b')' => {
                    depth -= 1;
                    if depth == 0 {
                        break;
                    }
                    out.push(c);
                }
                b'\r' => {
                    if self.b.get(self.i) == Some(&b'\n') {
                        self.i += 1;
                    }
                    out.push(b'\n');
                }
                b'\\' => {
                    let Some(&e) = self.b.get(self.i) else { return Err(format!("unterminated string at {at}")) };
                    self.i += 1;
                    match e {
                        b'n' => out.push(b'\n'),
                        b'r' => out.push(b'\r'),
                        b't' => out.push(b'\t'),
                        b'b' => out.push(8),
                        b'f' => out.push(12),
                        b'0'..=b'7' => {
                            let mut v = (e - b'0') as u32;
                            for _ in 0..2 {
                                match self.b.get(self.i) {
                                    Some(&d @ b'0'..=b'7') => {
                                        v = v * 8 + (d - b'0') as u32;
                                        self.i += 1;
                                    }
                                    _ => break,
                                }
                            }
                            out.push(v as u8);
                        }
                        b'\r' => {
                            if self.b.get(self.i) == Some(&b'\n') {
                                self.i += 1;
                            }
                        }
                        b'\n' => {}
                        other => out.push(other),
                    }
                }
                _ => out.push(c),
            }
        }
        Ok(Tok::Str(out))
    }

    /// Parse one value. With `refs`, `n g R` is a reference.
    pub fn value(&mut self, refs: bool, depth: usize) -> R<PV> {
        let at = self.i;
        let t = self.tok()?;
        self.value_from(t, refs, depth, at)
    }

    pub fn value_from(&mut self, t: Tok, refs: bool, depth: usize, at: usize) -> R<PV> {
        if depth > 3000 {
            return Err("nesting too deep".into());
        }
        match t {
            Tok::Num(n) => {
                if refs && n.bytes().all(|b| b.is_ascii_digit()) {
                    let mut look = self.clone();
                    if let Ok(Tok::Num(g)) = look.tok() {
                        if g.bytes().all(|b| b.is_ascii_digit()) {
                            if let Ok(Tok::Kw(k)) = look.tok() {
                                if k == b"R" {
                                    self.i = look.i;
                                    let id = n.parse().map_err(|_| format!("bad ref id {n}"))?;
                                    let gen = g.parse().map_err(|_| format!("bad ref gen {g}"))?;
                                    return Ok(PV::Ref(id, gen));
                                }
                            }
                        }
                    }
                }
                Ok(PV::Num(n))
            }
            Tok::Str(s) => Ok(PV::Str(s)),
            Tok::Name(n) => Ok(PV::Name(n)),
            Tok::Kw(k) if k == b"true" => Ok(PV::Bool(true)),
            Tok::Kw(k) if k == b"false" => Ok(PV::Bool(false)),
            Tok::Kw(k) if k == b"null" => Ok(PV::Null),
            Tok::Kw(k) => Err(format!("unexpected keyword '{}' at {at}", show(&k))),
            Tok::ArrOpen => {
                let mut xs = Vec::new();
                loop {
                    let at = self.i;
                    match self.tok()? {
                        Tok::ArrClose => return Ok(PV::Arr(xs)),
                        Tok::Eof => return Err(format!("unterminated array from {at}")),
                        t => xs.push(self.value_from(t, refs, depth + 1, at)?),
                    }
                }
            }
            Tok::DictOpen => {
                let mut xs = Vec::new();
                loop {
                    let at = self.i;
                    match self.tok()? {
                        Tok::DictClose => return Ok(PV::Dict(xs)),
                        Tok::Name(k) => {
                            let at = self.i;
                            let t = self.tok()?;
                            if t == Tok::DictClose {
                                return Err(format!("dictionary key /{} without value at {at}", show(&k)));
                            }
                            let v = self.value_from(t, refs, depth + 1, at)?;
                            xs.push((k, v));
                        }
                        t => return Err(format!("dictionary key expected at {at}, found {t:?}")),
                    }
                }
            }
            Tok::ArrClose | Tok::DictClose => Err(format!("stray close at {at}")),
            Tok::Eof => Err("unexpected end of data".into()),
        }
    }

    fn expect_kw(&mut self, k: &[u8]) -> R<()> {
        let at = self.i;
        match self.tok()? {
            Tok::Kw(x) if x == k => Ok(()),
            t => Err(format!("expected '{}' at {at}, found {t:?}", show(k))),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct PObj {
    pub id: i64,
    pub gen: i64,
    pub start: usize,
    pub end: usize,
    pub body: PV,
    pub stream: Option<Vec<u8>>,
    /// Where the stream data lies.
    pub data: Option<(usize, usize)>,
}

/// Parse the indirect object whose header starts at exactly `at` (no leading whitespace).
pub fn parse_object(b: &[u8], at: usize) -> R<PObj> {
    if at >= b.len() || !b[at].is_ascii_digit() {
        return Err(format!("no object header at offset {at} (found '{}')", show(&b[at.min(b.len())..(at + 12).min(b.len())])));
    }
    let mut lx = Lexer::new(b, at);
    let id = match lx.tok()? {
        Tok::Num(n) => n.parse::<i64>().map_err(|_| format!("bad object id '{n}' at {at}"))?,
        t => return Err(format!("object id expected at {at}, found {t:?}")),
    };
    let gen = match lx.tok()? {
        Tok::Num(n) => n.parse::<i64>().map_err(|_| format!("bad generation '{n}' at {at}"))?,
        t => return Err(format!("object generation expected at {at}, found {t:?}")),
    };
    lx.expect_kw(b"obj").map_err(|e| format!("object {id}: {e}"))?;
    let body = lx.value(true, 0).map_err(|e| format!("object {id} at {at}: {e}"))?;
    let mut stream = None;
    let mut data = None;
    let mark = lx.i;
    match lx.tok().map_err(|e| format!("object {id}: {e}"))? {
        Tok::Kw(k) if k == b"endobj" => {}
        Tok::Kw(k) if k == b"stream" => {
            let PV::Dict(_) = &body else { return Err(format!("object {id}: stream without dictionary")) };
            if b.get(lx.i) == Some(&b'\r') {
                lx.i += 1;
            }
            if b.get(lx.i) != Some(&b'\n') {
                return Err(format!("object {id}: no line feed after 'stream' at {}", lx.i));
            }
            lx.i += 1;
            let len = body
                .get(b"Length")
                .and_then(PV::int)
                .ok_or_else(|| format!("object {id}: stream without direct integer /Length"))?;
            let end = lx.i.checked_add(usize::try_from(len).map_err(|_| format!("object {id}: negative /Length"))?);
            let end = end.filter(|&e| e <= b.len()).ok_or_else(|| format!("object {id}: /Length {len} exceeds file"))?;
            stream = Some(b[lx.i..end].to_vec());
            data = Some((lx.i, end));
            lx.i = end;
            // An end-of-line before endstream.
            let mut ws = lx.i;
            while ws < b.len() && is_ws(b[ws]) {
                ws += 1;
            }
            if !b[ws..].starts_with(b"endstream") {
                return Err(format!(
                    "object {id}: no 'endstream' {len} bytes after 'stream' (found '{}')",
                    show(&b[lx.i..(lx.i + 24).min(b.len())])
                ));
            }
            lx.i = ws;
            lx.expect_kw(b"endstream").map_err(|e| format!("object {id}: {e}"))?;
            lx.expect_kw(b"endobj").map_err(|e| format!("object {id}: {e}"))?;
        }
        t => return Err(format!("object {id}: 'endobj' or 'stream' expected at {mark}, found {t:?}")),
    }
    Ok(PObj { id, gen, start: at, end: lx.i, body, stream, data })
}

/// Scan consecutive objects with only whitespace and comments between them until `stop`.
pub fn scan_objects(b: &[u8], from: usize, stop: usize) -> R<Vec<PObj>> {
    let mut out = Vec::new();
    let mut lx = Lexer::new(b, from);
    loop {
        lx.skip_ws();
        if lx.i >= stop {
            if lx.i > stop && !b[stop.min(b.len())..lx.i.min(b.len())].iter().all(|&c| is_ws(c)) {
                return Err(format!("scan overran {stop}"));
            }
            return Ok(out);
        }
        let o = parse_object(b, lx.i)?;
        lx.i = o.end;
        if o.end > stop {
            return Err(format!("object {} extends past {stop}", o.id));
        }
        out.push(o);
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Entry {
    Free { next: u64, gen: u64 },
    Used { off: u64, gen: u64 },
}

#[derive(Clone, Debug)]
pub struct File {
    pub version: (u8, u8),
    pub marker: [u8; 4],
    pub is_stream: bool,
    pub entries: BTreeMap<u64, Entry>,
    pub trailer: PV,
    pub startxref: usize,
    pub xref_obj: Option<PObj>,
    /// Raw (undecoded) data and decoded data of an xref stream.
    pub header_len: usize,
}

fn find_startxref(b: &[u8]) -> R<(usize, usize)> {
    let mut e = b.len();
    while e > 0 && is_ws(b[e - 1]) {
        e -= 1;
    }
    if !b[..e].ends_with(b"%%EOF") {
        return Err("file does not end with %%EOF".into());
    }
    e -= 5;
    let eol = e;
    while e > 0 && is_ws(b[e - 1]) {
        e -= 1;
    }
    if e == eol {
        return Err("no end of line before %%EOF".into());
    }
    let de = e;
    while e > 0 && b[e - 1].is_ascii_digit() {
        e -= 1;
    }
    let n: usize = std::str::from_utf8(&b[e..de]).unwrap().parse().map_err(|_| "bad startxref number".to_string())?;
    let ws = e;
    while e > 0 && is_ws(b[e - 1]) {
        e -= 1;
    }
    if ws == e || !b[..e].ends_with(b"startxref") {
        return Err("no startxref before %%EOF".into());
    }
    Ok((n, e - 9))
}

pub fn decode_filters(data: &[u8], dict: &PV) -> R<Vec<u8>> {
    let names: Vec<Vec<u8>> = match dict.get(b"Filter") {
        None => vec![],
        Some(PV::Name(n)) => vec![n.clone()],
        Some(PV::Arr(xs)) => xs
            .iter()
            .map(|x| match x {
                PV::Name(n) => Ok(n.clone()),
                _ => Err("filter array holds a non-name".to_string()),
            })
            .collect::<R<_>>()?,
        Some(v) => return Err(format!("bad /Filter {v:?}")),
    };
    let mut d = data.to_vec();
    for n in names {
        d = match n.as_slice() {
            b"ASCIIHexDecode" => {
                let mut out = Vec::new();
                let mut half = None;
                for &c in &d {
                    if c == b'>' {
                        break;
                    }
                    if is_ws(c) {
                        continue;
                    }
                    let v = hexv(c).ok_or("bad ASCIIHex data")?;
                    match half.take() {
                        None => half = Some(v),
                        Some(h) => out.push(h << 4 | v),
                    }
                }
                out
            }
            b"RunLengthDecode" => {
                let mut out = Vec::new();
                let mut i = 0;
                loop {
                    let l = *d.get(i).ok_or("run length data truncated")?;
                    i += 1;
                    if l == 128 {
                        break;
                    } else if l < 128 {
                        let n = l as usize + 1;
                        out.extend_from_slice(d.get(i..i + n).ok_or("run length data truncated")?);
                        i += n;
                    } else {
                        let v = *d.get(i).ok_or("run length data truncated")?;
                        out.extend(std::iter::repeat(v).take(257 - l as usize));
                        i += 1;
                    }
                }
                out
            }
            // Stand-in codecs used by the simulated filter callback: a reversible tag per name.
            other => {
                let tag = other.iter().fold(0u8, |a, &b| a.wrapping_mul(31).wrapping_add(b));
                if d.first() != Some(&tag) {
                    return Err(format!("data was not produced by filter {}", show(other)));
                }
                d[1..].iter().map(|&x| x ^ tag).collect()
            }
        };
    }
    Ok(d)
}

/// Inverse of `decode_filters` for one filter name.
pub fn encode_filter(data: &[u8], name: &[u8]) -> Vec<u8> {
    match name {
        b"ASCIIHexDecode" => {
            let mut o: Vec<u8> = data.iter().flat_map(|b| format!("{b:02x}").into_bytes()).collect();
            o.push(b'>');
            o
        }
        b"RunLengthDecode" => {
            let mut o = Vec::new();
            for c in data.chunks(128) {
                if c.len() > 1 && c.iter().all(|x| *x == c[0]) {
                    o.push((257 - c.len()) as u8);
                    o.push(c[0]);
                } else {
                    o.push((c.len() - 1) as u8);
                    o.extend_from_slice(c);
                }
            }
            o.push(128);
            o
        }
        other => {
            let tag = other.iter().fold(0u8, |a, &b| a.wrapping_mul(31).wrapping_add(b));
            let mut o = vec![tag];
            o.extend(data.iter().map(|&x| x ^ tag));
            o
        }
    }
}

pub fn read_file(b: &[u8]) -> R<File> {
    // Header.
    if b.len() < 15 || !b.starts_with(b"%PDF-") {
        return Err("no %PDF- header".into());
    }
    if !b[5].is_ascii_digit() || b[6] != b'.' || !b[7].is_ascii_digit() || b[8] != b'\n' || b[9] != b'%' {
        return Err(format!("malformed header '{}'", show(&b[..16])));
    }
    let marker = [b[10], b[11], b[12], b[13]];
    if !is_ws(b[14]) {
        return Err("binary marker not followed by end of line".into());
    }
    let (startxref, sx_at) = find_startxref(b)?;
    if startxref >= sx_at {
        return Err(format!("startxref {startxref} beyond itself"));
    }
    let mut entries = BTreeMap::new();
    let (is_stream, trailer, xref_obj);
    if b[startxref..].starts_with(b"xref") {
        is_stream = false;
        let mut lx = Lexer::new(b, startxref + 4);
        loop {
            lx.skip_ws();
            if b[lx.i..].starts_with(b"trailer") {
                break;
            }
            let nums: Vec<u64> = (0..2)
                .map(|_| match lx.tok() {
                    Ok(Tok::Num(n)) => n.parse().map_err(|_| format!("bad xref subsection '{n}'")),
                    t => Err(format!("bad xref subsection header {t:?}")),
                })
                .collect::<R<_>>()?;
            // One end of line.
            match b.get(lx.i) {
                Some(b'\n') => lx.i += 1,
                Some(b'\r') if b.get(lx.i + 1) == Some(&b'\n') => lx.i += 2,
                Some(b' ') if b.get(lx.i + 1) == Some(&b'\n') => lx.i += 2,
                _ => return Err("no end of line after xref subsection header".into()),
            }
            for k in 0..nums[1] {
                let e = b.get(lx.i..lx.i + 20).ok_or("xref table truncated")?;
                let digits = |r: std::ops::Range<usize>| -> R<u64> {
                    if e[r.clone()].iter().all(u8::is_ascii_digit) {
                        Ok(std::str::from_utf8(&e[r]).unwrap().parse().unwrap())
                    } else {
                        Err(format!("malformed xref entry '{}'", show(e)))
                    }
                };
                let v = digits(0..10)?;
                let g = digits(11..16)?;
                if e[10] != b' ' || e[16] != b' ' || !matches!(&e[18..20], b"\r\n" | b" \n" | b" \r") {
                    return Err(format!("malformed xref entry '{}'", show(e)));
                }
                let entry = match e[17] {
                    b'n' => Entry::Used { off: v, gen: g },
                    b'f' => Entry::Free { next: v, gen: g },
                    _ => return Err(format!("malformed xref entry '{}'", show(e))),
                };
                if entries.insert(nums[0] + k, entry).is_some() {
                    return Err(format!("xref entry {} listed twice", nums[0] + k));
                }
                lx.i += 20;
            }
        }
        lx.i += 7;
        let t = lx.value(true, 0).map_err(|e| format!("trailer: {e}"))?;
        if !matches!(t, PV::Dict(_)) {
            return Err("trailer is not a dictionary".into());
        }
        lx.skip_ws();
        if lx.i != sx_at {
            return Err(format!("junk between trailer and startxref at {}", lx.i));
        }
        trailer = t;
        xref_obj = None;
    } else {
        is_stream = true;
        let o = parse_object(b, startxref).map_err(|e| format!("xref stream: {e}"))?;
        let mut lx = Lexer::new(b, o.end);
        lx.skip_ws();
        if lx.i != sx_at {
            return Err(format!("junk between xref stream and startxref at {}", lx.i));
        }
        if o.body.get(b"Type") != Some(&PV::Name(b"XRef".to_vec())) {
            return Err("xref stream without /Type /XRef".into());
        }
        let raw = o.stream.clone().ok_or("xref object is not a stream")?;
        let data = decode_filters(&raw, &o.body)?;
        let size = o.body.get(b"Size").and_then(PV::int).filter(|s| *s >= 0).ok_or("xref stream without /Size")? as u64;
        let w: Vec<usize> = match o.body.get(b"W") {
            Some(PV::Arr(xs)) if xs.len() == 3 => xs
                .iter()
                .map(|x| x.int().filter(|v| (0..=8).contains(v)).map(|v| v as usize).ok_or("bad /W".to_string()))
                .collect::<R<_>>()?,
            _ => return Err("xref stream without /W".into()),
        };
        let index: Vec<u64> = match o.body.get(b"Index") {
            None => vec![0, size],
            Some(PV::Arr(xs)) if xs.len() % 2 == 0 => {
                xs.iter().map(|x| x.int().filter(|v| *v >= 0).map(|v| v as u64).ok_or("bad /Index".to_string())).collect::<R<_>>()?
            }
            _ => return Err("bad /Index".into()),
        };
        let row: usize = w.iter().sum();
        let total: u64 = index.chunks(2).map(|c| c[1]).sum();
        if row == 0 || data.len() as u64 != total * row as u64 {
            return Err(format!("xref stream holds {} bytes for {total} entries of {row} bytes", data.len()));
        }
        let mut pos = 0;
        let mut field = |n: usize| {
            let mut v = 0u64;
            for _ in 0..n {
                v = v << 8 | data[pos] as u64;
                pos += 1;
            }
            v
        };
        for c in index.chunks(2) {
            for k in 0..c[1] {
                let ty = if w[0] == 0 { field(0) + 1 } else { field(w[0]) };
                let a = field(w[1]);
                let g = field(w[2]);
                let e = match ty {
                    0 => Entry::Free { next: a, gen: g },
                    1 => Entry::Used { off: a, gen: g },
                    t => return Err(format!("xref stream entry {} has type {t}", c[0] + k)),
                };
                if entries.insert(c[0] + k, e).is_some() {
                    return Err(format!("xref entry {} listed twice", c[0] + k));
                }
            }
        }
        trailer = o.body.clone();
        xref_obj = Some(o);
    }
    Ok(File {
        version: (b[5] - b'0', b[7] - b'0'),
        marker,
        is_stream,
        entries,
        trailer,
        startxref,
        xref_obj,
        header_len: 14,
    })
}

impl File {
    /// Locate and parse an object through the cross-reference section.
    pub fn object(&self, b: &[u8], id: i64) -> R<PObj> {
        match self.entries.get(&(id as u64)) {
            Some(Entry::Used { off, gen }) => {
                let o = parse_object(b, *off as usize).map_err(|e| format!("object {id} via xref offset {off}: {e}"))?;
                if o.id != id {
                    return Err(format!("xref offset {off} for object {id} leads to object {}", o.id));
                }
                if o.gen != *gen as i64 {
                    return Err(format!("object {id}: generation {} but xref says {gen}", o.gen));
                }
                Ok(o)
            }
            Some(Entry::Free { .. }) => Err(format!("object {id} is marked free in the xref")),
            None => Err(format!("object {id} has no xref entry")),
        }
    }
}
