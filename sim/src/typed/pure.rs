//! Conversions without a writer: structure roles and PostScript operators.

use pdf_writer::types::*;

use crate::alloc::lib;
use crate::ctx::{Ctx, Res};
use crate::{ensure, viol};
use crate::model::*;
use crate::plan::{PlanCfg, Shadow};
use crate::reader::{is_number, show};

use super::structure::{struct_role, struct_role_2};
use super::{gen_prog, with_t, T};

fn name_of(v: &V) -> String {
    match v {
        V::Name(n) => String::from_utf8_lossy(n).into_owned(),
        _ => unreachable!("roles are names"),
    }
}
fn name2(r: StructRole2) -> String {
    let mut buf = [0; 6];
    String::from_utf8_lossy(r.to_name(&mut buf).0).into_owned()
}
fn name1(r: StructRole) -> String {
    String::from_utf8_lossy(r.to_name().0).into_owned()
}

/// Roles keep their meaning between the two versions of the standard.
pub fn c20_pure(c: &Ctx) -> Res {
    let prog = gen_prog(c, &PlanCfg::plain());
    let mut sh = Shadow::default();
    let mut err = None;
    with_t(c, &prog, &mut sh, |t| {
        for _ in 0..8 {
            if let Err(e) = roles(t) {
                err = Some(e);
                return;
            }
        }
    });
    match err {
        Some(e) => viol!("{e}"),
        None => Ok(()),
    }
}

fn roles(t: &mut T<'_>) -> Result<(), String> {
    // From 1.7.
    let (role, v) = struct_role(t);
    let name = name_of(&v);
    let got = lib(|| role.to_name()).0.to_vec();
    if got != name.as_bytes() {
        return Err(format!("{role:?} is named {}", show(&got)));
    }
    let two: Option<&str> = match &name[..] {
        "Art" | "BlockQuote" | "TOC" | "TOCI" | "Index" | "Private" | "BibEntry" => None,
        "Quote" => Some("Em"),
        "Note" => Some("FENote"),
        "Reference" => Some("Link"),
        "Code" => Some("Strong"),
        n => Some(n),
    };
    let got = lib(|| role.into_pdf_2_0());
    if got.map(name2).as_deref() != two {
        return Err(format!("{role:?} becomes {got:?} in PDF 2.0, expected {two:?}"));
    }
    if lib(|| StructRole2::try_from(role)).ok() != got {
        return Err(format!("StructRole2::try_from({role:?}) disagrees with into_pdf_2_0: {got:?}"));
    }
    if let Some(r2) = got.filter(|_| two == Some(&name)) {
        let opts = opts(t);
        let back = lib(|| r2.compatibility_1_7(opts)).into_pdf_1_7();
        if back != Some(role) || StructRole::try_from(r2) != Ok(role) {
            return Err(format!("{role:?} goes to {r2:?} and comes back as {back:?}"));
        }
    }
    use StructRoleType as A;
    let ty = match &name[..] {
        "Document" | "Part" | "Art" | "Sect" | "Div" | "BlockQuote" | "Caption" | "TOC" | "TOCI" | "Index" | "NonStruct" | "Private" => A::Grouping,
        "P" | "H" | "H1" | "H2" | "H3" | "H4" | "H5" | "H6" => A::BlockLevel(BlockLevelRoleSubtype::ParagraphLike),
        "L" | "LI" | "Lbl" | "LBody" => A::BlockLevel(BlockLevelRoleSubtype::List),
        "Table" => A::BlockLevel(BlockLevelRoleSubtype::Table),
        "TR" | "TH" | "TD" | "THead" | "TBody" | "TFoot" => A::Table,
        "Link" => A::InlineLevel(InlineLevelRoleSubtype::Link),
        "Annot" => A::InlineLevel(InlineLevelRoleSubtype::Annotation),
        "RB" | "RT" | "RP" | "WT" | "WP" => A::InlineLevel(InlineLevelRoleSubtype::RubyWarichu),
        "Figure" | "Formula" | "Form" => A::Illustration,
        _ => A::InlineLevel(InlineLevelRoleSubtype::Generic),
    };
    if lib(|| role.role_type()) != ty {
        return Err(format!("{role:?} has type {:?}, expected {ty:?}", role.role_type()));
    }

    // From 2.0.
    let (role, v) = struct_role_2(t);
    let name = name_of(&v);
    let got = name2(role);
    if got != name {
        return Err(format!("{role:?} is named {got}"));
    }
    let o = opts(t);
    let shown = o.bits();
    let bit = |b: RoleMapOpts, x: &'static str, y: &'static str| if o.contains(b) { x } else { y };
    let level = match role {
        StructRole2::Heading(n) => n.get(),
        _ => 0,
    };
    let one: (bool, &str) = match &name[..] {
        "DocumentFragment" | "Aside" => (false, "Div"),
        "Title" => (false, bit(RoleMapOpts::MAP_TITLE_TO_H1, "H1", "P")),
        "FENote" => (false, "Note"),
        "Sub" => (false, bit(RoleMapOpts::MAP_SUB_TO_SPAN, "Span", "Div")),
        "Em" | "Strong" => (false, "Span"),
        "Artifact" => (false, "Private"),
        _ if level > 6 => (false, bit(RoleMapOpts::MAP_HN_TO_H6, "H6", "P")),
        n => (true, n),
    };
    let got = lib(|| role.compatibility_1_7(o));
    let (same, r1) = match got {
        StructRole2Compat::Compatible(r) => (true, r),
        StructRole2Compat::RoleMapping(r) => (false, r),
    };
    if (same, &name1(r1)[..]) != one {
        return Err(format!("{role:?} becomes {got:?} in PDF 1.7 with options {:#b}, expected {one:?}", shown));
    }
    if got.role() != r1 || got.into_pdf_1_7() != same.then_some(r1) || got.role_mapped_1_7() != (!same).then_some(r1) {
        return Err(format!("{got:?}: role {:?}, into_pdf_1_7 {:?}, role_mapped_1_7 {:?}", got.role(), got.into_pdf_1_7(), got.role_mapped_1_7()));
    }
    if StructRole::try_from(role).ok() != same.then_some(r1) {
        return Err(format!("StructRole::try_from({role:?}) = {:?}, but {got:?}", StructRole::try_from(role)));
    }
    use StructRoleType2 as B;
    let ty = match &name[..] {
        "Document" | "DocumentFragment" => B::Document,
        "Part" | "Sect" | "Div" | "Aside" | "NonStruct" => B::Grouping,
        "P" | "H" | "Title" | "FENote" => B::BlockLevel,
        "Sub" => B::SubBlockLevel,
        "Ruby" | "RB" | "RP" | "RT" | "Warichu" | "WT" | "WP" => B::InlineLevel(InlineLevelRoleSubtype2::RubyWarichu),
        "L" | "LI" | "LBody" => B::List,
        "Table" | "TR" | "TH" | "TD" | "THead" | "TBody" | "TFoot" => B::Table,
        "Caption" => B::Caption,
        "Figure" => B::Figure,
        "Formula" => B::Formula,
        "Artifact" => B::Artifact,
        _ if level > 0 => B::BlockLevel,
        _ => B::InlineLevel(InlineLevelRoleSubtype2::Generic),
    };
    if lib(|| role.role_type()) != ty {
        return Err(format!("{role:?} has type {:?}, expected {ty:?}", role.role_type()));
    }
    t.cx.probe("roles");
    Ok(())
}

fn opts(t: &mut T<'_>) -> RoleMapOpts {
    let mut o = RoleMapOpts::default();
    for b in [RoleMapOpts::MAP_HN_TO_H6, RoleMapOpts::MAP_TITLE_TO_H1, RoleMapOpts::MAP_SUB_TO_SPAN] {
        if t.bool() {
            o |= b;
        }
    }
    o
}

/// What a program of a type 4 function says.
#[derive(Clone, Debug)]
enum Op {
    Real(f32),
    Int(i32),
    Word(usize),
    If(Vec<Op>),
    IfElse(Vec<Op>, Vec<Op>),
}

macro_rules! words {
    ($($v:ident $s:literal),* $(,)?) => {
        const WORDS: &[(PostScriptOp<'static>, &str)] = &[$((PostScriptOp::$v, $s)),*];
    };
}
words! {
    Abs "abs", Add "add", Atan "atan", Ceiling "ceiling", Cos "cos", Cvi "cvi", Cvr "cvr", Div "div", Exp "exp", Floor "floor",
    Idiv "idiv", Ln "ln", Log "log", Mod "mod", Mul "mul", Neg "neg", Round "round", Sin "sin", Sqrt "sqrt", Sub "sub",
    Truncate "truncate", And "and", Bitshift "bitshift", Eq "eq", False "false", Ge "ge", Gt "gt", Le "le", Lt "lt", Ne "ne",
    Not "not", Or "or", True "true", Xor "xor", Copy "copy", Dup "dup", Exch "exch", Index "index", Pop "pop", Roll "roll",
}

fn gen_ops(c: &Ctx, depth: usize) -> Vec<Op> {
    let n = if c.draw(12) == 11 { c.range(0, 40) } else { c.range(0, 5) };
    (0..n)
        .map(|_| match c.weighted(&[6, 4, 4, 2, 2]) {
            3 if depth > 0 => Op::If(gen_ops(c, depth - 1)),
            4 if depth > 0 => {
                let a = gen_ops(c, depth - 1);
                Op::IfElse(a, gen_ops(c, depth - 1))
            }
            1 => Op::Real(gen_real(c)),
            2 => Op::Int(gen_int(c)),
            _ => Op::Word(c.draw(WORDS.len() as u32) as usize),
        })
        .collect()
}

fn encode(ops: &[Op], k: &mut dyn FnMut(&[PostScriptOp<'_>])) {
    fn rest(ops: &[Op], done: Vec<PostScriptOp<'_>>, k: &mut dyn FnMut(&[PostScriptOp<'_>])) {
        let Some((first, more)) = ops.split_first() else {
            return k(&done);
        };
        let mut with = |op: PostScriptOp<'_>| {
            let mut d: Vec<PostScriptOp<'_>> = done.to_vec();
            d.push(op);
            rest(more, d, k);
        };
        match first {
            Op::Real(r) => with(PostScriptOp::Real(*r)),
            Op::Int(i) => with(PostScriptOp::Integer(*i)),
            Op::Word(w) => with(WORDS[*w].0),
            Op::If(a) => rest(a, vec![], &mut |a| with(PostScriptOp::If(a))),
            Op::IfElse(a, b) => rest(a, vec![], &mut |a| rest(b, vec![], &mut |b| with(PostScriptOp::IfElse(a, b)))),
        }
    }
    rest(ops, vec![], k)
}

/// Tokens of a PostScript calculator program: words and braces.
fn ps_tokens(b: &[u8]) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![];
    let mut cur = vec![];
    for &x in b {
        match x {
            b'{' | b'}' | 0 | 9 | 10 | 12 | 13 | 32 => {
                if !cur.is_empty() {
                    out.push(std::mem::take(&mut cur));
                }
                if matches!(x, b'{' | b'}') {
                    out.push(vec![x]);
                }
            }
            _ => cur.push(x),
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}

fn expect(ops: &[Op], toks: &mut std::slice::Iter<'_, Vec<u8>>) -> Result<(), String> {
    word(toks, "{")?;
    for op in ops {
        let mut next = |want: &str, ok: &dyn Fn(&[u8]) -> bool| match toks.next() {
            Some(t) if ok(t) => Ok(()),
            t => Err(format!("expected {want}, found {}", t.map_or("the end".into(), |t| show(t)))),
        };
        let text = |t: &[u8]| String::from_utf8_lossy(t).into_owned();
        match op {
            Op::Real(r) => next(&format!("{r}"), &|t| {
                is_number(t) && text(t).parse::<f32>() == Ok(*r) && (t.contains(&b'.') || r.abs() >= 2147483648.0)
            })?,
            Op::Int(i) => next(&format!("{i}"), &|t| text(t) == i.to_string())?,
            Op::Word(w) => next(WORDS[*w].1, &|t| t == WORDS[*w].1.as_bytes())?,
            Op::If(a) => {
                expect(a, toks)?;
                word(toks, "if")?;
            }
            Op::IfElse(a, b) => {
                expect(a, toks)?;
                expect(b, toks)?;
                word(toks, "ifelse")?;
            }
        }
    }
    word(toks, "}")
}
fn word(toks: &mut std::slice::Iter<'_, Vec<u8>>, want: &str) -> Result<(), String> {
    match toks.next() {
        Some(t) if t == want.as_bytes() => Ok(()),
        t => Err(format!("expected {want}, found {}", t.map_or("the end".into(), |t| show(t)))),
    }
}

fn maxima(ops: &[Op], int: &mut i32, real: &mut f32) {
    for op in ops {
        match op {
            Op::Int(i) => *int = (*int).max(i.saturating_abs()),
            Op::Real(r) => *real = real.max(r.abs()),
            Op::Word(_) => {}
            Op::If(a) => maxima(a, int, real),
            Op::IfElse(a, b) => {
                maxima(a, int, real);
                maxima(b, int, real);
            }
        }
    }
}

/// A calculator program says what was asked for.
pub fn c21_pure(c: &Ctx) -> Res {
    let ops = gen_ops(c, 3);
    let mut bytes = vec![];
    let mut ints = 0;
    let mut reals = 0f32;
    encode(&ops, &mut |o| {
        let buf = lib(|| PostScriptOp::encode(o));
        bytes = buf.as_slice().to_vec();
        ints = buf.limits().int();
        reals = buf.limits().real();
    });
    let toks = ps_tokens(&bytes);
    let mut it = toks.iter();
    if let Err(e) = expect(&ops, &mut it) {
        viol!("program {ops:?} encoded as {}: {e}", show(&bytes));
    }
    if it.next().is_some() {
        viol!("program {ops:?} encoded as {}: more after its end", show(&bytes));
    }
    let (mut i, mut r) = (0i32, 0f32);
    maxima(&ops, &mut i, &mut r);
    ensure!((i, r) == (ints, reals), "program {ops:?}: limits say ({ints}, {reals}), its numbers reach ({i}, {r})");
    c.probe("postscript");
    Ok(())
}
