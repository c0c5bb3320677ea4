//! Content streams: programs of operations, their execution against the real builder, and the reading back.

use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

use pdf_writer::types::*;
use pdf_writer::writers::Artifact;
use pdf_writer::{Buf, Content, Finish, Name, Rect, Settings, Str, TextStr};

use crate::alloc::lib;
use crate::ctx::{guarded, raise, Ctx, Injected, Outcome};
use crate::model::*;
use crate::plan::*;
use crate::reader::*;
use crate::with_prim;

#[derive(Clone, Debug)]
pub enum COp {
    /// A fixed-shape operation: index into the table.
    Fixed(usize, Args),
    Dash(Many, f32),
    Color { stroke: bool, tint: Many, pattern: Option<Vec<u8>> },
    Positioned(Option<Vec<PStep>>, End),
    Marked { point: bool, tag: Vec<u8>, props: Props, end: End },
    Raw { op: &'static str, args: Vec<RawArg>, end: End },
    Yield,
    Panic,
    Guard(Vec<COp>),
    Reject(usize, f32, i32),
    Reserve(usize),
}

#[derive(Clone, Debug)]
pub enum PStep {
    Show(Vec<u8>),
    Adjust(f32),
    Many(Many),
    Yield,
    Panic,
}

#[derive(Clone, Debug)]
pub enum Props {
    Absent,
    Named(Vec<u8>),
    List { mcid: Option<i32>, text: Option<String>, steps: Vec<Step>, artifact: Option<Art> },
}

#[derive(Clone, Debug)]
pub struct Art {
    kind: Option<usize>,
    sub: Option<(usize, Vec<u8>)>,
    bbox: Option<[f32; 4]>,
    attached: Option<(Vec<usize>, Option<usize>)>,
}

#[derive(Clone, Debug)]
pub enum RawArg {
    One(Prim),
    Many(Many),
    Cont(Cont),
    Yield,
    Panic,
}

#[derive(Clone, Debug)]
pub struct Args {
    f: [f32; 6],
    name: Vec<u8>,
    s: Vec<u8>,
    k: usize,
}

struct Row {
    op: &'static str,
    /// Operands in order: digits index `f`, 'n' name, 's' string, 'z' zero, 'c','j','r','t','o' enumerations, 'i' flatness.
    sig: &'static str,
    call: fn(&mut Content, &Args),
}

const CAPS: [LineCapStyle; 3] = [LineCapStyle::ButtCap, LineCapStyle::RoundCap, LineCapStyle::ProjectingSquareCap];
const JOINS: [LineJoinStyle; 3] = [LineJoinStyle::MiterJoin, LineJoinStyle::RoundJoin, LineJoinStyle::BevelJoin];
const INTENTS: [(RenderingIntent, &str); 4] = [
    (RenderingIntent::AbsoluteColorimetric, "AbsoluteColorimetric"),
    (RenderingIntent::RelativeColorimetric, "RelativeColorimetric"),
    (RenderingIntent::Saturation, "Saturation"),
    (RenderingIntent::Perceptual, "Perceptual"),
];
const MODES: [TextRenderingMode; 8] = [
    TextRenderingMode::Fill,
    TextRenderingMode::Stroke,
    TextRenderingMode::FillStroke,
    TextRenderingMode::Invisible,
    TextRenderingMode::FillClip,
    TextRenderingMode::StrokeClip,
    TextRenderingMode::FillStrokeClip,
    TextRenderingMode::Clip,
];
const SPACES: [(ColorSpaceOperand<'static>, &str); 4] = [
    (ColorSpaceOperand::DeviceGray, "DeviceGray"),
    (ColorSpaceOperand::DeviceRgb, "DeviceRGB"),
    (ColorSpaceOperand::DeviceCmyk, "DeviceCMYK"),
    (ColorSpaceOperand::Pattern, "Pattern"),
];
const ARTIFACTS: [(ArtifactType, &str); 5] = [
    (ArtifactType::Pagination, "Pagination"),
    (ArtifactType::Layout, "Layout"),
    (ArtifactType::Page, "Page"),
    (ArtifactType::Background, "Background"),
    (ArtifactType::Inline, "Inline"),
];
const SUBTYPES: [(ArtifactSubtype<'static>, &str); 7] = [
    (ArtifactSubtype::Header, "Header"),
    (ArtifactSubtype::Footer, "Footer"),
    (ArtifactSubtype::Watermark, "Watermark"),
    (ArtifactSubtype::PageNumber, "PageNum"),
    (ArtifactSubtype::Bates, "Bates"),
    (ArtifactSubtype::LineNumber, "LineNum"),
    (ArtifactSubtype::Redaction, "Redaction"),
];
const EDGES: [(ArtifactAttachment, &str); 4] = [
    (ArtifactAttachment::Left, "Left"),
    (ArtifactAttachment::Top, "Top"),
    (ArtifactAttachment::Right, "Right"),
    (ArtifactAttachment::Bottom, "Bottom"),
];

fn space<'a>(a: &'a Args) -> ColorSpaceOperand<'a> {
    if a.k % 6 < 4 {
        SPACES[a.k % 6].0
    } else if a.k % 6 == 4 {
        ColorSpaceOperand::Named(Name(&a.name))
    } else {
        Name(&a.name).into()
    }
}

macro_rules! row {
    ($op:literal, $sig:literal, |$k:ident, $a:ident| $call:expr) => {
        Row {
            op: $op,
            sig: $sig,
            call: |$k, $a| {
                let _ = $a;
                $call;
            },
        }
    };
}

static ROWS: &[Row] = &[
    row!("q", "", |k, a| k.save_state()),
    row!("Q", "", |k, a| k.restore_state()),
    row!("w", "a", |k, a| k.set_line_width(a.f[0].abs())),
    row!("J", "c", |k, a| k.set_line_cap(CAPS[a.k % 3])),
    row!("j", "j", |k, a| k.set_line_join(JOINS[a.k % 3])),
    row!("M", "0", |k, a| k.set_miter_limit(a.f[0])),
    row!("ri", "r", |k, a| k.set_rendering_intent(INTENTS[a.k % 4].0)),
    row!("i", "i", |k, a| k.set_flatness((a.k % 101) as i32)),
    row!("gs", "n", |k, a| k.set_parameters(Name(&a.name))),
    row!("cm", "012345", |k, a| k.transform(a.f)),
    row!("m", "01", |k, a| k.move_to(a.f[0], a.f[1])),
    row!("l", "01", |k, a| k.line_to(a.f[0], a.f[1])),
    row!("c", "012345", |k, a| k.cubic_to(a.f[0], a.f[1], a.f[2], a.f[3], a.f[4], a.f[5])),
    row!("v", "0123", |k, a| k.cubic_to_initial(a.f[0], a.f[1], a.f[2], a.f[3])),
    row!("y", "0123", |k, a| k.cubic_to_final(a.f[0], a.f[1], a.f[2], a.f[3])),
    row!("h", "", |k, a| k.close_path()),
    row!("re", "0123", |k, a| k.rect(a.f[0], a.f[1], a.f[2], a.f[3])),
    row!("S", "", |k, a| k.stroke()),
    row!("s", "", |k, a| k.close_and_stroke()),
    row!("f", "", |k, a| k.fill_nonzero()),
    row!("f*", "", |k, a| k.fill_even_odd()),
    row!("B", "", |k, a| k.fill_nonzero_and_stroke()),
    row!("B*", "", |k, a| k.fill_even_odd_and_stroke()),
    row!("b", "", |k, a| k.close_fill_nonzero_and_stroke()),
    row!("b*", "", |k, a| k.close_fill_even_odd_and_stroke()),
    row!("n", "", |k, a| k.end_path()),
    row!("W", "", |k, a| k.clip_nonzero()),
    row!("W*", "", |k, a| k.clip_even_odd()),
    row!("BT", "", |k, a| k.begin_text()),
    row!("ET", "", |k, a| k.end_text()),
    row!("Tc", "0", |k, a| k.set_char_spacing(a.f[0])),
    row!("Tw", "0", |k, a| k.set_word_spacing(a.f[0])),
    row!("Tz", "0", |k, a| k.set_horizontal_scaling(a.f[0])),
    row!("TL", "0", |k, a| k.set_leading(a.f[0])),
    row!("Tf", "n0", |k, a| k.set_font(Name(&a.name), a.f[0])),
    row!("Tr", "t", |k, a| k.set_text_rendering_mode(MODES[a.k % 8])),
    row!("Ts", "0", |k, a| k.set_rise(a.f[0])),
    row!("Td", "01", |k, a| k.next_line(a.f[0], a.f[1])),
    row!("TD", "01", |k, a| k.next_line_and_set_leading(a.f[0], a.f[1])),
    row!("Tm", "012345", |k, a| k.set_text_matrix(a.f)),
    row!("T*", "", |k, a| k.next_line_using_leading()),
    row!("Tj", "s", |k, a| k.show(Str(&a.s))),
    row!("'", "s", |k, a| k.next_line_show(Str(&a.s))),
    row!("\"", "01s", |k, a| k.next_line_show_and_set_word_and_char_spacing(a.f[0], a.f[1], Str(&a.s))),
    row!("d0", "0z", |k, a| k.start_color_glyph(a.f[0])),
    row!("d1", "0z1234", |k, a| k.start_shape_glyph(a.f[0], a.f[1], a.f[2], a.f[3], a.f[4])),
    row!("CS", "o", |k, a| k.set_stroke_color_space(space(a))),
    row!("cs", "o", |k, a| k.set_fill_color_space(space(a))),
    row!("G", "0", |k, a| k.set_stroke_gray(a.f[0])),
    row!("g", "0", |k, a| k.set_fill_gray(a.f[0])),
    row!("RG", "012", |k, a| k.set_stroke_rgb(a.f[0], a.f[1], a.f[2])),
    row!("rg", "012", |k, a| k.set_fill_rgb(a.f[0], a.f[1], a.f[2])),
    row!("K", "0123", |k, a| k.set_stroke_cmyk(a.f[0], a.f[1], a.f[2], a.f[3])),
    row!("k", "0123", |k, a| k.set_fill_cmyk(a.f[0], a.f[1], a.f[2], a.f[3])),
    row!("sh", "n", |k, a| k.shading(Name(&a.name))),
    row!("Do", "n", |k, a| k.x_object(Name(&a.name))),
    row!("MP", "n", |k, a| k.marked_content_point(Name(&a.name))),
    row!("BMC", "n", |k, a| k.begin_marked_content(Name(&a.name))),
    row!("EMC", "", |k, a| k.end_marked_content()),
    row!("BX", "", |k, a| k.begin_compat()),
    row!("EX", "", |k, a| k.end_compat()),
];

fn operand(ch: char, a: &Args) -> V {
    match ch {
        '0'..='5' => V::Real(a.f[ch as usize - '0' as usize]),
        'a' => V::Real(a.f[0].abs()),
        'z' => V::Real(0.0),
        'n' => V::Name(a.name.clone()),
        's' => V::Str(a.s.clone()),
        'c' | 'j' => V::Int((a.k % 3) as i32),
        'r' => nm(INTENTS[a.k % 4].1),
        't' => V::Int((a.k % 8) as i32),
        'i' => V::Int((a.k % 101) as i32),
        'o' => {
            if a.k % 6 < 4 {
                nm(SPACES[a.k % 6].1)
            } else {
                V::Name(a.name.clone())
            }
        }
        _ => unreachable!("signature"),
    }
}

const RAW_OPS: [&str; 12] = ["x", "foo", "T*", "b*", "'", "\"", "BX", "d0", "n", "Do", "stream", "endobj"];

#[derive(Clone, Debug)]
pub struct ContentCfg {
    pub plan: PlanCfg,
    pub max_ops: usize,
    /// Bias towards a few operations, to get long runs of neighbours.
    pub focus: Vec<usize>,
    pub p_reject: u32,
}

impl ContentCfg {
    pub fn swarm(c: &Ctx, panics: bool, leaks: bool) -> Self {
        let mut plan = PlanCfg::swarm(c, panics, leaks);
        plan.max_steps = plan.max_steps.min(6);
        ContentCfg {
            plan,
            max_ops: if c.chance(1, 250) { 1500 } else { *c.pick(&[12, 4, 30, 80]) },
            focus: if c.chance(1, 3) { (0..c.range(1, 4)).map(|_| c.draw(ROWS.len() as u32) as usize).collect() } else { vec![] },
            p_reject: 0,
        }
    }
}

fn floats(c: &Ctx, n: usize) -> Vec<Prim> {
    let mut vals: Vec<Prim> = (0..n).map(|_| Prim::Real(gen_real(c))).collect();
    shape_list(c, &mut vals);
    vals
}

fn gen_floats(c: &Ctx, p: &PlanCfg) -> Many {
    let n = match c.weighted(&[190, 10, if p.scale { 20 } else { 0 }]) {
        0 => c.range(0, 5),
        1 => c.range(10, 120),
        _ => *c.pick(&[255, 256, 257, 600, 1025]),
    };
    let vals = floats(c, n);
    let n = vals.len();
    let panic_at = if c.chance(p.p_iter_panic, 100) { Some(c.range(0, n)) } else { None };
    let reenter = if c.chance(p.p_reenter, 100) { Some((c.range(0, n), Box::new(gen_obj(c, p, 1 + c.draw(500) as i32, 3)))) } else { None };
    Many { keys: vec![], vals, panic_at, yields: c.chance(p.p_yield, 100), hint: c.draw(3) as u8, reenter }
}

fn gen_end(c: &Ctx) -> End {
    if c.draw(2) == 0 {
        End::Drop
    } else {
        End::Finish
    }
}

pub fn fixed(op: &str, f: f32, k: usize) -> COp {
    let row = ROWS.iter().position(|r| r.op == op).expect("an operation");
    COp::Fixed(row, Args { f: [f; 6], name: vec![], s: vec![], k })
}

pub fn gen_ops(c: &Ctx, cfg: &ContentCfg, depth: usize) -> Vec<COp> {
    let p = &cfg.plan;
    let n = c.range(0, if depth > 0 { 4 } else { cfg.max_ops });
    let mut out = vec![];
    if depth == 0 && c.chance(1, 200) {
        // A deep nest of saves, more or less undone.
        let far = c.chance(1, 100);
        let n = if far { 65_530 + c.range(0, 20) } else { *c.pick(&[29usize, 40, 130, 257, 300]) };
        let back = match c.draw(3) {
            0 => 0,
            1 => c.range(0, n.min(400)),
            _ => n + c.range(0, 3),
        };
        out.extend((0..n).map(|_| fixed("q", 0.0, 0)));
        out.extend((0..back).map(|_| fixed("Q", 0.0, 0)));
    }
    for _ in 0..n {
        if c.chance(p.p_yield, 100) {
            out.push(COp::Yield);
        }
        if c.chance(p.p_panic, 100) {
            out.push(COp::Panic);
        }
        if c.chance(cfg.p_reject, 100) {
            let mag = gen_real(c).abs();
            let i = if c.draw(2) == 0 { gen_int(c) } else { *c.pick(&[101, -1, 102, 256, 356, i32::MIN, i32::MAX, 65_536]) };
            out.push(COp::Reject(c.draw(2) as usize, if mag > 0.0 { -mag } else { *c.pick(&[-1.0, -1e-45, -f32::MIN_POSITIVE, f32::NEG_INFINITY]) }, i));
        }
        if depth < 4 && c.chance(p.p_guard, 100) {
            out.push(COp::Guard(gen_ops(c, cfg, depth + 1)));
            continue;
        }
        if c.chance(1, 12) {
            // Just what was done a moment ago.
            let back = c.range(1, 3);
            let seen: Vec<&COp> = out.iter().rev().filter(|o| !matches!(o, COp::Yield | COp::Panic | COp::Guard(_))).take(back).collect();
            if let Some(op) = seen.last().map(|o| (*o).clone()) {
                out.push(op);
                continue;
            }
        }
        out.push(match c.weighted(&[20, 2, 3, 3, 3, 3, 1]) {
            0 => {
                let r = if cfg.focus.is_empty() { c.draw(ROWS.len() as u32) as usize } else { *c.pick(&cfg.focus) };
                let sig = ROWS[r].sig;
                let mut f = [0f32; 6];
                let n = sig.chars().filter(|x| x.is_ascii_digit() || *x == 'a').count();
                for x in f.iter_mut().take(n) {
                    *x = gen_real(c);
                }
                shape(c, &mut f[..n]);
                let name = if sig.contains(['n', 'o']) { gen_name(c) } else { vec![] };
                let s = if sig.contains('s') { gen_bytes(c, p.g.big) } else { vec![] };
                let k = if sig.contains(['c', 'j', 'r', 't', 'o', 'i']) { c.draw(1000) as usize } else { 0 };
                COp::Fixed(r, Args { f, name, s, k })
            }
            1 => COp::Dash(gen_floats(c, p), gen_real(c)),
            2 => {
                let pattern = if c.draw(2) == 1 { Some(gen_name(c)) } else { None };
                COp::Color { stroke: c.draw(2) == 1, tint: gen_floats(c, p), pattern }
            }
            3 => {
                let steps = if c.chance(1, 8) {
                    None
                } else {
                    Some(
                        (0..if p.scale && c.chance(1, 10) { 300 } else { c.range(0, 8) })
                            .map(|_| match c.weighted(&[6, 6, 2, if p.p_yield > 0 { 1 } else { 0 }, if p.p_panic > 0 { 1 } else { 0 }]) {
                                0 => PStep::Show(gen_bytes(c, false)),
                                1 => PStep::Adjust(gen_real(c)),
                                2 => PStep::Many(gen_floats(c, p)),
                                3 => PStep::Yield,
                                _ => PStep::Panic,
                            })
                            .collect(),
                    )
                };
                COp::Positioned(steps, gen_end(c))
            }
            4 => {
                let props = match c.weighted(&[1, 2, 6]) {
                    0 => Props::Absent,
                    1 => Props::Named(gen_name(c)),
                    _ => {
                        let mut used: Vec<Vec<u8>> =
                            ["MCID", "ActualText", "Type", "Subtype", "BBox", "Attached"].iter().map(|s| s.as_bytes().to_vec()).collect();
                        Props::List {
                            mcid: if c.draw(2) == 1 { Some(gen_int(c)) } else { None },
                            text: if c.draw(2) == 1 { Some(gen_text(c)) } else { None },
                            steps: if c.draw(2) == 1 { gen_steps(c, p, 2, &mut used) } else { vec![] },
                            artifact: if c.draw(2) == 1 {
                                Some(Art {
                                    kind: if c.draw(2) == 1 { Some(c.draw(5) as usize) } else { None },
                                    sub: if c.draw(2) == 1 { Some((c.draw(8) as usize, gen_name(c))) } else { None },
                                    bbox: if c.draw(2) == 1 { Some(gen_reals(c)) } else { None },
                                    attached: if c.draw(2) == 1 {
                                        let xs: Vec<usize> = (0..c.range(0, 4)).map(|_| c.draw(4) as usize).collect();
                                        let at = if c.chance(p.p_iter_panic, 100) { Some(c.range(0, xs.len())) } else { None };
                                        Some((xs, at))
                                    } else {
                                        None
                                    },
                                })
                            } else {
                                None
                            },
                        }
                    }
                };
                COp::Marked { point: c.draw(2) == 1, tag: gen_name(c), props, end: gen_end(c) }
            }
            5 => {
                let args = (0..c.range(0, 5))
                    .map(|_| match c.weighted(&[8, 2, 3, if p.p_yield > 0 { 1 } else { 0 }, if p.p_panic > 0 { 1 } else { 0 }]) {
                        0 => RawArg::One(gen_prim(c, &p.g)),
                        1 => {
                            let mut used = vec![];
                            RawArg::Many(gen_many(c, p, &mut used, 1))
                        }
                        2 => RawArg::Cont(gen_cont(c, p, 2)),
                        3 => RawArg::Yield,
                        _ => RawArg::Panic,
                    })
                    .collect();
                COp::Raw { op: RAW_OPS[c.draw(RAW_OPS.len() as u32) as usize], args, end: gen_end(c) }
            }
            _ => COp::Reserve(crate::world::capacity(c)),
        });
    }
    out
}

pub struct CState {
    pub sh: Shadow,
    pub depth: usize,
    pub bad: Option<String>,
}

pub fn check_depth(k: &Content, st: &mut CState) {
    if k.state_nesting_depth() != st.depth && st.bad.is_none() {
        st.bad = Some(format!("nesting depth reported as {} with {} saves not yet restored", k.state_nesting_depth(), st.depth));
    }
}

fn end_op<W>(w: W, end: End) {
    match end {
        End::Finish => lib(|| w.finish()),
        _ => lib(|| drop(w)),
    }
}

fn exec_artifact(cx: &Ctx, w: &mut Artifact<'_>, a: &Art, sh: &mut Shadow) {
    if let Some(i) = a.kind {
        lib(|| {
            w.kind(ARTIFACTS[i].0);
        });
        sh.add(b"Type", nm(ARTIFACTS[i].1));
    }
    if let Some((i, n)) = &a.sub {
        lib(|| {
            w.subtype(if *i < 7 { SUBTYPES[*i].0.clone() } else { ArtifactSubtype::Custom(Name(n)) });
        });
        sh.add(b"Subtype", if *i < 7 { nm(SUBTYPES[*i].1) } else { V::Name(n.clone()) });
    }
    if let Some(r) = a.bbox {
        lib(|| {
            w.bounding_box(Rect::new(r[0], r[1], r[2], r[3]));
        });
        sh.add(b"BBox", arr(r.iter().map(|x| V::Real(*x))));
    }
    if let Some((xs, at)) = &a.attached {
        // The same interruption model as everywhere else, on names.
        let m = Many {
            keys: vec![],
            vals: xs.iter().map(|&i| Prim::Name(EDGES[i].1.as_bytes().to_vec())).collect(),
            panic_at: *at,
            yields: false,
            hint: 0,
            reenter: None,
        };
        sh.begin();
        sh.open(b"Attached", false);
        run_many(&m, sh, || {
            lib(|| {
                w.attached(SimIter::new(cx, &m).map(|i| EDGES[xs[i]].0));
            })
        });
        sh.close();
        sh.end();
    }
}

pub fn exec_ops(cx: &Ctx, k: &mut Content, ops: &[COp], st: &mut CState) {
    for op in ops {
        let len = k.len();
        match op {
            COp::Yield => side_work(cx),
            COp::Panic => raise(cx, "caller_panic"),
            COp::Reserve(n) => {
                crate::alloc::asked(*n);
                lib(|| k.reserve(*n));
                if k.len() != len && st.bad.is_none() {
                    st.bad = Some("reserving changed the length".into());
                }
            }
            COp::Reject(what, w, i) => {
                let before = (k.as_bytes().to_vec(), k.state_nesting_depth());
                let (desc, out) = if *what == 0 {
                    let w = *w;
                    (format!("line width {w}"), guarded(|| lib(|| { k.set_line_width(w); })).1)
                } else {
                    let i = if (0..=100).contains(i) { *i - 101 } else { *i };
                    (format!("flatness {i}"), guarded(|| lib(|| { k.set_flatness(i); })).1)
                };
                cx.fault("rejected_call");
                if !matches!(out, Outcome::Panic(_)) && st.bad.is_none() {
                    st.bad = Some(format!("{desc} was accepted"));
                }
                if (k.as_bytes(), k.state_nesting_depth()) != (&before.0[..], before.1) && st.bad.is_none() {
                    st.bad = Some(format!("rejecting {desc} left a trace"));
                }
            }
            COp::Guard(inner) => {
                let depth = st.sh.depth();
                let r = catch_unwind(AssertUnwindSafe(|| exec_ops(cx, k, inner, st)));
                if let Err(p) = r {
                    if !p.is::<Injected>() {
                        resume_unwind(p);
                    }
                    st.sh.truncate(depth);
                    cx.probe("caught_and_continued");
                }
            }
            COp::Fixed(r, a) => {
                let row = &ROWS[*r];
                lib(|| (row.call)(k, a));
                st.sh.open(row.op.as_bytes(), false);
                for ch in row.sig.chars() {
                    st.sh.add(&[], operand(ch, a));
                }
                st.sh.close();
                match row.op {
                    "q" => st.depth += 1,
                    "Q" => st.depth = st.depth.saturating_sub(1),
                    _ => {}
                }
            }
            COp::Dash(m, phase) => {
                st.sh.begin();
                st.sh.open(b"d", false);
                st.sh.open(&[], false);
                float_iter(cx, m, |it| {
                    run_many(m, &mut st.sh, || {
                        lib(|| {
                            k.set_dash_pattern(it, *phase);
                        })
                    })
                });
                st.sh.close();
                st.sh.add(&[], V::Real(*phase));
                st.sh.close();
                st.sh.end();
            }
            COp::Color { stroke, tint, pattern } => {
                st.sh.begin();
                st.sh.open(if *stroke { b"SCN" } else { b"scn" }, false);
                float_iter(cx, tint, |it| {
                    run_many(tint, &mut st.sh, || {
                        lib(|| match (stroke, pattern) {
                            (true, None) => {
                                k.set_stroke_color(it);
                            }
                            (true, Some(n)) => {
                                k.set_stroke_pattern(it, Name(n));
                            }
                            (false, None) => {
                                k.set_fill_color(it);
                            }
                            (false, Some(n)) => {
                                k.set_fill_pattern(it, Name(n));
                            }
                        })
                    })
                });
                if let Some(n) = pattern {
                    st.sh.add(&[], V::Name(n.clone()));
                }
                st.sh.close();
                st.sh.end();
            }
            COp::Positioned(steps, end) => {
                st.sh.open(b"TJ", false);
                let mut w = lib(|| k.show_positioned());
                if let Some(steps) = steps {
                    st.sh.open(&[], false);
                    let mut items = lib(|| w.items());
                    for s in steps {
                        match s {
                            PStep::Show(b) => {
                                lib(|| {
                                    items.show(Str(b));
                                });
                                st.sh.add(&[], V::Str(b.clone()));
                            }
                            PStep::Adjust(x) => {
                                lib(|| {
                                    items.adjust(*x);
                                });
                                st.sh.add(&[], V::Real(*x));
                            }
                            PStep::Many(m) => float_iter(cx, m, |it| {
                                run_many(m, &mut st.sh, || {
                                    lib(|| {
                                        items.items(it);
                                    })
                                })
                            }),
                            PStep::Yield => side_work(cx),
                            PStep::Panic => raise(cx, "caller_panic"),
                        }
                    }
                    st.sh.claim(items.len(), items.is_empty());
                    end_op(items, *end);
                    st.sh.close();
                }
                end_op(w, *end);
                st.sh.close();
            }
            COp::Marked { point, tag, props, end } => {
                st.sh.open(if *point { b"DP" } else { b"BDC" }, false);
                let mut w = lib(|| {
                    if *point {
                        k.marked_content_point_with_properties(Name(tag))
                    } else {
                        k.begin_marked_content_with_properties(Name(tag))
                    }
                });
                st.sh.add(&[], V::Name(tag.clone()));
                match props {
                    Props::Absent => end_op(w, *end),
                    Props::Named(n) => {
                        lib(|| w.properties_named(Name(n)));
                        st.sh.add(&[], V::Name(n.clone()));
                    }
                    Props::List { mcid, text, steps, artifact } => {
                        st.sh.open(&[], true);
                        let mut l = lib(|| w.properties());
                        if let Some(i) = mcid {
                            lib(|| {
                                l.identify(*i);
                            });
                            st.sh.add(b"MCID", V::Int(*i));
                        }
                        if let Some(t) = text {
                            lib(|| {
                                l.actual_text(TextStr(t));
                            });
                            st.sh.add(b"ActualText", text_v(t));
                        }
                        exec_dict(cx, &mut l, steps, &mut st.sh);
                        if let Some(a) = artifact {
                            let mut w = lib(|| l.artifact());
                            exec_artifact(cx, &mut w, a, &mut st.sh);
                            end_op(w, *end);
                        } else {
                            end_op(l, *end);
                        }
                        st.sh.close();
                        end_op(w, *end);
                    }
                }
                st.sh.close();
            }
            COp::Raw { op, args, end } => {
                st.sh.open(op.as_bytes(), false);
                let mut w = lib(|| k.op(op));
                for (i, a) in args.iter().enumerate() {
                    match a {
                        RawArg::One(p) => {
                            with_prim!(p, v => { lib(|| if i % 3 == 1 { w.operand(&v) } else { w.operand(v) }); });
                            st.sh.add(&[], p.v());
                        }
                        RawArg::Many(m) => typed_many(cx, m, &mut st.sh, TypedSink::Op(&mut w)),
                        RawArg::Cont(cont) => {
                            let o = lib(|| w.obj());
                            start_cont(o, cx, &[], cont, &mut st.sh);
                        }
                        RawArg::Yield => side_work(cx),
                        RawArg::Panic => raise(cx, "caller_panic"),
                    }
                }
                end_op(w, *end);
                st.sh.close();
            }
        }
        if k.len() < len && st.bad.is_none() {
            st.bad = Some(format!("the content shrank from {len} to {} bytes", k.len()));
        }
        check_depth(k, st);
    }
}

fn float_iter<R>(cx: &Ctx, m: &Many, f: impl FnOnce(std::iter::Map<SimIter<'_>, Box<dyn Fn(usize) -> f32 + '_>>) -> R) -> R {
    let conv: Box<dyn Fn(usize) -> f32 + '_> = Box::new(|i| match &m.vals[i] {
        Prim::Real(x) => *x,
        _ => unreachable!("reals only"),
    });
    f(SimIter::new(cx, m).map(conv))
}

/// A finished run of a content program.
pub struct Written {
    /// Operations: key is the operator, value the operand array.
    pub ops: Vec<E>,
    pub outcome: Outcome,
    pub depth: usize,
}

pub fn write_content(cx: &Ctx, k: &mut Content, ops: &[COp]) -> Result<Written, String> {
    write_more(cx, k, ops, 0)
}

/// Go on with a stream that already has `depth` open saves.
pub fn write_more(cx: &Ctx, k: &mut Content, ops: &[COp], depth: usize) -> Result<Written, String> {
    cx.count_objects(ops.len() as u64);
    let mut st = CState { sh: Shadow::default(), depth, bad: None };
    st.sh.open(&[], false);
    let (_, outcome) = guarded(|| exec_ops(cx, k, ops, &mut st));
    st.sh.truncate(1);
    if let Outcome::Panic(m) = &outcome {
        return Err(format!("content stream: unexpected panic: {m}"));
    }
    // What is left after an interruption still counts.
    if outcome == Outcome::Done || outcome == Outcome::Injected {
        check_depth(k, &mut st);
    }
    if let Some(b) = st.bad.take().or(st.sh.bad.take()) {
        return Err(format!("content stream: {b}"));
    }
    st.sh.truncate(0);
    let Some(V::Arr(ops)) = st.sh.done.take() else { return Err("model: content".into()) };
    Ok(Written { ops, outcome, depth: st.depth })
}

/// Read a content stream: operand values, then the operator, repeated.
pub fn parse_content(b: &[u8]) -> R<Vec<(Vec<u8>, Vec<PV>)>> {
    let mut lx = Lexer::new(b, 0);
    let mut out = vec![];
    let mut args = vec![];
    loop {
        let at = lx.i;
        match lx.tok()? {
            Tok::Eof => break,
            Tok::Kw(k) if !matches!(k.as_slice(), b"true" | b"false" | b"null") => out.push((k, std::mem::take(&mut args))),
            t => args.push(lx.value_from(t, true, 0, at)?),
        }
    }
    if !args.is_empty() {
        return Err(format!("content ends with {} operands without an operator", args.len()));
    }
    Ok(out)
}

pub fn check_ops(want: &[E], b: &[u8]) -> Result<(), String> {
    let got = parse_content(b)?;
    let same = |e: &E, i: usize, j: usize| -> Result<(), String> {
        let Some((op, args)) = got.get(j) else {
            return Err(format!("operation {i} ({}) was issued but the stream holds only {}", show(&e.key), got.len()));
        };
        if *op != e.key {
            return Err(format!("operation {i} was issued as {} but reads {} with operands {}", show(&e.key), show(op), clip(&format!("{args:?}"))));
        }
        let mut path = vec![];
        matches(&e.v, &PV::Arr(args.clone()), &mut path).map_err(|m| format!("operation {i} ({}): {m}", show(op)))
    };
    // How many operations read so far can stand for those issued so far: one number, but for calls that were
    // interrupted and may have left no operation.
    let mut at = vec![0];
    for (i, e) in want.iter().enumerate() {
        let mut next: Vec<usize> = vec![];
        let mut why = None;
        for &j in &at {
            match same(e, i, j) {
                Ok(()) => next.push(j + 1),
                Err(m) => why = Some(m),
            }
            if e.group != 0 {
                next.push(j);
            }
        }
        next.sort_unstable();
        next.dedup();
        if let (true, Some(m)) = (next.is_empty(), why) {
            return Err(m);
        }
        at = next;
    }
    if !at.contains(&got.len()) {
        let j = at.into_iter().max().unwrap_or(0);
        return Err(format!("{} operations were issued but {} read back; extra: {}", want.len(), got.len(), show(&got[j].0)));
    }
    Ok(())
}

pub fn new_content(c: &Ctx, s: Settings) -> Content {
    match c.draw(4) {
        0 if s.pretty && c.draw(2) == 0 => Content::new(),
        0 => Content::with_settings(s),
        1 if s.pretty && c.draw(2) == 0 => Content::with_capacity(c.range(0, 100)),
        1 => Content::with_settings_and_capacity(s, 0),
        2 => Content::with_settings_and_capacity(s, c.range(1, 100)),
        _ => Content::with_settings_and_capacity(s, 10_000),
    }
}

/// Limits of what a content stream holds.
pub fn content_maxima(b: &[u8]) -> R<crate::world::Lim> {
    let mut l = crate::world::Lim::default();
    for (_, args) in parse_content(b)? {
        for a in &args {
            crate::oracle::value_maxima(a, &mut l);
        }
    }
    Ok(l)
}

pub fn finish_content(k: Content) -> Buf {
    lib(|| k.finish())
}
