//! Calls that reject their arguments (C18): both sides of every documented bound, at drawn points of a build, caught
//! at the call or further out, against the same build without the rejected calls.

use pdf_writer::types::{PageMode, Predictor};
use pdf_writer::writers::{DecodeParms, DeviceN, Outline, Separation, ViewerPreferences};
use std::sync::Mutex;

use pdf_writer::{Chunk, Dict, LanguageIdentifier, Name, Ref, Settings};

use crate::alloc::{harness, lib};
use crate::content::*;
use crate::ctx::{guarded, raise, Ctx, Outcome, Res, Viol};
use crate::merging::*;
use crate::model::*;
use crate::oracle::*;
use crate::plan::*;
use crate::reader::*;
use crate::world::*;
use crate::{ensure, viol};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Host {
    Icc,
    Tiling,
    Parms,
    Sep,
    DevN,
    Viewer,
    Outline,
}
const HOSTS: [Host; 7] = [Host::Icc, Host::Tiling, Host::Parms, Host::Sep, Host::DevN, Host::Viewer, Host::Outline];

#[derive(Clone, Debug)]
enum Call {
    N(i32),
    XStep(f32),
    YStep(f32),
    Colors(i32),
    Bits(i32),
    Columns(i32),
    Predictor(usize),
    Mode(usize),
    Count(i32),
    AltSpace(usize, f32),
    AltRef(i32),
    TintExp(f32),
    TintStitch(Vec<i32>),
    TintRef(i32),
    Attrs(usize),
}

#[derive(Clone, Debug)]
enum RStep {
    Legal(Call),
    /// Must be rejected; the flag lets the panic leave the whole object.
    Illegal(Call, bool),
    Put(Vec<u8>, Prim),
    Yield,
    Panic,
}

#[derive(Clone, Debug)]
enum RObj {
    Plain(ObjPlan),
    Hosted(Hosted),
}

#[derive(Clone, Debug)]
struct Hosted {
    id: i32,
    host: Host,
    data: Vec<u8>,
    names: Many,
    steps: Vec<RStep>,
    end: End,
}

fn gen_bound(c: &Ctx, near: &[i32]) -> i32 {
    match c.weighted(&[6, 3]) {
        0 => *c.pick(near),
        _ => gen_int(c),
    }
}

fn gen_hosted(c: &Ctx, p: &PlanCfg, id: i32, escapes: u32) -> Hosted {
    let host = *c.pick(&HOSTS);
    let mut used: Vec<Vec<u8>> = ["Length", "Type", "PatternType", "N", "XStep", "YStep", "DecodeParms", "Count", "NonFullScreenPageMode", "Colors", "BitsPerComponent", "Columns", "Predictor"]
        .iter()
        .map(|s| s.as_bytes().to_vec())
        .collect();
    let mut done: Vec<&'static str> = vec![];
    let (mut alt, mut tint, mut attrs) = (false, false, false);
    let mut steps = vec![];
    for _ in 0..c.range(0, 9) {
        if c.chance(p.p_yield, 100) {
            steps.push(RStep::Yield);
        }
        if c.chance(p.p_panic, 200) {
            steps.push(RStep::Panic);
        }
        let zero = |c: &Ctx| -> f32 {
            match c.weighted(&[4, 3, 3]) {
                0 => *c.pick(&[0.0, -0.0]),
                1 => *c.pick(&[1e-45, -1e-45, f32::MIN_POSITIVE, -1.0, 1.0, f32::MAX, f32::MIN]),
                _ => gen_real(c),
            }
        };
        let (call, tag, legal) = match host {
            Host::Icc => {
                let n = gen_bound(c, &[0, 1, 2, 3, 4, 5, -1, -3, 257, 259, 260, 16]);
                (Call::N(n), "n", [1, 3, 4].contains(&n))
            }
            Host::Tiling => {
                let v = zero(c);
                if c.draw(2) == 0 {
                    (Call::XStep(v), "x", v != 0.0)
                } else {
                    (Call::YStep(v), "y", v != 0.0)
                }
            }
            Host::Parms => match c.draw(4) {
                0 => {
                    let n = gen_bound(c, &[0, 1, -1, 2, i32::MAX, i32::MIN]);
                    (Call::Colors(n), "c", n > 0)
                }
                1 => {
                    let n = gen_bound(c, &[1, 2, 4, 8, 16, 0, -1, 3, 5, 6, 7, 9, 12, 15, 17, 32, 24, 64, -8, -16]);
                    (Call::Bits(n), "b", [1, 2, 4, 8, 16].contains(&n))
                }
                2 => (Call::Columns(gen_int(c)), "k", true),
                _ => (Call::Predictor(c.draw(8) as usize), "p", true),
            },
            Host::Viewer => {
                let m = c.draw(6) as usize;
                (Call::Mode(m), "m", m != 3)
            }
            Host::Outline => {
                let n = gen_bound(c, &[0, 1, -1, -2, i32::MIN, i32::MAX]);
                (Call::Count(n), "c", n >= 0)
            }
            Host::Sep | Host::DevN => {
                let devn = host == Host::DevN;
                match c.weighted(&[3, 3, if devn { 2 } else { 0 }]) {
                    0 => {
                        let call = match c.draw(2) {
                            0 => Call::AltSpace(c.draw(3) as usize, gen_real(c)),
                            _ => Call::AltRef(1 + c.draw(50) as i32),
                        };
                        (call, "", !alt)
                    }
                    1 => {
                        let call = match c.draw(3) {
                            0 => Call::TintExp(gen_real(c)),
                            1 => Call::TintStitch((0..c.range(0, 3)).map(|_| 1 + c.draw(50) as i32).collect()),
                            _ => Call::TintRef(1 + c.draw(50) as i32),
                        };
                        if alt && tint && !devn {
                            // A second tint of a separation is neither documented as valid nor as rejected.
                            continue;
                        }
                        (call, "", alt && !tint)
                    }
                    _ => {
                        if attrs {
                            continue;
                        }
                        (Call::Attrs(c.draw(3) as usize), "", alt && tint)
                    }
                }
            }
        };
        if legal {
            if !tag.is_empty() {
                if done.contains(&tag) {
                    continue;
                }
                done.push(tag);
            }
            match call {
                Call::AltSpace(..) | Call::AltRef(_) => alt = true,
                Call::TintExp(_) | Call::TintStitch(_) | Call::TintRef(_) => tint = true,
                Call::Attrs(_) => attrs = true,
                _ => {}
            }
            steps.push(RStep::Legal(call));
        } else {
            let escape = c.chance(escapes, 100);
            steps.push(RStep::Illegal(call, escape));
            if escape {
                break;
            }
        }
        if !matches!(host, Host::Sep | Host::DevN) && c.chance(1, 3) {
            let mut k = gen_name(c);
            while used.contains(&k) {
                k.push(b'x');
            }
            used.push(k.clone());
            steps.push(RStep::Put(k, gen_prim(c, &p.g)));
        }
    }
    let names = {
        let n = c.range(0, 4);
        let panic_at = if c.chance(p.p_iter_panic, 300) { Some(c.range(0, n)) } else { None };
        Many { keys: vec![], vals: (0..n).map(|_| Prim::Name(gen_name(c))).collect(), panic_at, yields: c.chance(p.p_yield, 100), hint: c.draw(3) as u8, reenter: None }
    };
    Hosted { id, host, data: gen_bytes(c, false), names, steps, end: if c.draw(2) == 0 { End::Drop } else { End::Finish } }
}

const MODES: [(PageMode, &str); 6] = [
    (PageMode::UseNone, "UseNone"),
    (PageMode::UseOutlines, "UseOutlines"),
    (PageMode::UseThumbs, "UseThumbs"),
    (PageMode::FullScreen, "FullScreen"),
    (PageMode::UseOC, "UseOC"),
    (PageMode::UseAttachments, "UseAttachments"),
];
const PREDICTORS: [(Predictor, i32); 8] = [
    (Predictor::None, 1),
    (Predictor::Tiff, 2),
    (Predictor::PngNone, 10),
    (Predictor::PngSub, 11),
    (Predictor::PngUp, 12),
    (Predictor::PngAverage, 13),
    (Predictor::PngPaeth, 14),
    (Predictor::PngOptimum, 15),
];

/// Whether rejected calls are made or left out.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Do,
    Skip,
}

struct Run<'a> {
    c: &'a Ctx,
    mode: Mode,
    /// An escaping rejection is on its way out.
    leaving: bool,
    bad: Option<String>,
}

impl Run<'_> {
    fn note(&mut self, m: String) {
        harness(|| {
            self.bad.get_or_insert(m);
        })
    }
    /// Run one call that must be accepted.
    fn legal(&mut self, call: &Call, f: impl FnOnce()) {
        let (_, out) = guarded(|| lib(f));
        if out != Outcome::Done {
            self.note(format!("valid call {call:?} was rejected: {out:?}"));
        }
    }
    /// Run one call that must be rejected. Returns whether the object ends here.
    fn illegal(&mut self, call: &Call, escape: bool, f: impl FnOnce()) -> bool {
        if self.mode == Mode::Skip {
            return escape;
        }
        self.c.fault(if escape { "rejected_call_leaving_the_object" } else { "rejected_call" });
        self.c.ev(|| format!("call to be rejected: {call:?}"));
        if escape {
            self.leaving = true;
            lib(f);
            self.leaving = false;
            self.note(format!("invalid call {call:?} was accepted"));
            return true;
        }
        let (_, out) = guarded(|| lib(f));
        if !matches!(out, Outcome::Panic(_)) {
            self.note(format!("invalid call {call:?} was not rejected: {out:?}"));
        }
        false
    }
}

/// What an accepted call adds to a dictionary.
fn entry(call: &Call) -> (&'static [u8], V) {
    match call {
        Call::N(n) => (b"N", V::Int(*n)),
        Call::XStep(v) => (b"XStep", V::Real(*v)),
        Call::YStep(v) => (b"YStep", V::Real(*v)),
        Call::Colors(n) => (b"Colors", V::Int(*n)),
        Call::Bits(n) => (b"BitsPerComponent", V::Int(*n)),
        Call::Columns(n) => (b"Columns", V::Int(*n)),
        Call::Predictor(k) => (b"Predictor", V::Int(PREDICTORS[*k].1)),
        Call::Mode(k) => (b"NonFullScreenPageMode", nm(MODES[*k].1)),
        Call::Count(n) => (b"Count", V::Int(*n)),
        _ => unreachable!("array call"),
    }
}

/// Drive a dictionary-like host; `$do` performs one call on it. Returns from the function where an object ends early.
macro_rules! drive_dict {
    ($r:expr, $sh:expr, $w:ident, $steps:expr, |$call:ident| $do:expr) => {
        for s in $steps {
            match s {
                RStep::Yield => side_work($r.c),
                RStep::Panic => raise($r.c, "caller_panic"),
                RStep::Put(k, p) => {
                    let d: &mut Dict<'_> = &mut $w;
                    crate::with_prim!(p, v => { lib(|| d.pair(Name(k), v)); });
                    $sh.add(k, p.v());
                }
                RStep::Legal($call) => {
                    $r.legal($call, || { $do; });
                    let (k, v) = entry($call);
                    $sh.add(k, v);
                    $sh.claim($w.len(), $w.is_empty());
                }
                RStep::Illegal($call, esc) => {
                    let n = $w.len();
                    if $r.illegal($call, *esc, || { $do; }) {
                        return;
                    }
                    if $w.len() != n {
                        $r.note(format!("rejected call {:?} changed the entry count from {n} to {}", $call, $w.len()));
                    }
                    $sh.claim($w.len(), $w.is_empty());
                }
            }
        }
    };
}

macro_rules! drive_space {
    ($r:expr, $sh:expr, $w:ident, $steps:expr, |$call:ident| $do:expr) => {
        for s in $steps {
            match s {
                RStep::Yield => side_work($r.c),
                RStep::Panic => raise($r.c, "caller_panic"),
                RStep::Put(..) => {}
                RStep::Legal($call) => {
                    $r.legal($call, || $do);
                    $sh.add(&[], space_item($call));
                }
                RStep::Illegal($call, esc) => {
                    if $r.illegal($call, *esc, || $do) {
                        return;
                    }
                }
            }
        }
    };
}

/// What an accepted call adds to a Separation or DeviceN array.
fn space_item(call: &Call) -> V {
    let dict = |es: Vec<(&'static str, V)>| V::Dict(es.into_iter().map(|(k, v)| E::pair(k.as_bytes(), v)).collect());
    let white = || arr([V::Real(1.0), V::Real(0.5), V::Real(0.25)]);
    match call {
        Call::AltSpace(0, v) => arr([nm("ICCBased"), V::Ref(3 + (*v > 0.0) as i32)]),
        Call::AltSpace(1, v) => arr([nm("CalGray"), dict(vec![("WhitePoint", white()), ("Gamma", V::Real(*v))])]),
        Call::AltSpace(_, v) => arr([nm("Lab"), dict(vec![("WhitePoint", white()), ("Range", arr([V::Real(*v), V::Real(1.0), V::Real(0.0), V::Real(-1.0)]))])]),
        Call::AltRef(r) | Call::TintRef(r) => V::Ref(*r),
        Call::TintExp(n) => dict(vec![("FunctionType", V::Int(2)), ("N", V::Real(*n))]),
        Call::TintStitch(fs) => dict(vec![("FunctionType", V::Int(3)), ("Functions", arr(fs.iter().map(|f| V::Ref(*f))))]),
        Call::Attrs(0) => dict(vec![]),
        Call::Attrs(1) => dict(vec![("Subtype", nm("DeviceN"))]),
        Call::Attrs(_) => dict(vec![("Process", dict(vec![("ColorSpace", nm("DeviceCMYK"))]))]),
        _ => unreachable!("dictionary call"),
    }
}

macro_rules! space_calls {
    ($w:expr, $call:expr, $attrs:expr) => {
        match $call {
            Call::AltSpace(k, v) => {
                let cs = $w.alternate_color_space();
                match k {
                    0 => cs.icc_based(Ref::new(3 + (*v > 0.0) as i32)),
                    1 => cs.cal_gray([1.0, 0.5, 0.25], None, Some(*v)),
                    _ => cs.lab([1.0, 0.5, 0.25], None, Some([*v, 1.0, 0.0, -1.0])),
                }
            }
            Call::AltRef(r) => {
                $w.alternate_color_space_ref(Ref::new(*r));
            }
            Call::TintExp(n) => {
                $w.tint_exponential().n(*n);
            }
            Call::TintStitch(fs) => {
                $w.tint_stitching().functions(fs.iter().map(|f| Ref::new(*f)));
            }
            Call::TintRef(r) => {
                $w.tint_ref(Ref::new(*r));
            }
            Call::Attrs(k) => $attrs(*k),
            _ => unreachable!(),
        }
    };
}

fn exec_hosted(r: &mut Run<'_>, chunk: &mut Chunk, o: &Hosted, sh: &mut Shadow) {
    let id = Ref::new(o.id);
    let c = r.c;
    let len = || V::Int(o.data.len() as i32);
    match o.host {
        Host::Icc => {
            sh.open(&[], true);
            sh.add(b"Length", len());
            let mut w = lib(|| chunk.icc_profile(id, &o.data));
            drive_dict!(r, sh, w, &o.steps, |call| match call {
                Call::N(n) => w.n(*n),
                _ => unreachable!(),
            });
            end_writer(c, w, o.end, sh);
        }
        Host::Tiling => {
            sh.open(&[], true);
            sh.add(b"Length", len());
            sh.add(b"Type", nm("Pattern"));
            sh.add(b"PatternType", V::Int(1));
            let mut w = lib(|| chunk.tiling_pattern(id, &o.data));
            drive_dict!(r, sh, w, &o.steps, |call| match call {
                Call::XStep(v) => w.x_step(*v),
                Call::YStep(v) => w.y_step(*v),
                _ => unreachable!(),
            });
            end_writer(c, w, o.end, sh);
        }
        Host::Parms => {
            sh.open(&[], true);
            sh.add(b"Length", len());
            let mut outer = lib(|| chunk.stream(id, &o.data));
            sh.open(b"DecodeParms", true);
            {
                let mut w: DecodeParms<'_> = lib(|| outer.decode_parms());
                drive_dict!(r, sh, w, &o.steps, |call| match call {
                    Call::Colors(n) => w.colors(*n),
                    Call::Bits(n) => w.bits_per_component(*n),
                    Call::Columns(n) => w.columns(*n),
                    Call::Predictor(k) => w.predictor(PREDICTORS[*k].0),
                    _ => unreachable!(),
                });
                lib(|| drop(w));
            }
            sh.close();
            lib(|| outer.pair(Name(b"Tail"), o.id));
            sh.add(b"Tail", V::Int(o.id));
            end_writer(c, outer, o.end, sh);
        }
        Host::Viewer => {
            sh.open(&[], true);
            let mut w: ViewerPreferences<'_> = lib(|| chunk.indirect(id).start());
            drive_dict!(r, sh, w, &o.steps, |call| match call {
                Call::Mode(k) => w.non_full_screen_page_mode(MODES[*k].0),
                _ => unreachable!(),
            });
            end_writer(c, w, o.end, sh);
        }
        Host::Outline => {
            sh.open(&[], true);
            sh.add(b"Type", nm("Outlines"));
            let mut w: Outline<'_> = lib(|| chunk.outline(id));
            drive_dict!(r, sh, w, &o.steps, |call| match call {
                Call::Count(n) => w.count(*n),
                _ => unreachable!(),
            });
            end_writer(c, w, o.end, sh);
        }
        Host::Sep => {
            sh.open(&[], false);
            sh.add(&[], nm("Separation"));
            sh.add(&[], V::Name(o.data.clone()));
            let mut w: Separation<'_> = lib(|| chunk.color_space(id).separation(Name(&o.data)));
            drive_space!(r, sh, w, &o.steps, |call| space_calls!(w, call, |_: usize| unreachable!()));
            lib(|| drop(w));
        }
        Host::DevN => {
            sh.open(&[], false);
            sh.add(&[], nm("DeviceN"));
            sh.open(&[], false);
            let it = SimIter::new(c, &o.names).map(|i| match &o.names.vals[i] {
                Prim::Name(n) => Name(n),
                _ => unreachable!(),
            });
            let mut made: Option<DeviceN<'_>> = None;
            run_many(&o.names, sh, || made = Some(lib(|| chunk.color_space(id).device_n(it))));
            sh.close();
            let mut w = made.expect("a writer");
            drive_space!(r, sh, w, &o.steps, |call| space_calls!(w, call, |k: usize| {
                let mut a = w.attrs();
                match k {
                    0 => {}
                    1 => {
                        a.subtype(pdf_writer::types::DeviceNSubtype::DeviceN);
                    }
                    _ => {
                        a.process().color_space(Name(b"DeviceCMYK"));
                    }
                }
            }));
            lib(|| drop(w));
        }
    }
    sh.close();
}

fn write_robj(c: &Ctx, chunk: &mut Chunk, o: &RObj, mode: Mode) -> Res<Obj> {
    let h = match o {
        RObj::Plain(p) => {
            let (obj, out) = write_obj(c, chunk, p);
            if let Outcome::Panic(m) = out {
                viol!("writing object {}: unexpected panic: {m}", p.id);
            }
            return Ok(obj);
        }
        RObj::Hosted(h) => h,
    };
    c.count_objects(1);
    c.ev(|| format!("write object {} ({:?}, {mode:?})", h.id, h.host));
    let mut sh = Shadow::default();
    let mut r = Run { c, mode, leaving: false, bad: None };
    let (_, out) = guarded(|| exec_hosted(&mut r, chunk, h, &mut sh));
    sh.truncate(0);
    if let Some(b) = r.bad.take().or(sh.bad.take()) {
        viol!("object {} ({:?}): {b}", h.id, h.host);
    }
    if let Outcome::Panic(m) = &out {
        ensure!(r.leaving, "object {} ({:?}): unexpected panic: {m}", h.id, h.host);
    }
    let stream = matches!(h.host, Host::Icc | Host::Tiling | Host::Parms).then(|| h.data.clone());
    Ok(Obj { id: h.id, body: sh.done.unwrap_or(V::Any), stream, tainted: false })
}

// ---------------------------------------------------------------------------------------------
// Whole builds with and without the rejected calls.

fn build_with(c: &Ctx, prog: &[RObj], s: Settings, mode: Mode) -> Res<(Chunk, Vec<Obj>)> {
    let mut chunk = new_chunk(c, s);
    let mut objs = vec![];
    for o in prog {
        let before = snap(&chunk);
        objs.push(write_robj(c, &mut chunk, o, mode)?);
        ensure!(chunk.as_bytes().starts_with(&before.bytes), "earlier bytes changed while an object with rejected calls was written");
    }
    Ok((chunk, objs))
}

fn one_build(c: &Ctx, base: i32, out: &Mutex<Vec<(Chunk, Vec<Obj>)>>) -> Res {
    let mut cfg = PlanCfg::swarm(c, c.draw(2) == 1, false);
    cfg.max_steps = cfg.max_steps.min(5);
    let escapes = *c.pick(&[0, 15, 40]);
    let s = settings(c, 50);
    let mut prog = vec![];
    for i in 0..c.range(1, 6) as i32 {
        let id = base + i;
        prog.push(if c.chance(1, 4) { RObj::Plain(gen_obj(c, &cfg, id, 1)) } else { RObj::Hosted(gen_hosted(c, &cfg, id, escapes)) });
    }
    let (with, objs) = build_with(c, &prog, s, Mode::Do)?;
    let (without, objs2) = build_with(c, &prog, s, Mode::Skip)?;
    let (a, b) = (snap(&with), snap(&without));
    if a.bytes != b.bytes {
        let at = a.bytes.iter().zip(&b.bytes).position(|(x, y)| x != y).unwrap_or(a.bytes.len().min(b.bytes.len()));
        let cut = |x: &[u8]| show(&x[at.saturating_sub(30).min(x.len())..(at + 40).min(x.len())]);
        viol!("rejected calls left a trace: with them '{}', without '{}'", cut(&a.bytes), cut(&b.bytes));
    }
    ensure!(a.refs == b.refs, "rejected calls changed the listed ids from {:?} to {:?}", b.refs, a.refs);
    ensure!(a.lim == b.lim, "rejected calls changed the reported limits from {:?} to {:?}", b.lim, a.lim);
    for (x, y) in objs.iter().zip(&objs2) {
        ensure!(x.body == y.body, "object {}: the calls completed differ with and without rejected calls", x.id);
    }
    harness(|| out.lock().unwrap().push((with, objs)));
    Ok(())
}

/// The scalar constructors and the allocator at their bounds.
fn check_scalars(c: &Ctx) -> Res {
    let n = gen_bound(c, &[0, 1, -1, i32::MIN, i32::MAX, i32::MAX - 1, 2]);
    let (r, out) = guarded(|| lib(|| Ref::new(n)));
    match r {
        Some(r) => ensure!(n > 0 && r.get() == n, "reference {n} was accepted as {}", r.get()),
        None => ensure!(n <= 0 && matches!(out, Outcome::Panic(_)), "reference {n} was rejected: {out:?}"),
    }
    if n > 0 {
        let (nx, out) = guarded(|| lib(|| Ref::new(n).next()));
        match nx {
            Some(r) => ensure!(n < i32::MAX && r.get() == n + 1, "the reference after {n} is {}", r.get()),
            None => ensure!(n == i32::MAX, "there is no reference after {n}: {out:?}"),
        }
        let mut a = Ref::new(n);
        let (got, out) = guarded(|| lib(|| a.bump()));
        match got {
            Some(r) => ensure!(n < i32::MAX && r.get() == n && a.get() == n + 1, "bumping {n} gives {} and leaves {}", r.get(), a.get()),
            None => ensure!(n == i32::MAX && a.get() == n, "bumping {n} fails ({out:?}) and leaves {}", a.get()),
        }
    }
    let code = |c: &Ctx| -> String {
        let k = c.weighted(&[1, 8, 1, 1]);
        (0..k + (k == 0) as usize * c.range(0, 1))
            .map(|_| *c.pick(&['e', 'Z', 'a', '9', '0', '-', ' ', '_', '\u{e9}', '@', '[', '`', '{', '/', ':', '\0', '\u{1b}']))
            .collect()
    };
    let ok = |s: &str| s.len() == 2 && s.bytes().all(|b| b.is_ascii_alphanumeric());
    let (l, g) = (code(c), code(c));
    let got = lib(|| LanguageIdentifier::from_lang(&l)).is_some();
    ensure!(got == ok(&l), "language '{l}' was {}", if got { "accepted" } else { "rejected" });
    let got = lib(|| LanguageIdentifier::from_lang_region(&l, &g)).is_some();
    ensure!(got == (ok(&l) && ok(&g)), "language '{l}' with region '{g}' was {}", if got { "accepted" } else { "rejected" });
    c.probe("scalar_bounds");
    Ok(())
}

/// Rejected operations of a content stream.
fn check_content(c: &Ctx) -> Res {
    let mut cfg = ContentCfg::swarm(c, true, false);
    cfg.max_ops = cfg.max_ops.min(15);
    cfg.p_reject = 30;
    let s = settings(c, 50);
    let mut ops = gen_ops(c, &cfg, 0);
    // Every accepted boundary is accepted.
    for _ in 0..c.range(0, 3) {
        let at = c.range(0, ops.len());
        ops.insert(at, if c.draw(2) == 0 { fixed("w", *c.pick(&[0.0, -0.0, 1e-45, f32::MIN_POSITIVE, f32::MAX, 1.0]), 0) } else { fixed("i", 0.0, *c.pick(&[0, 1, 99, 100])) });
    }
    let mut k = new_content(c, s);
    let w = write_content(c, &mut k, &ops).map_err(Viol)?;
    let stripped = strip(&ops);
    let mut k2 = new_content(c, s);
    let w2 = write_content(c, &mut k2, &stripped).map_err(Viol)?;
    ensure!(k.as_bytes() == k2.as_bytes(), "rejected operations left a trace in a content stream");
    ensure!(w.ops == w2.ops && w.depth == w2.depth, "rejected operations changed which operations completed");
    let (a, b) = (finish_content(k), finish_content(k2));
    ensure!(Lim::of(a.limits()) == Lim::of(b.limits()), "rejected operations changed the limits of a content stream");
    check_ops(&w.ops, &a).map_err(Viol)?;
    c.probe("content_rejects");
    Ok(())
}

fn strip(ops: &[COp]) -> Vec<COp> {
    ops.iter()
        .filter(|o| !matches!(o, COp::Reject(..)))
        .map(|o| match o {
            COp::Guard(inner) => COp::Guard(strip(inner)),
            o => o.clone(),
        })
        .collect()
}

/// A stream longer than its length entry can say.
fn check_oversize(c: &Ctx) -> Res {
    let exact = c.draw(2) == 1;
    let n = i32::MAX as usize + if exact { 0 } else { *c.pick(&[1usize, 2, 1 << 20]) };
    let data = vec![0u8; n];
    let mut chunk = new_chunk(c, settings(c, 50));
    let cfg = PlanCfg::plain();
    let before = gen_obj(c, &cfg, 1, 1);
    let (o1, _) = write_obj(c, &mut chunk, &before);
    let (w, out) = guarded(|| {
        let w = lib(|| chunk.stream(Ref::new(2), &data));
        // Never copy the data.
        std::mem::forget(w);
    });
    if exact {
        ensure!(w.is_some(), "stream data of exactly i32::MAX bytes was rejected: {out:?}");
        c.probe("longest_stream_accepted");
        return Ok(());
    }
    ensure!(w.is_none() && matches!(out, Outcome::Panic(_)), "stream data of {n} bytes was accepted");
    c.fault("oversize_stream");
    let after = gen_obj(c, &cfg, 3, 1);
    let (o3, _) = write_obj(c, &mut chunk, &after);
    let found = chunk_objects(&chunk, "after an oversize stream was rejected")?;
    for o in [&o1, &o3] {
        let Some(p) = found.iter().find(|p| p.id == o.id as i64) else { viol!("object {} is gone after an oversize stream was rejected", o.id) };
        o.check(p).map_err(|e| Viol(format!("after an oversize stream was rejected: {e}")))?;
    }
    if let Some(p) = found.iter().find(|p| p.id == 2) {
        ensure!(p.stream.is_none() && p.body.get(b"Length").is_none(), "the rejected stream's length is in the output");
    }
    let present = match token_maxima(chunk.as_bytes(), 0, chunk.len()) {
        Ok(l) => l,
        Err(e) => viol!("after an oversize stream was rejected: {e}"),
    };
    ensure!(Lim::of(chunk.limits()) == present, "after an oversize stream was rejected the limits report {:?}; present {present:?}", Lim::of(chunk.limits()));
    Ok(())
}

pub fn c18(c: &Ctx) -> Res {
    if c.chance(1, 1500) {
        return check_oversize(c);
    }
    check_scalars(c)?;
    if c.draw(3) == 2 {
        return check_content(c);
    }
    let out = Mutex::new(vec![]);
    let n = c.range(1, 3);
    c.set_switch(*c.pick(&[0, 1, 3]));
    let mut actors: Vec<Box<dyn FnOnce() -> Res + Send + '_>> = vec![];
    for a in 0..n {
        let out = &out;
        actors.push(Box::new(move || one_build(c, 1 + 20 * a as i32, out)));
    }
    c.run_actors(actors)?;
    // One document out of all of them.
    let mut pdf = new_pdf(c, settings(c, 50));
    let mut objs = vec![];
    for (chunk, os) in out.into_inner().unwrap() {
        lib(|| pdf.extend(&chunk));
        objs.extend(os);
    }
    let ids: Vec<i32> = objs.iter().map(|o| o.id).collect();
    let fin = gen_fin(c, &ids);
    let (b, _) = match finish(c, pdf, &fin) {
        Ok(x) => x,
        Err(m) => viol!("finishing: panic: {m}"),
    };
    let f = read(&b)?;
    check_structure(&b, &f, &ids, fin.xref_id())?;
    check_objects(&b, &f, &objs)
}
