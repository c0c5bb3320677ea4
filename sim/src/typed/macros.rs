/// How to use one writer: the entries it starts with, and one line per method.
macro_rules! drive {
    ($Ty:ty, $w:ident, $t:ident; $kind:ident $(, $k:literal = $v:expr)*; $($body:expr;)*) => {
        impl Drive for $Ty {
            const DICT: bool = is_dict!($kind);
            fn steps(&mut self, $t: &mut T<'_>) {
                $( $t.puts($k, $v); )*
                let n = <[&str]>::len(&[$(stringify!($body)),*]);
                #[allow(unused)]
                let $w = self;
                #[allow(unused)]
                let mut go = |$t: &mut T<'_>, i: usize| {
                    if i == CLAIM {
                        claim!($kind, $w, $t);
                    }
                    if i == n {
                        raw!($kind, $w, $t);
                    }
                    let mut k = 0;
                    $(
                        if i == k {
                            $body;
                        }
                        k += 1;
                    )*
                };
                $t.drive(n + has_raw!($kind), is_array!($kind), &mut go);
            }
        }
    };
}

/// The same, without an implementation of `Drive`: for writers whose end is special.
macro_rules! steps_fn {
    ($f:ident: $Ty:ty, $w:ident, $t:ident; $kind:ident; $($body:expr;)*) => {
        pub fn $f($w: &mut $Ty, $t: &mut T<'_>) {
            let n = <[&str]>::len(&[$(stringify!($body)),*]);
            #[allow(unused)]
            let mut go = |$t: &mut T<'_>, i: usize| {
                if i == CLAIM {
                    claim!($kind, $w, $t);
                }
                if i == n {
                    raw!($kind, $w, $t);
                }
                let mut k = 0;
                $(
                    if i == k {
                        $body;
                    }
                    k += 1;
                )*
            };
            $t.drive(n + has_raw!($kind), is_array!($kind), &mut go);
        }
    };
}

macro_rules! is_dict {
    (arr) => { false };
    (plain_arr) => { false };
    ($k:ident) => { true };
}
macro_rules! is_array {
    (arr) => { true };
    (plain_arr) => { true };
    ($k:ident) => { false };
}
macro_rules! has_raw {
    (dict) => { 1 };
    (arr) => { 1 };
    (stream) => { 1 };
    ($k:ident) => { 0 };
}
macro_rules! claim {
    (plain_dict, $w:ident, $t:ident) => {};
    (plain_arr, $w:ident, $t:ident) => {};
    ($k:ident, $w:ident, $t:ident) => {
        $t.sh.claim($w.len(), $w.is_empty())
    };
}
/// Typed writers are also the plain writers they wrap.
macro_rules! raw {
    (dict, $w:ident, $t:ident) => {
        for _ in 0..$t.extra() {
            let (k, p) = ($t.own_key(), $t.prim());
            with_prim!(&p, v => { lib(|| { $w.pair(pdf_writer::Name(&k), v); }); });
            $t.put(&k, p.v());
        }
    };
    (stream, $w:ident, $t:ident) => {
        if $t.bool() {
            m!($t, $w.decode_parms, "DecodeParms", nest)
        } else {
            raw!(dict, $w, $t)
        }
    };
    (arr, $w:ident, $t:ident) => {
        for _ in 0..$t.extra() {
            let p = $t.prim();
            with_prim!(&p, v => { lib(|| { $w.item(v); }); });
            $t.put(b"", p.v());
        }
    };
    ($k:ident, $w:ident, $t:ident) => {};
}

/// One method: how to call it and what it must have written.
macro_rules! m {
    ($t:ident, $w:ident.$m:ident, $k:literal, $($kind:tt)*) => {
        if $t.fresh($k) {
            mk!($t, $w.$m, $k, $($kind)*);
        }
    };
}
macro_rules! mk {
    ($t:ident, $w:ident.$m:ident, $k:literal, ref) => {{
        let v = $t.r();
        lib(|| { $w.$m(pdf_writer::Ref::new(v)); });
        $t.puts($k, V::Ref(v));
    }};
    ($t:ident, $w:ident.$m:ident, $k:literal, int) => {{
        let v = $t.int();
        lib(|| { $w.$m(v); });
        $t.puts($k, V::Int(v));
    }};
    ($t:ident, $w:ident.$m:ident, $k:literal, nat) => {{
        let v = $t.nat();
        lib(|| { $w.$m(v); });
        $t.puts($k, V::Int(v));
    }};
    ($t:ident, $w:ident.$m:ident, $k:literal, u8) => {{
        let v = gen_u8($t.g);
        lib(|| { $w.$m(v); });
        $t.puts($k, V::Int(v as i32));
    }};
    ($t:ident, $w:ident.$m:ident, $k:literal, u16) => {{
        let v = gen_u16($t.g);
        lib(|| { $w.$m(v); });
        $t.puts($k, V::Int(v as i32));
    }};
    ($t:ident, $w:ident.$m:ident, $k:literal, of_ints [$($x:expr),*]) => {{
        let v = *$t.g.pick(&[$($x),*]);
        lib(|| { $w.$m(v); });
        $t.puts($k, V::Int(v));
    }};
    ($t:ident, $w:ident.$m:ident, $k:literal, real) => {{
        let v = $t.real();
        lib(|| { $w.$m(v); });
        $t.puts($k, V::Real(v));
    }};
    ($t:ident, $w:ident.$m:ident, $k:literal, nonzero) => {{
        let v = $t.real();
        let v = if v == 0.0 { 1.0 } else { v };
        lib(|| { $w.$m(v); });
        $t.puts($k, V::Real(v));
    }};
    ($t:ident, $w:ident.$m:ident, $k:literal, real_in_array) => {{
        let v = $t.real();
        lib(|| { $w.$m(v); });
        $t.puts($k, reals_v(&[v]));
    }};
    ($t:ident, $w:ident.$m:ident, $k:literal, bool) => {{
        let v = $t.bool();
        lib(|| { $w.$m(v); });
        $t.puts($k, V::Bool(v));
    }};
    ($t:ident, $w:ident.$m:ident, $k:literal, bool_int) => {{
        let v = $t.bool();
        lib(|| { $w.$m(v); });
        $t.puts($k, V::Int(v as i32));
    }};
    ($t:ident, $w:ident.$m:ident, $k:literal, name) => {{
        let v = $t.name();
        lib(|| { $w.$m(pdf_writer::Name(&v)); });
        $t.puts($k, V::Name(v));
    }};
    ($t:ident, $w:ident.$m:ident, $k:literal, str) => {{
        let v = $t.str();
        lib(|| { $w.$m(pdf_writer::Str(&v)); });
        $t.puts($k, V::Str(v));
    }};
    ($t:ident, $w:ident.$m:ident, $k:literal, text) => {{
        let v = $t.text();
        lib(|| { $w.$m(pdf_writer::TextStr(&v)); });
        $t.puts($k, text_v(&v));
    }};
    ($t:ident, $w:ident.$m:ident, $k:literal, tlike) => {{
        let p = $t.tlike();
        tlike!(&p, v => { lib(|| { $w.$m(v); }); });
        $t.puts($k, p.v());
    }};
    ($t:ident, $w:ident.$m:ident, $k:literal, date) => {{
        let d = gen_date($t.g);
        lib(|| { $w.$m(d.build()); });
        $t.puts($k, Prim::Date(d).v());
    }};
    ($t:ident, $w:ident.$m:ident, $k:literal, rect) => {{
        let r: [f32; 4] = $t.reals();
        lib(|| { $w.$m(pdf_writer::Rect::new(r[0], r[1], r[2], r[3])); });
        $t.puts($k, reals_v(&r));
    }};
    ($t:ident, $w:ident.$m:ident, $k:literal, reals $n:literal) => {{
        let r: [f32; $n] = $t.reals();
        lib(|| { $w.$m(r); });
        $t.puts($k, reals_v(&r));
    }};
    // Several scalar parameters, written as one array.
    ($t:ident, $w:ident.$m:ident, $k:literal, args 0) => {{
        lib(|| { $w.$m(); });
        $t.puts($k, reals_v(&[]));
    }};
    ($t:ident, $w:ident.$m:ident, $k:literal, args 2) => {{
        let r: [f32; 2] = $t.reals();
        lib(|| { $w.$m(r[0], r[1]); });
        $t.puts($k, reals_v(&r));
    }};
    ($t:ident, $w:ident.$m:ident, $k:literal, args 3) => {{
        let r: [f32; 3] = $t.reals();
        lib(|| { $w.$m(r[0], r[1], r[2]); });
        $t.puts($k, reals_v(&r));
    }};
    ($t:ident, $w:ident.$m:ident, $k:literal, args 4) => {{
        let r: [f32; 4] = $t.reals();
        lib(|| { $w.$m(r[0], r[1], r[2], r[3]); });
        $t.puts($k, reals_v(&r));
    }};
    ($t:ident, $w:ident.$m:ident, $k:literal, says $v:expr) => {{
        lib(|| { $w.$m(); });
        $t.puts($k, ($v).ev());
    }};
    ($t:ident, $w:ident.$m:ident, $k:literal, version) => {{
        let (a, b) = (gen_u8($t.g), gen_u8($t.g));
        lib(|| { $w.$m(a, b); });
        $t.puts($k, V::Name(format!("{a}.{b}").into_bytes()));
    }};
    ($t:ident, $w:ident.$m:ident, $k:literal, $f:ident ()) => {{
        let (v, e) = $f($t);
        lib(|| { $w.$m(v); });
        $t.puts($k, e);
    }};
    ($t:ident, $w:ident.$m:ident, $k:literal, nest) => {{
        let c = lib(|| $w.$m());
        $t.nest($k.as_bytes(), c);
    }};
    // An iterator of values.
    ($t:ident, $w:ident.$m:ident, $k:literal, many $kind:tt) => {{
        let m = gen_many!($t, $kind);
        $t.sh.begin();
        $t.sh.open($k.as_bytes(), false);
        let cx = $t.cx;
        run_many(&m, $t.sh, || {
            let it = SimIter::new(cx, &m).map(|i| elem!($kind, &m.vals[i]));
            lib(|| { $w.$m(it); });
        });
        $t.sh.close();
        $t.sh.end();
    }};
    // An iterator of values into the current array.
    ($t:ident, $w:ident.$m:ident, $k:literal, all $kind:tt) => {{
        let m = gen_many!($t, $kind);
        $t.sh.begin();
        let cx = $t.cx;
        run_many(&m, $t.sh, || {
            let it = SimIter::new(cx, &m).map(|i| elem!($kind, &m.vals[i]));
            lib(|| { $w.$m(it); });
        });
        $t.sh.end();
    }};
    // An iterator over an enumeration.
    ($t:ident, $w:ident.$m:ident, $k:literal, each $f:ident) => {{
        let n = if $t.g.chance(1, 10) { $t.g.range(7, 40) } else if $t.g.chance(1, 60) { $t.g.range(90, 300) } else { $t.count() };
        let vs: Vec<_> = (0..n).map(|_| $f($t)).collect();
        let mut m = $t.many_of(vec![Prim::Null; n]);
        let ev: Vec<V> = vs.iter().map(|x| x.1.clone()).collect();
        m.vals = ev.into_iter().map(|v| match v { V::Name(n) => Prim::Name(n), V::Str(s) => Prim::Str(s), V::Int(i) => Prim::Int(i), _ => Prim::Null }).collect();
        $t.sh.begin();
        $t.sh.open($k.as_bytes(), false);
        let cx = $t.cx;
        run_many(&m, $t.sh, || {
            let it = SimIter::new(cx, &m).map(|i| vs[i].0);
            lib(|| { $w.$m(it); });
        });
        $t.sh.close();
        $t.sh.end();
    }};
    // A typed array of primitives.
    ($t:ident, $w:ident.$m:ident, $k:literal, array $kind:tt) => {{
        let plan = items_plan!($t, $kind);
        $t.sh.open($k.as_bytes(), false);
        let mut a = lib(|| $w.$m());
        typed_items!($t, a, $kind, plan);
        $t.end(a);
        $t.sh.close();
    }};
    ($t:ident, $w:ident.$m:ident, $k:literal, array_of) => {{
        $t.sh.open($k.as_bytes(), false);
        let mut a = lib(|| $w.$m());
        array_of!($t, a);
        $t.end(a);
        $t.sh.close();
    }};
    ($t:ident, $w:ident.$m:ident, $k:literal, dict $kind:tt) => {{
        $t.sh.open($k.as_bytes(), true);
        let mut a = lib(|| $w.$m());
        dict_items!($t, a, $kind);
        $t.end(a);
        $t.sh.close();
    }};
    ($t:ident, $w:ident.$m:ident, $k:literal, dict_of) => {{
        $t.sh.open($k.as_bytes(), true);
        let mut a = lib(|| $w.$m());
        dict_of!($t, a);
        $t.end(a);
        $t.sh.close();
    }};
    ($t:ident, $w:ident.$m:ident, $k:literal, $other:ident) => {
        compile_error!(concat!("kind ", stringify!($other)))
    };
}

/// What goes into a typed array, call by call.
macro_rules! items_plan {
    ($t:ident, $kind:tt) => {{
        let mut plan: Vec<(bool, crate::plan::Many)> = vec![];
        for _ in 0..$t.count() {
            let one = $t.bool();
            plan.push((one, gen_many!($t, $kind)));
        }
        plan
    }};
}
macro_rules! typed_items {
    ($t:ident, $a:ident, $kind:tt, $plan:ident) => {
        for (one, m) in &$plan {
            $t.between();
            if *one {
                for p in &m.vals {
                    lib(|| { $a.item(elem!($kind, p)); });
                    $t.put(b"", p.v());
                }
            } else {
                let cx = $t.cx;
                run_many(m, $t.sh, || {
                    let it = SimIter::new(cx, m).map(|i| elem!($kind, &m.vals[i]));
                    lib(|| { $a.items(it); });
                });
            }
            $t.sh.claim($a.len(), $a.is_empty());
        }
    };
}
macro_rules! dict_items {
    ($t:ident, $a:ident, $kind:tt) => {
        for _ in 0..$t.count() {
            $t.between();
            if $t.bool() {
                let k = $t.new_key();
                let p = gen_elem!($t, $kind);
                lib(|| { $a.pair(pdf_writer::Name(&k), elem!($kind, &p)); });
                $t.put(&k, p.v());
            } else {
                let m = gen_many!($t, $kind);
                let cx = $t.cx;
                run_many(&m, $t.sh, || {
                    let it = SimIter::new(cx, &m).map(|i| (pdf_writer::Name(&m.keys[i]), elem!($kind, &m.vals[i])));
                    lib(|| { $a.pairs(it); });
                });
            }
            $t.sh.claim($a.len(), $a.is_empty());
        }
    };
}
macro_rules! array_of {
    ($t:ident, $a:ident) => {
        for _ in 0..$t.count() {
            $t.between();
            let c = lib(|| $a.push());
            $t.nest(b"", c);
            $t.sh.claim($a.len(), $a.is_empty());
        }
    };
}
macro_rules! dict_of {
    ($t:ident, $a:ident) => {
        for _ in 0..$t.count() {
            $t.between();
            let k = $t.new_key();
            let c = lib(|| $a.insert(pdf_writer::Name(&k)));
            $t.nest(&k, c);
            $t.sh.claim($a.len(), $a.is_empty());
        }
    };
}

macro_rules! kind_no {
    (int) => { 0 };
    (name) => { 1 };
    (ref) => { 2 };
    (str) => { 3 };
    (bool) => { 4 };
    (real) => { 5 };
    (text) => { 6 };
    (rect) => { 8 };
}
macro_rules! gen_many {
    ($t:ident, $kind:tt) => { $t.many(kind_no!($kind)) };
}
macro_rules! gen_elem {
    ($t:ident, $kind:tt) => { gen_prim_kind($t.g, &$t.gen, kind_no!($kind)) };
}
macro_rules! elem {
    (int, $p:expr) => { match $p { Prim::Int(i) => *i, _ => unreachable!() } };
    (name, $p:expr) => { match $p { Prim::Name(i) => pdf_writer::Name(i), _ => unreachable!() } };
    (ref, $p:expr) => { match $p { Prim::Ref(i) => pdf_writer::Ref::new(*i), _ => unreachable!() } };
    (str, $p:expr) => { match $p { Prim::Str(i) => pdf_writer::Str(i), _ => unreachable!() } };
    (bool, $p:expr) => { match $p { Prim::Bool(i) => *i, _ => unreachable!() } };
    (real, $p:expr) => { match $p { Prim::Real(i) => *i, _ => unreachable!() } };
    (text, $p:expr) => { match $p { Prim::Text(i) => pdf_writer::TextStr(i), _ => unreachable!() } };
    (rect, $p:expr) => { match $p { Prim::Rect(r) => pdf_writer::Rect::new(r[0], r[1], r[2], r[3]), _ => unreachable!() } };
}
/// Call with the text value, plain or with language tags.
macro_rules! tlike {
    ($p:expr, $v:ident => $body:expr) => {
        match $p {
            Prim::Text(b) => {
                let $v = pdf_writer::TextStr(b);
                $body
            }
            Prim::LangText(parts) => {
                let parts: Vec<(pdf_writer::LanguageIdentifier, &str)> =
                    crate::alloc::harness(|| parts.iter().map(|(l, r, t)| (language(*l, *r), t.as_str())).collect());
                let $v = pdf_writer::TextStrWithLang(&parts);
                $body
            }
            _ => unreachable!("text"),
        }
    };
}

/// A drawn variant of an enumeration and what it is written as.
macro_rules! table {
    ($f:ident: $Ty:ty; $($var:ident => $v:expr),*; $(custom $c:ident)?) => {
        #[allow(unused)]
        pub fn $f(t: &mut T<'_>) -> ($Ty, V) {
            let n = [$(stringify!($var)),* $(, stringify!($c))?].len();
            let i = t.g.draw(n as u32) as usize;
            let mut k = 0;
            $(
                if i == k {
                    return (<$Ty>::$var, ($v).ev());
                }
                k += 1;
            )*
            $(
                let s = t.custom();
                return (<$Ty>::$c(pdf_writer::Name(s)), V::Name(s.to_vec()));
            )?
            #[allow(unreachable_code)]
            { unreachable!("table {}", stringify!($f)) }
        }
    };
}

/// Drawn flags and the bits they stand for.
macro_rules! flags_table {
    ($f:ident: $Ty:ident; $($c:ident = $v:expr),*) => {
        pub fn $f(t: &mut T<'_>) -> ($Ty, V) {
            let mut f = $Ty::empty();
            let mut bits: i32 = 0;
            let many = t.g.draw(4) == 3;
            let n = [$(stringify!($c)),*].len() as u32;
            let one = t.g.draw(n + 1);
            let mut k = 0;
            $(
                if k == one || many && t.bool() {
                    f |= $Ty::$c;
                    bits |= $v;
                }
                k += 1;
            )*
            let _ = k;
            (f, V::Int(bits))
        }
    };
}

/// Objects that one call on a chunk (or on an object) starts.
macro_rules! roots {
    ($($m:ident)*; $($Ty:ident)* $(; $($tm:ident $tt:ty),*)?) => {
        &[
            $($( (stringify!($tm), |c: &mut pdf_writer::Chunk, id: pdf_writer::Ref, t: &mut T<'_>| { let w = lib(|| c.$tm::<$tt>(id)); t.nest(b"", w) }), )*)?
            $( (stringify!($m), |c: &mut pdf_writer::Chunk, id: pdf_writer::Ref, t: &mut T<'_>| { let w = lib(|| c.$m(id)); t.nest(b"", w) }), )*
            $( (stringify!($Ty), |c: &mut pdf_writer::Chunk, id: pdf_writer::Ref, t: &mut T<'_>| { let o = start(c, id); let w = lib(|| o.start::<$Ty>()); t.nest(b"", w) }), )*
        ]
    };
}
