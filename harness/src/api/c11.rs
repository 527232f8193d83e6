//! Colour programs.
use super::*;
use gfwx::{ChannelTransformBuilder, ColorTransformProgram};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::content::mix;
use vh::gen::{self, Opts, Prog, Transform};
use vh::run::no_panic;
use vh::{ensure, model, Ctx, Obs, Res};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tr {
    case: Case,
    garbage: u64,
    /// surplus samples in the work buffer
    surplus: u8,
}

fn garbage(n: usize, seed: u64) -> Vec<i16> {
    (0..n).map(|i| mix(seed ^ i as u64) as i16).collect()
}

fn transforms(t: &Tr, o: &mut Obs) -> Res {
    let case = &t.case;
    case.classify(o);
    let ts = case.transforms();
    if ts.iter().any(|t| !t.factors.is_empty()) {
        o.nontrivial();
    }
    let h = case.header();
    let p = case.program();
    let (px, n, ch) = (case.pixels(), case.n(), case.channels as usize);
    let img = case.image();
    let mut pl = vec![0u8; img.len()];
    for k in 0..n {
        for i in 0..px {
            pl[k * px + i] = img[model::interleaved_index(k, i, ch, px)];
        }
    }
    let mut m = model::M::default();
    let planes = m.transform(&ts, n, px, model::boost(case.quality), &|k, i| pl[k * px + i]);
    let want: Vec<i16> = planes.iter().flat_map(|p| p.iter().map(|v| *v as i16)).collect();
    let extra = t.surplus as usize;

    let mut a = garbage(img.len() + extra, t.garbage);
    let before = a.clone();
    p.transform_and_to_planar(&img, &h, &mut a);
    let mut b = garbage(img.len() + extra, !t.garbage);
    let before_b = b.clone();
    p.transform(&pl, &h, &mut b);
    diff16("transform of planar against interleaved samples", &b[..pl.len()], &a[..pl.len()])?;
    ensure!(a[img.len()..] == before[img.len()..] && b[img.len()..] == before_b[img.len()..], "the transform writes past the samples");
    if m.overflowed {
        o.label("values over 16 bits");
    } else {
        diff16("transformed samples", &a[..img.len()], &want)?;
    }
    // wider samples
    let wide: Vec<i16> = img.iter().map(|v| *v as i16).collect();
    let mut c = garbage(img.len(), t.garbage ^ 5);
    p.transform_and_to_planar(&wide, &h, &mut c);
    diff16("transform of 16-bit samples", &c, &a[..img.len()])?;

    let mut out = vec![0xAAu8; img.len() + extra];
    p.detransform_and_to_interleaved(&mut a[..img.len()], &h, px, &mut out);
    diff("undone transform, interleaved", &out[..img.len()], &img)?;
    ensure!(out[img.len()..].iter().all(|v| *v == 0xAA), "surplus room in the output is written");
    let mut out = vec![0xAAu8; img.len() + extra];
    p.detransform(&mut b[..img.len()], &h, px, &mut out);
    diff("undone transform, planar", &out[..img.len()], &pl)?;
    ensure!(out[img.len()..].iter().all(|v| *v == 0xAA), "surplus room in the output is written");
    let mut out = vec![-1i16; img.len()];
    p.detransform_and_to_interleaved(&mut c, &h, px, &mut out);
    diff16("undone transform, 16-bit samples", &out, &wide)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Arb {
    case: Case,
    samples: Vec<i16>,
    d: u8,
}

/// Undoing is the inverse of the model's transform for arbitrary decoded samples, with clamping, at any size.
fn detransform(t: &Arb, o: &mut Obs) -> Res {
    let case = &t.case;
    let d = t.d as usize;
    let ts = case.transforms();
    let h = case.header();
    let px = model::down(case.w as usize, d) * model::down(case.h as usize, d);
    let (n, ch) = (case.n(), case.channels as usize);
    let aux: Vec<i16> = (0..px * n).map(|i| t.samples[i % t.samples.len()]).collect();
    let mut m = model::M::default();
    let mut planes: Vec<model::Plane> = aux.chunks(px).map(|c| c.iter().map(|v| *v as i32).collect()).collect();
    m.detransform(&ts, &mut planes);
    if m.overflowed {
        o.skip();
        return Ok(());
    }
    o.nontrivial();
    let b = model::boost(case.quality) as i32;
    let mut inter = vec![0u8; px * n];
    let mut plan = vec![0u8; px * n];
    for k in 0..n {
        for i in 0..px {
            let v = (planes[k][i] / b).clamp(0, 255) as u8;
            inter[model::interleaved_index(k, i, ch, px)] = v;
            plan[k * px + i] = v;
        }
    }
    let p = case.program();
    let mut out = vec![9u8; px * n];
    p.detransform_and_to_interleaved(&mut aux.clone(), &h, px, &mut out);
    diff("undone transform of arbitrary samples, interleaved", &out, &inter)?;
    let mut out = vec![9u8; px * n];
    p.detransform(&mut aux.clone(), &h, px, &mut out);
    diff("undone transform of arbitrary samples, planar", &out, &plan)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ser {
    n: usize,
    ts: Vec<Transform>,
    tail: Vec<u8>,
}

fn serial(s: &Ser, o: &mut Obs) -> Res {
    let mut ts = s.ts.clone();
    for t in &mut ts {
        t.dest %= s.n;
        for f in &mut t.factors {
            f.0 %= s.n;
        }
    }
    if !ts.is_empty() {
        o.nontrivial();
    }
    let p = gen::to_program(&ts);
    let mut bytes = vec![];
    let chroma = p.encode(s.n, &mut bytes).map_err(|e| format!("encode: {e}"))?;
    ensure!(bytes.len() % 4 == 0, "program of {} bytes", bytes.len());
    let mut want = vec![false; s.n];
    for t in &ts {
        want[t.dest] = t.chroma;
    }
    ensure!(chroma == want, "encode: chroma flags {chroma:?} instead of {want:?}");
    let len = bytes.len();
    bytes.extend(&s.tail);
    let mut rd = &bytes[..];
    let mut flags = vec![false; s.n];
    let q = ColorTransformProgram::decode(&mut rd, &mut flags).map_err(|e| format!("decode: {}", derr(&e)))?;
    ensure!(q == p, "read back {q:?}, wrote {p:?}");
    ensure!(flags == want, "decode: chroma flags {flags:?} instead of {want:?}");
    ensure!(bytes.len() - rd.len() == len, "wrote {len} bytes, read {}", bytes.len() - rd.len());
    let it: Vec<_> = q.iter().collect();
    ensure!(it.len() == ts.len(), "{} transforms instead of {}", it.len(), ts.len());
    for (a, t) in it.iter().zip(&ts) {
        let f: Vec<(usize, i32)> = a.channel_factors.iter().map(|f| (f.src_channel, f.factor as i32)).collect();
        ensure!(
            a.dest_channel == t.dest && f == t.factors && a.denominator == t.den as isize && a.is_chroma == t.chroma,
            "transform {a:?} instead of {t:?}"
        );
    }
    for c in 0..s.n.min(40) {
        let has = ts.iter().any(|t| t.dest == c && (t.den > 1 || !t.factors.is_empty()));
        ensure!(q.is_channel_has_transform(c) == has, "is_channel_has_transform({c}) is not {has}");
    }
    // a program that does not fit is an error
    for cut in [0, len / 2, len - 1] {
        let mut small = vec![0u8; cut];
        let mut sink = &mut small[..];
        ensure!(p.encode(s.n, &mut sink).is_err(), "writing {len} bytes into {cut} succeeds");
        let mut flags = vec![false; s.n];
        ensure!(ColorTransformProgram::decode(&mut &bytes[..cut / 4 * 4], &mut flags).is_err(), "reading {} of {len} bytes succeeds", cut / 4 * 4);
    }
    Ok(())
}

fn int() -> BoxedStrategy<i32> {
    prop_oneof![4 => -9i32..=9, 3 => -40_000i32..=40_000, 1 => any::<i32>(), 1 => gen::signed_dict(1 << 26), 1 => prop::sample::select(vec![i32::MIN, i32::MAX, 1 << 16, -(1 << 16), 32767, 32768, -32768])].boxed()
}

fn ser() -> BoxedStrategy<Ser> {
    let den = prop_oneof![3 => Just(1i32), 3 => 1i32..=300, 1 => 1i32..=i32::MAX, 1 => Just(65536i32), 1 => gen::dict(1 << 26).prop_map(|v| v as i32)];
    let tr = (prop_oneof![9 => 0usize..70_000, 1 => gen::dict(70_000).prop_map(|v| v as usize)], prop_oneof![20 => prop::collection::vec((0usize..70_000, int()), 0..6), 1 => prop::collection::vec((0usize..70_000, int()), 6..300)], den, any::<bool>())
        .prop_map(|(dest, factors, den, chroma)| Transform { dest, factors, den, chroma });
    (prop_oneof![4 => 1usize..9, 1 => 1usize..400, 1 => 1usize..70_000], prop_oneof![30 => prop::collection::vec(tr.clone(), 0..7), 1 => prop::collection::vec(tr, 7..300)], prop::collection::vec(any::<u8>(), 0..9))
        .prop_map(|(n, ts, tail)| Ser { n, ts, tail })
        .boxed()
}

fn refused(v: &i64, o: &mut Obs) -> Res {
    o.nontrivial();
    let r = no_panic(|| {
        let mut b = ChannelTransformBuilder::with_dest_channel(0);
        b.set_denominator(*v as isize);
        b.build()
    });
    ensure!(r.is_ok() == (*v > 0), "denominator {v} is {}", if r.is_ok() { "accepted" } else { "refused" });
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Call {
    Chroma,
    Factor(usize, i32),
    Den(i32),
    Build,
    /// a copy of the program so far is kept and must stay as it is
    Keep,
    /// build, add to the program, start a new builder with this destination
    Next(usize),
    /// build and add, and go on with the same builder
    Add,
}

/// Any sequence of calls of the builder gives the transforms it spells out.
fn calls(c: &(usize, Vec<Call>), o: &mut Obs) -> Res {
    let fresh = |dest| Transform { dest, factors: vec![], den: 1, chroma: false };
    let mut b = ChannelTransformBuilder::with_dest_channel(c.0);
    let mut model = fresh(c.0);
    let mut p = ColorTransformProgram::new();
    let mut list: Vec<Transform> = vec![];
    let mut kept: Vec<(ColorTransformProgram, Vec<Transform>)> = vec![];
    if c.1.len() > 2 {
        o.nontrivial();
    }
    let same = |t: &gfwx::ChannelTransform, m: &Transform| -> Res {
        let f: Vec<(usize, i32)> = t.channel_factors.iter().map(|f| (f.src_channel, f.factor as i32)).collect();
        ensure!(t.dest_channel == m.dest && f == m.factors && t.denominator == m.den as isize && t.is_chroma == m.chroma, "built {t:?}, expected {m:?}");
        Ok(())
    };
    for call in &c.1 {
        match call {
            Call::Chroma => {
                b.set_chroma();
                model.chroma = true;
            }
            Call::Factor(s, f) => {
                b.add_channel_factor(*s, *f as isize);
                model.factors.push((*s, *f));
            }
            Call::Den(d) => {
                let r = no_panic(|| {
                    b.set_denominator(*d as isize);
                });
                ensure!(r.is_ok() == (*d > 0), "denominator {d} is {}", if r.is_ok() { "accepted" } else { "refused" });
                if *d > 0 {
                    model.den = *d;
                }
            }
            Call::Build => same(&b.build(), &model)?,
            Call::Keep => kept.push((p.clone(), list.clone())),
            Call::Add => {
                p.add_channel_transform(b.build());
                list.push(model.clone());
            }
            Call::Next(d) => {
                p.add_channel_transform(b.build());
                list.push(std::mem::replace(&mut model, fresh(*d)));
                b = ChannelTransformBuilder::with_dest_channel(*d);
            }
        }
    }
    same(&b.build(), &model)?;
    kept.push((p, list));
    for (i, (p, l)) in kept.iter().enumerate() {
        let it: Vec<_> = p.iter().collect();
        ensure!(it.len() == l.len(), "program of {} transforms, expected {}", it.len(), l.len());
        for (t, m) in it.iter().zip(l) {
            same(t, m)?;
        }
        for (q, k) in &kept[..i] {
            ensure!((p == q) == (l == k), "programs {p:?} and {q:?} compare as {}", p == q);
        }
    }
    Ok(())
}

/// A program with any denominator as the reader sees it, in the format's own code.
fn program_bytes(dest: i32, den: i32) -> Vec<u8> {
    let mut bits: Vec<bool> = vec![];
    fn unsigned(b: &mut Vec<bool>, x: u32, pot: u32) {
        let y = x >> pot;
        if y >= 12 {
            b.extend([false; 12]);
            unsigned(b, x - (12 << pot), if pot < 20 { pot + 4 } else { 24 });
        } else {
            b.extend((0..y).map(|_| false));
            b.push(true);
            b.extend((0..pot).rev().map(|i| x >> i & 1 == 1));
        }
    }
    let mut signed = |x: i32| {
        unsigned(&mut bits, x.unsigned_abs(), 2);
        if x != 0 {
            bits.push(x > 0);
        }
    };
    signed(dest);
    signed(-1);
    signed(den);
    signed(1);
    signed(-1);
    while bits.len() % 32 != 0 {
        bits.push(false);
    }
    bits.chunks(32).flat_map(|w| w.iter().fold(0u32, |a, b| a << 1 | *b as u32).to_le_bytes()).collect()
}

fn reader(v: &i32, o: &mut Obs) -> Res {
    o.nontrivial();
    let b = program_bytes(2, *v);
    let mut flags = [false; 3];
    match ColorTransformProgram::decode(&mut &b[..], &mut flags) {
        Err(_) => ensure!(*v <= 0, "denominator {v} is refused by the reader"),
        Ok(p) => {
            ensure!(*v > 0, "denominator {v} is accepted by the reader");
            ensure!(p.iter().next().unwrap().denominator == *v as isize, "denominator {v} is read as {:?}", p);
            ensure!(flags == [false, false, true], "chroma flags {flags:?}");
        }
    }
    Ok(())
}

fn presets(i: &usize, o: &mut Obs) -> Res {
    o.nontrivial();
    let (prog, p) = [
        (Prog::Yuv444, ColorTransformProgram::yuv444_to_yuv444()),
        (Prog::RgbYuv, ColorTransformProgram::rgb_to_yuv()),
        (Prog::BgrA710, ColorTransformProgram::bgr_to_a710()),
        (Prog::RgbA710, ColorTransformProgram::rgb_to_a710()),
    ][*i]
        .clone();
    let want = gen::to_program(&gen::resolve(&prog, 3));
    ensure!(p == want, "the preset {prog:?} is {p:?}");
    ensure!(ColorTransformProgram::new() == ColorTransformProgram::default() && ColorTransformProgram::new().iter().next().is_none(), "the empty program is not empty");
    Ok(())
}

/// Numbers that leave 32 bits: destination, source, factor or denominator.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Far {
    n: usize,
    ts: Vec<Transform>,
    at: usize,
    what: u8,
    v: i64,
}

fn far(c: &Far, o: &mut Obs) -> Res {
    let mut p = ColorTransformProgram::new();
    let at = c.at % c.ts.len();
    let mut fits = true;
    for (i, t) in c.ts.iter().enumerate() {
        let mut b = ChannelTransformBuilder::with_dest_channel(t.dest % c.n);
        for (s, f) in &t.factors {
            b.add_channel_factor(s % c.n, *f as isize);
        }
        b.set_denominator(t.den as isize);
        if t.chroma {
            b.set_chroma();
        }
        if i == at {
            let v = c.v;
            if c.what == 0 {
                let den = v.checked_abs().unwrap_or(i64::MAX).max(1);
                b.set_denominator(den as isize);
                fits = i32::try_from(den).is_ok();
            } else {
                b.add_channel_factor(0, v as isize);
                fits = i32::try_from(v).is_ok();
            }
        }
        p.add_channel_transform(b.build());
    }
    o.label(if fits { "within 32 bits" } else { "beyond 32 bits" });
    if !fits {
        o.nontrivial();
    }
    let mut bytes = vec![];
    match p.encode(c.n, &mut bytes) {
        Err(e) => {
            ensure!(!fits, "writing {p:?} fails: {e}");
        }
        Ok(_) => {
            let mut flags = vec![false; c.n];
            let q = ColorTransformProgram::decode(&mut &bytes[..], &mut flags).map_err(|e| format!("what was written of {p:?} cannot be read: {}", derr(&e)))?;
            ensure!(q == p, "read back {q:?}, wrote {p:?}");
        }
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    let progs = |wild| prop::collection::vec(gen::transform(wild), 1..7).prop_map(Prog::Custom);
    let tr = move |scale: u32, max_samples: usize, wild: bool| {
        (gen::case(Opts { scale, max_samples, wild, ..Default::default() }), prop_oneof![1 => progs(wild).prop_map(Some), 1 => Just(None)], any::<u64>(), prop_oneof![Just(0u8), 0u8..20])
            .prop_map(|(mut case, p, garbage, surplus)| {
                if let Some(p) = p {
                    case.prog = p;
                }
                Tr { case, garbage, surplus }
            })
    };
    let undo = move |scale: u32, max_samples: usize| {
        (gen::case(Opts { scale, max_samples, ..Default::default() }), prop_oneof![progs(false).boxed(), gen::prog(false)], prop::collection::vec(-2500i16..2500, 1..60), 0u8..4)
            .prop_map(|(mut case, prog, samples, d)| {
                case.prog = prog;
                Arb { case, samples, d }
            })
    };
    ctx.check("transform", "random programs (sensible factors and denominators), layers, channels, images and contents of the work buffers: transform against the model, interleaved against planar, undo; non-trivial: the program has factors", 50_000, move || tr(0, 4_000, false), transforms);
    ctx.check("transform-wild", "as transform, with any factors and denominators", 50_000, move || tr(0, 4_000, true), transforms);
    ctx.check("transform-medium", "as transform, with images of up to 150 000 samples", 1_500, move || tr(1, 150_000, false), transforms);
    ctx.check("transform-large", "as transform, with images of up to 1.5 million samples", 40, move || tr(2, 1_500_000, false), transforms);
    ctx.check(
        "undo",
        "undoing any program on arbitrary 16-bit samples of any downsampled size, against the model, with clamping; non-trivial: no value leaves 16 bits",
        40_000,
        move || undo(0, 2_000),
        detransform,
    );
    ctx.check("undo-medium", "as undo, with images of up to 100 000 samples", 1_500, move || undo(1, 100_000), detransform);
    ctx.check("serial", "random programs with any channels, factors and positive denominators of 32 bits, repeated destinations included, written and read back with trailing bytes; non-trivial: not empty", 150_000, ser, serial);
    ctx.check("far", "programs with a factor or denominator of up to 64 bits: written so that the same comes back, or refused if it leaves 32 bits; non-trivial: it does", 30_000, || {
        let tr = || (0usize..9, prop::collection::vec((0usize..9, int()), 0..4), 1i32..300, any::<bool>())
            .prop_map(|(dest, factors, den, chroma)| Transform { dest, factors, den, chroma });
        let v = prop_oneof![
            4 => any::<i64>(),
            2 => any::<i32>().prop_map(|v| v as i64),
            2 => (31u32..63, -3i64..=3, any::<bool>()).prop_map(|(k, d, n)| if n { -(1i64 << k) + d } else { (1i64 << k) + d }),
            2 => (31u32..63, -40_000i64..=40_000).prop_map(|(k, d)| (1i64 << k) + d),
        ];
        (1usize..9, prop::collection::vec(tr(), 1..4), 0usize..4, 0u8..2, v).prop_map(|(n, ts, at, what, v)| Far { n, ts, at, what, v })
    }, far);
    let ch = || prop_oneof![4 => 0usize..4, 1 => 0usize..70_000];
    ctx.check("calls", "sequences of calls of the builders in any order, repeated and refused ones too, programs kept and compared on the way; non-trivial: more than two calls", 60_000, move || {
        (ch(), prop::collection::vec(prop_oneof![
            3 => Just(Call::Chroma),
            4 => (ch(), int()).prop_map(|(c, f)| Call::Factor(c, f)),
            3 => prop_oneof![4 => 1i32..20, 1 => any::<i32>(), 1 => -3i32..2].prop_map(Call::Den),
            1 => Just(Call::Build),
            1 => Just(Call::Keep),
            1 => Just(Call::Add),
            2 => ch().prop_map(Call::Next),
        ], 0..16))
    }, calls);
    ctx.fixed("builder", "denominators around 0 and the limits", vec![0i64, -1, 1, 2, -8, 32767, 32768, 65536, i32::MAX as i64, i32::MIN as i64], refused);
    ctx.fixed("reader", "denominators around 0 and the limits, as the reader sees them", vec![0i32, -1, 1, 2, -8, 32767, 32768, -65536, 65536, i32::MAX, i32::MIN], reader);
    ctx.fixed("presets", "the four presets against their documentation", vec![0usize, 1, 2, 3], presets);
}
