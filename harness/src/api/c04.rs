//! Error bounds of lossy coding.
use super::*;
use gfwx::{compress_aux_data, decompress_aux_data};
use proptest::prelude::*;
use vh::content::Content;
use vh::gen::{self, Opts, Prog};
use vh::model::{self, Plane, M};
use vh::{ensure, Ctx, Obs, Res};

fn up(a: i64, b: i64) -> i64 {
    (a + b - 1) / b
}

/// How far a line of samples can be off after one lifting step is undone, given how far each may be off before.
fn line_err(v: &mut [i64], filter: u8, parity: usize) {
    let n = v.len() as i64;
    let mut i = if parity == 1 { 1 } else { 2 };
    while i < n {
        let g = |k: i64| -> Option<i64> {
            let j = i + k;
            if j >= 0 && j < n {
                Some(v[j as usize])
            } else {
                None
            }
        };
        let a1 = v[i as usize - 1];
        let b1 = g(1).unwrap_or(a1);
        let (odd, even) = if filter == 0 {
            (up(a1 + b1, 2), up(a1 + b1, 4))
        } else {
            let a3 = g(-3).unwrap_or(a1);
            let b3 = g(3).unwrap_or(b1);
            // the median of the rounded prediction and its two neighbours moves no more than any of them does
            let p = up(9 * (a1 + b1) + a3 + b3, 16).max(a1).max(b1);
            (p, up(p, 2))
        };
        v[i as usize] += if parity == 1 { odd } else { even };
        i += 2;
    }
}

/// Bounds per coefficient to bounds per sample.
pub fn unlift_err(p: &mut [i64], w: usize, h: usize, filter: u8) {
    let mut step = 1;
    while step * 2 < w || step * 2 < h {
        step *= 2;
    }
    let mut buf = vec![];
    while step >= 1 {
        for rows in [false, true] {
            let (outer, inner) = if rows { (h, w) } else { (w, h) };
            for o in (0..outer).step_by(step) {
                let at = |i: usize| if rows { o * w + i } else { i * w + o };
                buf.clear();
                buf.extend((0..inner).step_by(step).map(|i| p[at(i)]));
                line_err(&mut buf, filter, 0);
                line_err(&mut buf, filter, 1);
                for (k, i) in (0..inner).step_by(step).enumerate() {
                    p[at(i)] = buf[k];
                }
            }
        }
        step /= 2;
    }
}

/// The bound of each coefficient: half a step where the code is not zero, a whole step where it is, nothing where
/// the level is not quantised.
fn coef_bounds(case: &Case, back: &Plane, quality: i64) -> Vec<i64> {
    let (w, h) = (case.w as usize, case.h as usize);
    let max = 1024 * model::boost(case.quality);
    let mut e = vec![0i64; w * h];
    for y in 0..h {
        for x in 0..w {
            let i = y * w + x;
            if let Some(q) = M::level_of(x, y).and_then(|s| M::level_quality(s, w, h, quality, max)) {
                e[i] = if back[i] == 0 { up(max, q) - 1 } else { up(max, 2 * q) + 1 };
            }
        }
    }
    e
}

fn bounded(case: &Case, o: &mut Obs) -> Res {
    case.classify(o);
    let img = case.image();
    let (w, h) = (case.w as usize, case.h as usize);
    let (n, px, ch) = (case.n(), case.pixels(), case.channels as usize);
    let boost = model::boost(case.quality);
    let ts = case.transforms();
    let chroma = case.is_chroma();
    let co = model::coefs(case, &img);
    if co.overflowed || model::decoded(case, &co, 0, &model::all).overflowed {
        o.label("intermediate values over 16 bits");
        o.skip();
        return Ok(());
    }
    if !case.content.iter().all(|c| c.is_flat()) && px > 1 {
        o.nontrivial();
    }
    let hd = case.header();
    let s = encode(case, &hd, &img)?;
    let (r, got) = decode(&hd, &s[HEADER..], 0, false).map_err(|e| format!("decoding failed: {}", derr(&e)))?;
    ensure!(r == 0, "a complete stream is reported as incomplete ({r})");
    // what the planar interface decodes: samples before the colour program is undone
    let prog = c08::program_len(case)?;
    let mut aux = vec![0i16; img.len()];
    let r = decompress_aux_data(&s[HEADER + prog..], &hd, &chroma, 0, false, &mut aux).map_err(|e| format!("decompress_aux_data: {e:?}"))?;
    ensure!(r == 0, "decompress_aux_data reports {r} for a complete stream");

    let mut m = M::default();
    let orig = m.transform(&ts, n, px, boost, &|k, i| img[model::interleaved_index(k, i, ch, px)]);
    let mut errs: Vec<Vec<i64>> = vec![];
    for k in 0..n {
        let q = model::channel_quality(case, chroma[k]);
        let mut want = orig[k].clone();
        m.lift(&mut want, w, h, case.filter);
        let mut back: Plane = aux[k * px..(k + 1) * px].iter().map(|&v| v as i32).collect();
        m.lift(&mut back, w, h, case.filter);
        let bounds = coef_bounds(case, &back, q);
        for i in 0..px {
            let d = (back[i] as i64 - want[i] as i64).abs();
            ensure!(
                d <= bounds[i],
                "channel {k}, coefficient ({}, {}): {} decodes to {}, off by {d}; its quantisation at quality {q} allows {}",
                i % w, i / w, want[i], back[i], bounds[i]
            );
        }
        let mut e = bounds;
        unlift_err(&mut e, w, h, case.filter);
        for i in 0..px {
            let d = (aux[k * px + i] as i64 - orig[k][i] as i64).abs();
            ensure!(d <= e[i], "channel {k}, planar sample {i}: off by {d} where {} is allowed", e[i]);
        }
        errs.push(e);
    }
    // and through the colour program
    for t in ts.iter().rev() {
        for i in 0..px {
            let s: i64 = t.factors.iter().map(|&(c, f)| (f as i64).abs() * errs[c][i]).sum();
            errs[t.dest][i] += up(s, t.den as i64);
        }
    }
    for k in 0..n {
        for i in 0..px {
            let j = model::interleaved_index(k, i, ch, px);
            let d = (got[j] as i64 - img[j] as i64).abs();
            ensure!(d <= up(errs[k][i], boost), "channel {k}, sample {i}: {} decodes to {}, where an error of {} is allowed", img[j], got[j], up(errs[k][i], boost));
        }
    }
    Ok(())
}

fn flat(case: &Case, o: &mut Obs) -> Res {
    case.classify(o);
    let img = case.image();
    if model::coefs(case, &img).overflowed {
        o.skip();
        return Ok(());
    }
    if case.pixels() > 1 {
        o.nontrivial();
    }
    let h = case.header();
    let s = encode(case, &h, &img)?;
    let (r, got) = decode(&h, &s[HEADER..], 0, false).map_err(|e| format!("decoding failed: {}", derr(&e)))?;
    ensure!(r == 0, "status {r}");
    diff("an image of one colour", &got, &img)
}

/// The same image at a sequence of qualities: the last, 1024, is exact, and the stream of a lower quality is not a
/// copy of it.
fn raised(case: &Case, o: &mut Obs) -> Res {
    case.classify(o);
    o.nontrivial();
    let img = case.image();
    let mut c = case.clone();
    c.quality = 1024;
    c.chroma = 1;
    let h = c.header();
    let s = encode(&c, &h, &img)?;
    let (r, got) = decode(&h, &s[HEADER..], 0, false).map_err(|e| format!("decoding failed: {}", derr(&e)))?;
    ensure!(r == 0, "status {r}");
    diff("at quality 1024", &got, &img)?;
    // planar interface, with any list of chroma channels
    let n = c.n();
    let chroma: Vec<bool> = (0..n).map(|k| (case.quality as usize >> (k % 10)) & 1 == 1).collect();
    let px = c.pixels();
    let mut aux: Vec<i16> = (0..n * px).map(|i| img[model::interleaved_index(i / px, i % px, c.channels as usize, px)] as i16).collect();
    let orig = aux.clone();
    let mut buf = vec![0u8; c.roomy()];
    let len = compress_aux_data(&mut aux, &h, &chroma, &mut buf).map_err(|e| format!("compress_aux_data: {e:?}"))?;
    let mut back = vec![0i16; n * px];
    decompress_aux_data(&buf[..len], &h, &chroma, 0, false, &mut back).map_err(|e| format!("decompress_aux_data: {e:?}"))?;
    diff16("planar, at quality 1024 and chroma scale 1", &back, &orig)
}

/// Samples of full 16-bit range within what the wavelet can carry, through the planar interface.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
struct Wide {
    case: Case,
    amp: i16,
}

fn wide(wc: &Wide, o: &mut Obs) -> Res {
    let case = &wc.case;
    case.classify(o);
    let (w, h) = (case.w as usize, case.h as usize);
    let px = w * h;
    let n = case.n();
    let chroma: Vec<bool> = (0..n).map(|k| k % 2 == 1).collect();
    let img = case.image();
    let mut aux: Vec<i16> = img.iter().map(|&v| ((v as i32 - 128) * wc.amp as i32 / 128) as i16).collect();
    let orig = aux.clone();
    let hd = case.header();
    let mut buf = vec![0u8; case.roomy()];
    let len = compress_aux_data(&mut aux, &hd, &chroma, &mut buf).map_err(|e| format!("compress_aux_data: {e:?}"))?;
    let mut back = vec![0i16; n * px];
    let r = decompress_aux_data(&buf[..len], &hd, &chroma, 0, false, &mut back).map_err(|e| format!("decompress_aux_data: {e:?}"))?;
    ensure!(r == 0, "status {r}");
    let mut m = M::default();
    for k in 0..n {
        let q = model::channel_quality(case, chroma[k]);
        let mut want: Plane = orig[k * px..(k + 1) * px].iter().map(|&v| v as i32).collect();
        m.lift(&mut want, w, h, case.filter);
        let mut b: Plane = back[k * px..(k + 1) * px].iter().map(|&v| v as i32).collect();
        m.lift(&mut b, w, h, case.filter);
        if m.overflowed {
            o.label("over 16 bits");
            o.skip();
            return Ok(());
        }
        let bounds = coef_bounds(case, &b, q);
        for i in 0..px {
            let d = (b[i] as i64 - want[i] as i64).abs();
            ensure!(d <= bounds[i], "channel {k}, coefficient ({}, {}): {} decodes to {}, its quantisation allows {}", i % w, i / w, want[i], b[i], bounds[i]);
        }
    }
    if px > 1 {
        o.nontrivial();
    }
    Ok(())
}

fn lossy() -> BoxedStrategy<u16> {
    prop_oneof![2 => 1u16..1024, 2 => 1u16..=40, 1 => (0u32..10, -1i32..=1).prop_map(|(k, d)| ((1i32 << k) + d).max(1) as u16), 1 => 1000u16..1024].boxed()
}

pub fn run(ctx: &mut Ctx) {
    ctx.check(
        "small",
        "images of up to a few thousand samples at qualities 1..1023 with any chroma scale and colour program; the decoded planes are lifted again by the model and every coefficient and sample compared with the bound; non-trivial: more than one pixel and some channel not constant",
        20_000,
        || gen::case(Opts { scale: 0, max_samples: 5_000, quality: lossy(), ..Default::default() }),
        bounded,
    );
    ctx.check("medium", "as small, with images of up to 150 000 samples", 2500, || gen::case(Opts { scale: 1, max_samples: 150_000, quality: lossy(), ..Default::default() }), bounded);
    ctx.check("large", "as small, with images of up to 1.5 million samples", 60, || gen::case(Opts { scale: 2, max_samples: 1_500_000, quality: lossy(), ..Default::default() }), bounded);
    ctx.check("wide", "planar samples of either sign and any amplitude; non-trivial: more than one sample", 8_000, || {
        (gen::case(Opts { scale: 0, max_samples: 3_000, quality: lossy(), ..Default::default() }), prop_oneof![1i16..=300, 300i16..=12_000, 1i16..=32_000]).prop_map(|(mut case, amp)| {
            case.prog = Prog::None;
            Wide { case, amp }
        })
    }, wide);
    ctx.check(
        "flat",
        "images whose channels are constant, at any quality and with any sensible colour program; non-trivial: more than one pixel",
        8_000,
        || {
            (gen::case(Opts { scale: 1, max_samples: 20_000, quality: lossy(), ..Default::default() }), prop::collection::vec(any::<u8>(), 1..5)).prop_map(|(mut c, v)| {
                c.content = v.into_iter().map(Content::Const).collect();
                c
            })
        },
        flat,
    );
    ctx.check("raised", "any image, coded again at quality 1024 and chroma scale 1, is exact; all count as non-trivial", 3_000, || gen::case(Opts { scale: 1, max_samples: 30_000, ..Default::default() }), raised);
    ctx.fixed("levels", "one case per power of two up to 2^16, both filters and all encoders, on thin images", c02::thin(), |c: &Case, o: &mut Obs| {
        let mut c = c.clone();
        if c.quality == 1024 {
            c.quality = 300;
        }
        bounded(&c, o)
    });
}
