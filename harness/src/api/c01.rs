//! Lossless at the highest quality.
use super::*;
use gfwx::{compress_aux_data, decompress_aux_data};
use proptest::prelude::*;
use vh::content::{planar, Content};
use vh::gen::{self, Opts, Prog};
use vh::{ensure, Ctx, Obs, Res};

fn lossless_case(scale: u32, max: usize, wild: bool) -> BoxedStrategy<Case> {
    gen::case(Opts { scale, max_samples: max, wild, quality: Just(1024).boxed(), ..Default::default() })
        .prop_map(|mut c| {
            // chroma channels are quantised unless the chroma scale is 1
            if c.is_chroma().contains(&true) {
                c.chroma = 1;
            }
            c
        })
        .boxed()
}

fn wide_lossless(scale: u32, max: usize) -> BoxedStrategy<gen::Wide> {
    gen::wide(Opts { scale, max_samples: max, quality: Just(1024).boxed(), ..Default::default() })
        .prop_map(|mut w| {
            if w.case.is_chroma().contains(&true) {
                w.case.chroma = 1;
            }
            w
        })
        .boxed()
}

pub fn roundtrip(case: &Case, o: &mut Obs) -> Res {
    case.classify(o);
    if !case.content.iter().all(|c| c.is_flat()) && case.pixels() > 1 {
        o.nontrivial();
    }
    let img = case.image();
    let h = case.header();
    let s = encode(case, &h, &img)?;
    let mut rd = &s[..];
    let h2 = Header::decode(&mut rd).map_err(|e| format!("own header rejected: {e}"))?;
    ensure!(h == h2, "header changed: {h:?} became {h2:?}");
    ensure!(s.len() - rd.len() == HEADER, "header took {} bytes", s.len() - rd.len());
    let (r, out) = decode(&h2, rd, 0, false).map_err(|e| format!("decoding failed: {}", derr(&e)))?;
    ensure!(r == 0, "a complete stream is reported as incomplete ({r})");
    diff("decoded image", &out, &img)
}

fn planar_roundtrip(case: &Case, o: &mut Obs) -> Res {
    case.classify(o);
    if !case.content.iter().all(|c| c.is_flat()) && case.pixels() > 1 {
        o.nontrivial();
    }
    let h = case.header();
    let img = planar(&case.content, case.w as usize, case.h as usize, case.n());
    let prog = case.program();
    let mut aux = vec![0i16; img.len()];
    prog.transform(&img, &h, &mut aux);
    let chroma = case.is_chroma();
    let mut buf = vec![0u8; case.roomy()];
    let n = compress_aux_data(&mut aux, &h, &chroma, &mut buf).map_err(|e| format!("compress_aux_data: {e:?}"))?;
    let mut back = vec![0i16; img.len()];
    let r = decompress_aux_data(&buf[..n], &h, &chroma, 0, false, &mut back).map_err(|e| format!("decompress_aux_data: {e:?}"))?;
    ensure!(r == 0, "a complete stream is reported as incomplete ({r})");
    let mut out = vec![0u8; img.len()];
    prog.detransform(&mut back, &h, case.pixels(), &mut out);
    diff("decoded planar image", &out, &img)
}

fn planar16(w: &gen::Wide, o: &mut Obs) -> Res {
    let case = &w.case;
    case.classify(o);
    let samples = w.planes();
    o.label_if(samples.iter().any(|v| v.unsigned_abs() > 8192), "values over 13 bits");
    if case.pixels() > 1 && samples.iter().any(|v| *v != samples[0]) {
        o.nontrivial();
    }
    let h = case.header();
    let chroma = case.is_chroma();
    let mut aux = samples.clone();
    let mut buf = vec![0u8; case.roomy()];
    let n = compress_aux_data(&mut aux, &h, &chroma, &mut buf).map_err(|e| format!("compress_aux_data: {e:?}"))?;
    let mut back = vec![0i16; samples.len()];
    let r = decompress_aux_data(&buf[..n], &h, &chroma, 0, false, &mut back).map_err(|e| format!("decompress_aux_data: {e:?}"))?;
    ensure!(r == 0, "a complete stream is reported as incomplete ({r})");
    diff16("decoded planes", &back, &samples)
}

fn runs() -> Vec<Case> {
    let base = |w, h, encoder, content| Case {
        w,
        h,
        layers: 1,
        channels: 1,
        quality: 1024,
        chroma: 1,
        block: 30,
        filter: 0,
        encoder,
        intent: 0,
        prog: Prog::None,
        content: vec![content],
    };
    vec![
        // runs of 25.2 and 18.9 million zero coefficients in one block
        base(5800, 5800, 0, Content::Last { bg: 77, fg: 200 }),
        base(5600, 5600, 0, Content::Spots { bg: 100, at: vec![(1, 0, 101), (5599, 5599, 200)] }),
        base(5024, 5023, 1, Content::Const(9)),
        base(5024, 5023, 2, Content::Last { bg: 3, fg: 4 }),
        base(1, 300_000, 0, Content::Last { bg: 0, fg: 255 }),
        base(300_000, 1, 1, Content::Sparse { seed: 7, per: 120_000, bg: 0, fg: 255 }),
        base(300_000, 1, 2, Content::Sparse { seed: 9, per: 90_000, bg: 0, fg: 1 }),
    ]
}

pub fn run(ctx: &mut Ctx) {
    ctx.check(
        "simple",
        "random dimensions, layers, channels, filter, encoder, block size, colour program and content at quality 1024 (chroma scale 1 where a channel is chroma); non-trivial: more than one pixel and some channel not constant",
        16_000,
        || lossless_case(1, 120_000, false),
        roundtrip,
    );
    ctx.check(
        "small",
        "as simple, on images of up to a few thousand pixels and with any colour factors and denominators",
        120_000,
        || lossless_case(0, 8_000, true),
        roundtrip,
    );
    ctx.check("planar", "the planar interface: transform, compress_aux_data, decompress_aux_data, detransform", 12_000, || lossless_case(1, 60_000, false), planar_roundtrip);
    ctx.check("planar16", "compress_aux_data and decompress_aux_data on planes of arbitrary 16-bit samples", 20_000, || wide_lossless(0, 8_000), planar16);
    ctx.check("planar16_medium", "as planar16, planes of up to 100 000 samples", 1_500, || wide_lossless(1, 100_000), planar16);
    ctx.check("large", "as simple, with images of up to 2 million samples", 200, || lossless_case(2, 2_000_000, false), roundtrip);
    if ctx.build == "release" {
        ctx.fixed("runs", "images whose coefficients form runs of up to 25 million zeros in a block", runs(), roundtrip);
        ctx.fixed("huge", "images of over 2^24 samples", super::c02::huge().into_iter().filter(|c| c.quality == 1024).collect(), roundtrip);
    }
}
