//! The entropy coder has no influence on the decoded image.
use super::*;
use gfwx::{compress_aux_data, decompress_aux_data};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::gen::{self, Opts, INTENTS};
use vh::{ensure, model, Ctx, Obs, Res};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Variants {
    case: Case,
    /// (encoder, block size, index of the intent) of further codings
    others: Vec<(u8, u8, u8)>,
}

fn same(v: &Variants, o: &mut Obs) -> Res {
    let case = &v.case;
    case.classify(o);
    let img = case.image();
    let co = model::coefs(case, &img);
    let want = model::decoded(case, &co, 0, &model::all);
    let (px, n, ch) = (case.pixels(), case.n(), case.channels as usize);
    if !case.content.iter().all(|c| c.is_flat()) && px > 1 {
        o.nontrivial();
    }
    let mut reference: Option<Vec<u8>> = if want.overflowed {
        o.label("intermediate values over 16 bits: variants compared with each other only");
        None
    } else {
        Some(want.data)
    };
    let (planes, m) = model::decoded_planes(case, &co, 0, &model::all);
    let mut ref_planes: Option<Vec<i16>> = if m.overflowed { None } else { Some(planes.iter().flat_map(|p| p.iter().map(|v| *v as i16)).collect()) };

    let own = (case.encoder, case.block, INTENTS.iter().position(|&i| i == case.intent).unwrap_or(0) as u8);
    let prog = case.program();
    let chroma = case.is_chroma();
    let mut streams: Vec<(u8, usize)> = vec![];
    for &(e, b, it) in [own].iter().chain(&v.others) {
        let mut c = case.clone();
        c.encoder = e;
        c.block = b;
        c.intent = INTENTS[it as usize % INTENTS.len()];
        let h = c.header();
        let what = format!("encoder {e}, block size {b}, intent {}", c.intent);
        let s = encode(&c, &h, &img).map_err(|x| format!("{what}: {x}"))?;
        let mut rd = &s[..];
        let h = Header::decode(&mut rd).map_err(|x| format!("{what}: header: {x}"))?;
        let (r, got) = decode(&h, rd, 0, false).map_err(|x| format!("{what}: {}", derr(&x)))?;
        ensure!(r == 0, "{what}: status {r}");
        match &reference {
            None => reference = Some(got),
            Some(w) => diff(&format!("decoded with {what}"), &got, w)?,
        }
        // planar interface
        let mut aux = vec![0i16; n * px];
        let planar: Vec<u8> = (0..n * px).map(|i| img[model::interleaved_index(i / px, i % px, ch, px)]).collect();
        prog.transform(&planar, &h, &mut aux);
        let mut buf = vec![0x5Au8; c.roomy()];
        let len = compress_aux_data(&mut aux, &h, &chroma, &mut buf).map_err(|x| format!("{what}: compress_aux_data: {x:?}"))?;
        let plen = c08::program_len(&c)?;
        diff(&format!("{what}: bytes of the planar against those of the interleaved interface"), &buf[..len], &s[HEADER + plen..])?;
        let mut back = vec![0i16; n * px];
        let r = decompress_aux_data(&buf[..len], &h, &chroma, 0, false, &mut back).map_err(|x| format!("{what}: decompress_aux_data: {x:?}"))?;
        ensure!(r == 0, "{what}: decompress_aux_data: status {r}");
        match &ref_planes {
            None => ref_planes = Some(back.clone()),
            Some(w) => diff16(&format!("planar samples with {what}"), &back, w)?,
        }
        let mut out = vec![0u8; n * px];
        prog.detransform(&mut back, &h, px, &mut out);
        let again: Vec<u8> = {
            let mut v = vec![0u8; n * px];
            for i in 0..n * px {
                v[model::interleaved_index(i / px, i % px, ch, px)] = out[i];
            }
            v
        };
        diff(&format!("planar against interleaved samples with {what}"), &again, reference.as_ref().unwrap())?;
        streams.push((e, s.len()));
    }
    o.label_if(streams.iter().any(|s| s.1 != streams[0].1), "streams of different lengths");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct WideVariants {
    wide: gen::Wide,
    others: Vec<(u8, u8, u8)>,
}

/// Planes of 16-bit samples: every coding decodes to the same planes, those of lifting, quantiser and inverses.
fn same16(v: &WideVariants, o: &mut Obs) -> Res {
    let case = &v.wide.case;
    case.classify(o);
    let samples = v.wide.planes();
    let (w, h, px) = (case.w as usize, case.h as usize, case.pixels());
    if px > 1 && samples.iter().any(|v| *v != samples[0]) {
        o.nontrivial();
    }
    let chroma = case.is_chroma();
    let mut m = model::M::default();
    let max = 1024 * model::boost(case.quality);
    let mut want = vec![];
    for (k, plane) in samples.chunks(px).enumerate() {
        let mut p: Vec<i32> = plane.iter().map(|&v| v as i32).collect();
        let q = model::channel_quality(case, chroma[k]);
        m.lift(&mut p, w, h, case.filter);
        m.quantize(&mut p, w, h, q, max);
        m.dequantize(&mut p, w, h, q, max);
        m.unlift(&mut p, w, h, case.filter);
        want.extend(p.into_iter().map(|v| v as i16));
    }
    let mut reference = if m.overflowed { None } else { Some(want) };
    o.label_if(m.overflowed, "intermediate values over 16 bits: variants compared with each other only");
    let own = (case.encoder, case.block, INTENTS.iter().position(|&i| i == case.intent).unwrap_or(0) as u8);
    for &(e, b, it) in [own].iter().chain(&v.others) {
        let mut c = case.clone();
        c.encoder = e;
        c.block = b;
        c.intent = INTENTS[it as usize % INTENTS.len()];
        let hd = c.header();
        let what = format!("encoder {e}, block size {b}, intent {}", c.intent);
        let mut aux = samples.clone();
        let mut buf = vec![0x5Au8; c.roomy()];
        let len = compress_aux_data(&mut aux, &hd, &chroma, &mut buf).map_err(|x| format!("{what}: compress_aux_data: {x:?}"))?;
        let mut back = vec![0i16; samples.len()];
        let r = decompress_aux_data(&buf[..len], &hd, &chroma, 0, false, &mut back).map_err(|x| format!("{what}: decompress_aux_data: {x:?}"))?;
        ensure!(r == 0, "{what}: status {r}");
        match &reference {
            None => reference = Some(back),
            Some(w) => diff16(&format!("planes with {what}"), &back, w)?,
        }
    }
    Ok(())
}

fn strat16(o: Opts, n: usize) -> BoxedStrategy<WideVariants> {
    (gen::wide(o), prop::collection::vec((0u8..3, gen::block(), 0u8..6), n)).prop_map(|(wide, mut others)| {
        for (i, v) in others.iter_mut().enumerate().take(2) {
            v.0 = (wide.case.encoder + 1 + i as u8) % 3;
        }
        WideVariants { wide, others }
    }).boxed()
}

fn strat(o: Opts, n: usize) -> BoxedStrategy<Variants> {
    (gen::case(o), prop::collection::vec((0u8..3, gen::block(), 0u8..6), n)).prop_map(|(case, mut others)| {
        // every encoder is used
        for (i, v) in others.iter_mut().enumerate().take(2) {
            v.0 = (case.encoder + 1 + i as u8) % 3;
        }
        Variants { case, others }
    }).boxed()
}

pub fn run(ctx: &mut Ctx) {
    ctx.check(
        "small",
        "each image is coded with all three encoders and 5 choices of block size and intent, through both interfaces, and every decoding compared with the model's and with each other; images of up to a few thousand samples; non-trivial: more than one pixel and some channel not constant",
        10_000,
        || strat(Opts { scale: 0, max_samples: 5_000, ..Default::default() }, 4),
        same,
    );
    ctx.check("medium", "as small, 3 codings, images of up to 150 000 samples", 900, || strat(Opts { scale: 1, max_samples: 150_000, ..Default::default() }, 2), same);
    ctx.check("large", "as small, 3 codings, images of up to 1.5 million samples", 25, || strat(Opts { scale: 2, max_samples: 1_500_000, ..Default::default() }, 2), same);
    ctx.check("planar16", "planes of arbitrary 16-bit samples coded with all encoders, against the model and each other", 8_000, || strat16(Opts { scale: 0, max_samples: 5_000, ..Default::default() }, 3), same16);
    ctx.check("planar16_medium", "as planar16, up to 100 000 samples", 500, || strat16(Opts { scale: 1, max_samples: 100_000, ..Default::default() }, 2), same16);
    ctx.check("wild", "as small, with any colour factors and denominators, mostly with values over 16 bits", 4_000, || strat(Opts { scale: 0, max_samples: 2_500, wild: true, ..Default::default() }, 3), same);
    ctx.fixed(
        "levels",
        "one case per power of two up to 2^16, both filters and all encoders, on thin images",
        c02::thin().into_iter().map(|case| Variants { others: vec![((case.encoder + 1) % 3, 2, 1), ((case.encoder + 2) % 3, 30, 2)], case }).collect(),
        same,
    );
}
