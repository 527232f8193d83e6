//! Downsampled decoding.
use super::*;
use gfwx::decompress_aux_data;
use proptest::prelude::*;
use vh::content::Content;
use vh::gen::{self, Opts};
use vh::{ensure, layout, model, Ctx, Obs, Res};

pub fn program_len(case: &Case) -> Result<usize, String> {
    let mut v = vec![];
    case.program().encode(case.n(), &mut v).map_err(|e| format!("program: {e}"))?;
    Ok(v.len())
}

fn levels(case: &Case, o: &mut Obs) -> Res {
    case.classify(o);
    let img = case.image();
    let co = model::coefs(case, &img);
    let h = case.header();
    let s = encode(case, &h, &img)?;
    let payload = &s[HEADER..];
    let prog = program_len(case)?;
    let lay = layout::parse(case, payload, prog)?;
    let top = case.top_step().trailing_zeros() as usize;
    if top >= 1 && !case.content.iter().all(|c| c.is_flat()) {
        o.nontrivial();
    }
    let chroma = case.is_chroma();
    for d in 0..=top {
        let (wd, hd) = (model::down(case.w as usize, d), model::down(case.h as usize, d));
        ensure!(h.get_downsampled_width(d) == wd && h.get_downsampled_height(d) == hd, "size at {d}: {}x{} for {}x{}", h.get_downsampled_width(d), h.get_downsampled_height(d), case.w, case.h);
        ensure!(h.get_downsampled_channel_size(d) == wd * hd, "channel size at {d}");
        ensure!(h.get_decompress_buffer_size(d) == wd * hd * case.n(), "buffer size at {d}");
        ensure!(h.get_downsampled_image_size(d) == wd * hd * case.n(), "image size at {d}");
        let want = model::decoded(case, &co, d, &model::all);
        if want.overflowed {
            o.label("intermediate values over 16 bits");
        }
        // the part of the stream that this level needs, and the whole stream
        for len in [lay.needed(d), payload.len()] {
            let (r, got) = decode(&h, &payload[..len], d, false).map_err(|e| format!("{} at downsampling {d} with {len} of {} bytes", derr(&e), payload.len()))?;
            ensure!(r == 0, "status {r} at downsampling {d} with {len} bytes, which are all it needs");
            if !want.overflowed {
                diff(&format!("image at downsampling {d} (top step {})", case.top_step()), &got, &want.data)?;
            }
            if d == 0 {
                break;
            }
        }
        if !want.overflowed {
            // a flat channel stays flat, with its value
            for k in 0..case.n() {
                if case.transforms().is_empty() && case.content[k % case.content.len()].is_flat() {
                    let v = img[model::interleaved_index(k, 0, case.channels as usize, case.pixels())];
                    for i in 0..wd * hd {
                        let g = want.data[model::interleaved_index(k, i, case.channels as usize, wd * hd)];
                        ensure!(g == v, "flat channel {k} of value {v} has {g} at downsampling {d}");
                    }
                }
            }
        }
        // planar interface
        if d > 0 || case.block % 2 == 0 {
            let mut aux = vec![0i16; wd * hd * case.n()];
            let r = decompress_aux_data(&payload[prog..], &h, &chroma, d, false, &mut aux).map_err(|e| format!("decompress_aux_data at {d}: {e:?}"))?;
            ensure!(r == 0, "decompress_aux_data at {d}: status {r}");
            let (planes, m) = model::decoded_planes(case, &co, d, &model::all);
            if !m.overflowed {
                let flat: Vec<i16> = planes.iter().flat_map(|p| p.iter().map(|v| *v as i16)).collect();
                diff16(&format!("planar image at downsampling {d}"), &aux, &flat)?;
            }
        }
    }
    Ok(())
}

fn flat(case: &Case, o: &mut Obs) -> Res {
    case.classify(o);
    let img = case.image();
    let h = case.header();
    let s = encode(case, &h, &img)?;
    let top = case.top_step().trailing_zeros() as usize;
    if top >= 1 {
        o.nontrivial();
    }
    for d in 0..=top {
        let (_, got) = decode(&h, &s[HEADER..], d, false).map_err(|e| format!("{} at downsampling {d}", derr(&e)))?;
        let px = model::down(case.w as usize, d) * model::down(case.h as usize, d);
        for k in 0..case.n() {
            let v = img[model::interleaved_index(k, 0, case.channels as usize, case.pixels())];
            for i in 0..px {
                let g = got[model::interleaved_index(k, i, case.channels as usize, px)];
                ensure!(g == v, "channel {k} is {v} everywhere but decodes to {g} at sample {i}, downsampling {d}");
            }
        }
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.check(
        "small",
        "random parameters and images of up to a few thousand samples, decoded at every downsampling level of the pyramid from the needed prefix and from the whole stream, against the model; non-trivial: at least two levels and some channel not constant",
        16_000,
        || gen::case(Opts { scale: 0, max_samples: 5_000, ..Default::default() }),
        levels,
    );
    ctx.check("medium", "as small, with images of up to 150 000 samples", 1600, || gen::case(Opts { scale: 1, max_samples: 150_000, ..Default::default() }), levels);
    ctx.check("large", "as small, with images of up to 1.5 million samples", 40, || gen::case(Opts { scale: 2, max_samples: 1_500_000, ..Default::default() }), levels);
    ctx.check(
        "flat",
        "images with constant channels keep their values at every level, with any sensible colour program and quality; non-trivial: at least two levels",
        8_000,
        || {
            (gen::case(Opts { scale: 1, max_samples: 20_000, ..Default::default() }), prop::collection::vec(any::<u8>(), 1..5))
                .prop_map(|(mut c, v)| {
                    c.content = v.into_iter().map(Content::Const).collect();
                    c
                })
        },
        flat,
    );
    ctx.fixed("levels", "one case per power of two up to 2^16, both filters and all encoders, on thin images", super::c02::thin(), levels);
    if ctx.build == "release" {
        ctx.fixed("huge", "three images of over 2^24 samples and two of over 20 levels", super::c02::huge(), levels);
    }
}
