//! Byte identity with the reference encoder.
use super::*;
use vh::content::Content;
use vh::gen::{self, Opts, Prog};
use vh::oracle::{self, Which};
use vh::run::no_panic;
use vh::{ensure, model, Ctx, Obs, Res};

fn same_bytes(case: &Case, o: &mut Obs) -> Res {
    if !case.reference_can() {
        o.label("denominator over 16 bits");
        o.skip();
        return Ok(());
    }
    let img = case.image();
    let co = model::coefs(case, &img);
    if co.overflowed || co.wide {
        o.label("intermediate values over 16 bits");
        o.skip();
        return Ok(());
    }
    case.classify(o);
    if !case.content.iter().all(|c| c.is_flat()) && case.pixels() > 1 {
        o.nontrivial();
    }
    let ours = encode(case, &case.header(), &img)?;
    let theirs = oracle::compress(Which::Div, case, &img, case.roomy() / 4 * 4).map_err(|e| format!("reference encoder: {e}"))?;
    // the known finding is a difference from the unmodified original; being like the original is no fault
    let mut theirs = theirs;
    if ours != theirs && known_division(case) {
        let plain = oracle::compress(Which::Plain, case, &img, case.roomy() / 4 * 4).map_err(|e| format!("reference encoder: {e}"))?;
        if ours == plain {
            theirs = plain;
        }
    }
    diff("bytes of the stream against the reference encoder's", &ours, &theirs)?;
    // the presets are the programs they are documented to be
    if let Some(p) = case.preset() {
        let mut buf = vec![0u8; case.roomy()];
        let n = compress_simple(&img, &case.header(), &p, &mut buf).map_err(|e| format!("with the preset: {e:?}"))?;
        diff("bytes with the preset program", &buf[..n], &theirs)?;
    }
    Ok(())
}

/// The denominators that the original divides by with shifts.
pub fn known_division(case: &Case) -> bool {
    case.transforms().iter().any(|t| [2, 4, 8].contains(&t.den))
}

/// The one input class where the two codecs are known to differ, pinned by a single input.
pub fn division_case(prog: Prog) -> Case {
    Case {
        w: 3,
        h: 2,
        layers: 1,
        channels: 3,
        quality: 1024,
        chroma: 1,
        block: 7,
        filter: 0,
        encoder: 0,
        intent: 7,
        prog,
        content: vec![Content::Const(1), Content::Const(2), Content::Const(0)],
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.check(
        "small",
        "random parameters, colour program and content on images of up to a few thousand samples, values within 16 bits; non-trivial: more than one pixel and some channel not constant",
        90_000,
        || gen::case(Opts { scale: 0, max_samples: 6_000, ..Default::default() }),
        same_bytes,
    );
    ctx.check(
        "medium",
        "as small, with images of up to 160 000 samples",
        8_000,
        || gen::case(Opts { scale: 1, max_samples: 160_000, ..Default::default() }),
        same_bytes,
    );
    ctx.check("wild", "as small, with any colour factors and denominators", 15_000, || gen::case(Opts { scale: 0, max_samples: 3_000, wild: true, ..Default::default() }), same_bytes);
    ctx.check("large", "as small, with images of up to 2 million samples", 160, || gen::case(Opts { scale: 2, max_samples: 2_000_000, ..Default::default() }), same_bytes);
    if ctx.build == "release" {
        ctx.fixed("huge", "three images of over 2^24 samples and two of over 20 levels", huge(), same_bytes);
    }
    if !ctx.replaying() && ctx.build == "release" {
        let case = division_case(Prog::RgbYuv);
        let img = case.image();
        let a = no_panic(|| encode(&case, &case.header(), &img)).unwrap_or_else(Err);
        let b = oracle::compress(Which::Plain, &case, &img, 4096);
        if let (Ok(a), Ok(b)) = (a, b) {
            if a != b {
                ctx.known_finding("denominators 2, 4 and 8 round toward zero where the reference rounds down: 3x2 RGB image of (1, 2, 0), program rgb_to_yuv, quality 1024");
            }
        }
    }
    ctx.fixed(
        "levels",
        "one case per power of two up to 2^16, both filters and all encoders, on thin images",
        thin(),
        |c: &Case, o: &mut Obs| {
            ensure!(c.pixels() > 0, "empty");
            same_bytes(c, o)
        },
    );
}

/// Images of over 2^24 samples, with streams from 6 to 22 million bytes: beyond what 24 bits or the mantissa of a
/// 32-bit float can count.
pub fn huge() -> Vec<Case> {
    let base = |w, h, channels: u16, quality, block, filter, encoder, prog, content| Case {
        w,
        h,
        layers: 1,
        channels,
        quality,
        chroma: 1,
        block,
        filter,
        encoder,
        intent: 0,
        prog,
        content,
    };
    let noise = |seed| Content::Noise { seed, lo: 0, hi: 255 };
    vec![
        base(5200, 4100, 1, 1024, 30, 0, 0, Prog::None, vec![noise(1)]),
        base(2700, 2100, 3, 1024, 7, 1, 2, Prog::Custom(vec![gen::Transform { dest: 2, factors: vec![(1, -1)], den: 1, chroma: true }]), vec![noise(2), noise(3), Content::Smooth { seed: 4, noise: 9 }]),
        base(5000, 4200, 1, 700, 10, 1, 1, Prog::None, vec![Content::Smooth { seed: 5, noise: 60 }]),
        // pyramids of over 20 levels
        base((1 << 23) + 3, 1, 1, 1024, 7, 0, 0, Prog::None, vec![noise(6)]),
        base(1, (1 << 22) + 9, 2, 900, 12, 1, 2, Prog::None, vec![Content::Smooth { seed: 7, noise: 40 }, noise(8)]),
    ]
}

pub fn thin() -> Vec<Case> {
    let mut v = vec![];
    for k in 1..=16u32 {
        for (f, e) in (0..2).flat_map(|f| (0..3).map(move |e| (f, e))) {
            let n = (1u32 << k) + (k + e) % 3 - 1;
            let (w, h) = if (k + f) % 2 == 0 { (n, 2) } else { (1, n) };
            v.push(Case {
                w,
                h,
                layers: 1,
                channels: 1,
                quality: [1024, 600, 40][(k as usize + e as usize) % 3],
                chroma: 4,
                block: [2, 7, 30, 5][k as usize % 4],
                filter: f as u8,
                encoder: e as u8,
                intent: 0,
                prog: if k % 3 == 0 { Prog::Custom(vec![gen::Transform { dest: 0, factors: vec![], den: 1, chroma: true }]) } else { Prog::None },
                content: vec![if k % 2 == 0 { Content::Smooth { seed: k as u64, noise: 9 } } else { Content::Sparse { seed: k as u64, per: 700, bg: 3, fg: 250 } }],
            });
        }
    }
    v
}
