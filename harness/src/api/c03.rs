//! Pixel identity with the reference decoder.
use super::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::content::mix;
use vh::gen::{self, Opts, Prog};
use vh::oracle::{self, Which};
use super::c02::known_division;
use vh::run::no_panic;
use vh::{ensure, layout, model, Ctx, Obs, Res};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cut {
    case: Case,
    /// cut positions: a mark of the layout and an offset in words, or a fraction of the stream
    cuts: Vec<(u16, i8)>,
}

fn cut_at(marks: &[usize], len: usize, from: usize, c: &(u16, i8)) -> usize {
    let p = if c.0 % 2 == 0 && !marks.is_empty() {
        marks[(c.0 as usize / 2) % marks.len()] as i64 + 4 * c.1 as i64
    } else {
        from as i64 + (mix(c.0 as u64) % (len - from + 1) as u64) as i64
    };
    (p.clamp(from as i64, len as i64) as usize) & !3
}

fn same_pixels(cc: &Cut, o: &mut Obs) -> Res {
    let case = &cc.case;
    if !case.reference_can() {
        o.label("denominator over 16 bits");
        o.skip();
        return Ok(());
    }
    let img = case.image();
    let co = model::coefs(case, &img);
    if co.overflowed || co.wide {
        o.label("intermediate values over 16 bits");
        o.skip();
        return Ok(());
    }
    case.classify(o);
    if !case.content.iter().all(|c| c.is_flat()) && case.pixels() > 1 {
        o.nontrivial();
    }
    let stream = oracle::compress(Which::Div, case, &img, case.roomy() / 4 * 4).map_err(|e| format!("reference encoder: {e}"))?;
    let mut rd = &stream[..];
    let h = Header::decode(&mut rd).map_err(|e| format!("the reference's header is rejected: {e}"))?;
    ensure!(stream.len() - rd.len() == HEADER, "header takes {} bytes", stream.len() - rd.len());
    let payload = &stream[HEADER..];
    let mut pbuf = vec![];
    case.program().encode(case.n(), &mut pbuf).map_err(|e| e.to_string())?;
    ensure!(payload.len() >= pbuf.len() && payload[..pbuf.len()] == pbuf[..], "colour program bytes differ from the reference's");
    let lay = layout::parse(case, payload, pbuf.len())?;
    let top = case.top_step().trailing_zeros() as usize;

    // Downsampling a Turbo stream, the original decoder takes the choice of codes from the divided step and
    // misreads its own stream where that makes a difference.
    let misread = |d: usize| {
        case.encoder == 0
            && lay.levels.iter().filter(|l| l.step >> d >= 1).any(|l| {
                let runs = |q: i64, s: usize| s < 2048 && q * (s as i64) < 2048;
                [model::channel_quality(case, false), model::channel_quality(case, true)].iter().any(|&q| runs(q, l.step) != runs(q, l.step >> d))
            })
    };
    let mut compare = |len: usize, d: usize| -> Res {
        if misread(d) {
            o.label("Turbo level that the original misreads when downsampling");
            return Ok(());
        }
        let n = h.get_decompress_buffer_size(d);
        let mut theirs = vec![0u8; n];
        let pt = oracle::decompress(Which::Div, &stream[..HEADER + len], d, false, &mut theirs);
        if pt < 0 {
            return Err(format!("the reference decoder fails with {pt} at {len} of {}", payload.len()));
        }
        // a cut can make a value leave 16 bits that does not otherwise
        let pr = lay.present(len, d);
        let m = model::decoded(case, &co, d, &|k, x, y| {
            let (l, b) = lay.home(k, x, y);
            pr[l][b]
        });
        if m.overflowed || m.wide {
            o.label("cut image over 16 bits");
            return Ok(());
        }
        match decode(&h, &payload[..len], d, false) {
            Ok((r, ours)) => {
                ensure!(len < payload.len() || r == 0, "complete stream: status {r}");
                if ours != theirs && known_division(case) {
                    // like the original as it is
                    let mut plain = vec![0u8; n];
                    oracle::decompress(Which::Plain, &stream[..HEADER + len], d, false, &mut plain);
                    if ours == plain {
                        return Ok(());
                    }
                }
                diff(&format!("pixels against the reference decoder's ({len} of {} bytes, downsampling {d})", payload.len()), &ours, &theirs)
            }
            Err(e) => Err(format!("{} at {len} of {} bytes, downsampling {d}; the reference decodes it", derr(&e), payload.len())),
        }
    };
    for d in 0..=top + 1 {
        compare(payload.len(), d)?;
    }
    let marks = lay.marks();
    for c in &cc.cuts {
        let len = cut_at(&marks, payload.len(), pbuf.len(), c);
        let d = (mix(c.0 as u64 ^ 77) % (top as u64 + 2)) as usize;
        compare(len, 0)?;
        compare(len, d)?;
    }
    Ok(())
}

fn strat(o: Opts, cuts: usize) -> BoxedStrategy<Cut> {
    (gen::case(o), prop::collection::vec((any::<u16>(), -2i8..=2), 0..=cuts)).prop_map(|(case, cuts)| Cut { case, cuts }).boxed()
}

pub fn run(ctx: &mut Ctx) {
    ctx.check(
        "small",
        "streams of the reference encoder for random parameters and images of up to a few thousand samples, decoded at every downsampling level and at up to 6 cuts (marks of the layout and random places); non-trivial: more than one pixel and some channel not constant",
        24_000,
        || strat(Opts { scale: 0, max_samples: 5_000, ..Default::default() }, 6),
        same_pixels,
    );
    ctx.check("medium", "as small, with images of up to 120 000 samples and up to 3 cuts", 1800, || strat(Opts { scale: 1, max_samples: 120_000, ..Default::default() }, 3), same_pixels);
    ctx.check("wild", "as small, with any colour factors and denominators", 5_000, || strat(Opts { scale: 0, max_samples: 2_500, wild: true, ..Default::default() }, 3), same_pixels);
    ctx.check("large", "as small, with images of up to 1.5 million samples and one cut", 50, || strat(Opts { scale: 2, max_samples: 1_500_000, ..Default::default() }, 1), same_pixels);
    ctx.fixed(
        "levels",
        "one case per power of two up to 2^16, both filters and all encoders, on thin images",
        super::c02::thin().into_iter().map(|case| Cut { case, cuts: vec![(1, 0), (3, 0)] }).collect(),
        same_pixels,
    );
    if ctx.build == "release" {
        ctx.fixed("huge", "three images of over 2^24 samples and two of over 20 levels, each with two cuts", super::c02::huge().into_iter().map(|case| Cut { case, cuts: vec![(3, 0), (2, -1)] }).collect(), same_pixels);
    }
    if !ctx.replaying() && ctx.build == "release" {
        let case = super::c02::division_case(Prog::RgbYuv);
        let img = case.image();
        if let Ok(s) = oracle::compress(Which::Plain, &case, &img, 4096) {
            let h = case.header();
            let mut theirs = vec![0u8; img.len()];
            oracle::decompress(Which::Plain, &s, 0, false, &mut theirs);
            if let Ok(Ok((_, ours))) = no_panic(|| decode(&h, &s[HEADER..], 0, false)) {
                if ours != theirs {
                    ctx.known_finding("denominators 2, 4 and 8 round toward zero where the reference rounds down: the reference's stream of a 3x2 RGB image of (1, 2, 0) with program rgb_to_yuv at quality 1024");
                }
            }
        }
    }
}
