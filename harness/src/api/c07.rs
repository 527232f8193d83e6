//! Truncated streams.
use super::c08::program_len;
use super::*;
use gfwx::decompress_aux_data;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::content::mix;
use vh::gen::{self, Opts};
use vh::{ensure, layout, model, Ctx, Obs, Res};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cuts {
    case: Case,
    /// (place, offset in bytes, downsampling)
    cuts: Vec<(u16, i8, u8)>,
    start: u16,
}

fn place(marks: &[usize], len: usize, from: usize, p: u16, off: i8) -> usize {
    let v = if p % 3 != 0 {
        marks[(p as usize / 3) % marks.len()] as i64 + off as i64
    } else {
        from as i64 + (mix(p as u64) % (len - from + 1) as u64) as i64
    };
    v.clamp(from as i64, len as i64) as usize
}

fn check(cc: &Cuts, o: &mut Obs) -> Res {
    let case = &cc.case;
    case.classify(o);
    let img = case.image();
    let co = model::coefs(case, &img);
    let h = case.header();
    let s = encode(case, &h, &img)?;
    let payload = &s[HEADER..];
    let prog = program_len(case)?;
    let lay = layout::parse(case, payload, prog)?;
    let marks = lay.marks();
    let top = case.top_step().trailing_zeros() as usize;
    let chroma = case.is_chroma();
    // the colour program itself, cut: an error, or not enough data; never a result
    if prog > 0 {
        let len = (mix(cc.start as u64) % prog as u64) as usize;
        match decode(&h, &payload[..len], 0, false) {
            Err(_) => {}
            Ok((r, _)) => ensure!(r > len, "cut inside the colour program at {len} of {prog}: status {r}"),
        }
    }
    for &(p, off, dd) in &cc.cuts {
        let len = place(&marks, payload.len(), prog, p, off);
        let d = dd as usize % (top + 2);
        let data = &payload[..len];
        let at = format!("{len} of {} bytes at downsampling {d}", payload.len());
        let complete = lay.complete(len, d);
        let (r, got) = decode(&h, data, d, false).map_err(|e| format!("{} for {at}", derr(&e)))?;
        ensure!((r == 0) == complete, "status {r} for {at}, though {}", if complete { "all data is there" } else { "data is missing" });
        if !complete {
            o.nontrivial();
            ensure!(r > len, "point of interest {r} is not beyond the data, for {at}");
            match lay.point(len, d) {
                Some(q) if q > len => ensure!(r == q, "point of interest {r}, expected {q}, for {at}"),
                _ => {}
            }
        }
        // pixels: the complete blocks and nothing else
        let pr = lay.present(len, d);
        let have = |k: usize, x: usize, y: usize| {
            let (l, b) = lay.home(k, x, y);
            pr[l][b]
        };
        let want = model::decoded(case, &co, d, &have);
        if want.overflowed {
            o.label("values over 16 bits");
        } else {
            diff(&format!("pixels for {at}"), &got, &want.data)?;
        }
        // test mode: same answer, pixels untouched
        let mut out: Vec<u8> = (0..got.len()).map(|i| mix(i as u64) as u8).collect();
        let before = out.clone();
        let t = decompress_simple(data, &h, d, true, &mut out).map_err(|e| format!("test mode: {} for {at}", derr(&e)))?;
        ensure!(t == r, "test mode reports {t} instead of {r} for {at}");
        diff("output of test mode", &out, &before)?;
        // planar interface
        let n = h.get_downsampled_image_size(d);
        let mut aux = vec![0i16; n];
        let ra = decompress_aux_data(&data[prog..], &h, &chroma, d, false, &mut aux).map_err(|e| format!("decompress_aux_data: {} for {at}", derr(&e)))?;
        ensure!((ra == 0) == complete, "decompress_aux_data: status {ra} for {at}");
        if !complete {
            ensure!(ra > len - prog, "decompress_aux_data: point of interest {ra} is not beyond {}", len - prog);
            match lay.point(len, d) {
                Some(q) if q > len => ensure!(ra == q - prog, "decompress_aux_data: point of interest {ra}, expected {}, for {at}", q - prog),
                _ => {}
            }
        }
        let (planes, m) = model::decoded_planes(case, &co, d, &have);
        if !m.overflowed {
            let flat: Vec<i16> = planes.iter().flat_map(|p| p.iter().map(|v| *v as i16)).collect();
            diff16(&format!("planar image for {at}"), &aux, &flat)?;
        }
        let mut aux = vec![-77i16; n];
        let rt = decompress_aux_data(&data[prog..], &h, &chroma, d, true, &mut aux).map_err(|e| format!("decompress_aux_data, test mode: {} for {at}", derr(&e)))?;
        ensure!(rt == ra, "decompress_aux_data in test mode reports {rt} instead of {ra} for {at}");
        ensure!(aux.iter().all(|v| *v == -77), "decompress_aux_data in test mode writes samples");
    }
    // fetching up to each point in turn
    for (test, d) in [(true, 0), (false, cc.start as usize % (top + 1))] {
        let mut len = place(&marks, payload.len(), prog, cc.start, 1);
        let mut steps = 0;
        loop {
            let mut out = vec![0u8; h.get_decompress_buffer_size(d)];
            let r = decompress_simple(&payload[..len], &h, d, test, &mut out).map_err(|e| format!("fetching: {} at {len}", derr(&e)))?;
            if r == 0 {
                ensure!(lay.complete(len, d), "fetching stops at {len} of {}", payload.len());
                break;
            }
            ensure!(r > len, "fetching makes no progress: {len} bytes lead to point {r}");
            ensure!(len < payload.len(), "the whole stream is reported as incomplete");
            len = r.min(payload.len());
            steps += 1;
            ensure!(steps <= 2 * lay.levels.len() + payload.len() / 1024 + 4, "fetching does not come to an end");
        }
        o.label_if(steps > 2, "fetched in more than two steps");
    }
    Ok(())
}

fn strat(o: Opts, n: usize) -> BoxedStrategy<Cuts> {
    (gen::case(o), prop::collection::vec((any::<u16>(), prop_oneof![Just(0i8), -9i8..=9], prop_oneof![2 => Just(0u8), 1 => 0u8..20]), 1..=n), any::<u16>())
        .prop_map(|(case, cuts, start)| Cuts { case, cuts, start })
        .boxed()
}

pub fn run(ctx: &mut Ctx) {
    ctx.check(
        "small",
        "streams of random parameters and images, cut at 1 to 6 places (ends of the colour program, of size tables, of blocks and of levels, give or take some bytes, or anywhere) at any downsampling, with and without test mode; non-trivial: some cut leaves data missing",
        20_000,
        || strat(Opts { scale: 0, max_samples: 4_000, ..Default::default() }, 6),
        check,
    );
    ctx.check("medium", "as small, with images of up to 100 000 samples", 1600, || strat(Opts { scale: 1, max_samples: 100_000, ..Default::default() }, 4), check);
    ctx.check("large", "as small, with images of up to 1 million samples", 30, || strat(Opts { scale: 2, max_samples: 1_000_000, ..Default::default() }, 2), check);
    if ctx.build == "release" {
        let huge = |(i, case)| Cuts { case, cuts: vec![(1, 0, 0), (3 * 40 + 1, -1, i as u8), (2, 0, 2)], start: 65_000 };
        ctx.fixed("huge", "three images of over 2^24 samples and two of over 20 levels, each with three cuts", super::c02::huge().into_iter().enumerate().map(huge).collect(), check);
    }
}
