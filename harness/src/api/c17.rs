//! Output buffers of any size.
use super::*;
use gfwx::compress_aux_data;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::content::mix;
use vh::gen::{self, Opts};
use vh::map::Mapped;
use vh::{ensure, layout, Ctx, Obs, Res};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bufs {
    case: Case,
    /// lengths: (place, offset)
    lens: Vec<(u16, i16)>,
    seed: u64,
}

const GUARD: usize = 96;

/// Calls `f` with a buffer of `len` bytes of arbitrary content that has other data on both sides.
fn guarded<E: std::fmt::Debug>(len: usize, seed: u64, f: impl FnOnce(&mut [u8]) -> Result<usize, E>) -> Result<Option<Vec<u8>>, String> {
    let fill = |i: usize| mix(seed ^ (i / 8) as u64).to_le_bytes()[i % 8];
    let mut v: Vec<u8> = (0..len + 2 * GUARD).map(fill).collect();
    let r = f(&mut v[GUARD..GUARD + len]);
    for i in (0..GUARD).chain(GUARD + len..len + 2 * GUARD) {
        ensure!(v[i] == fill(i), "byte {} outside of a buffer of {len} was written", i as i64 - GUARD as i64);
    }
    match r {
        Ok(n) => {
            ensure!(n <= len, "returned length {n} for a buffer of {len}");
            Ok(Some(v[GUARD..GUARD + n].to_vec()))
        }
        Err(_) => Ok(None),
    }
}

fn check(b: &Bufs, o: &mut Obs) -> Res {
    let case = &b.case;
    case.classify(o);
    let img = case.image();
    let h = case.header();
    let prog = case.program();
    let chroma = case.is_chroma();
    let s = encode(case, &h, &img)?;
    let plen = c08::program_len(case)?;
    let base = HEADER + plen;
    let lay = layout::parse(case, &s[base..], 0)?;
    // a buffer whose free space, split evenly over the blocks of a level, has room for the largest block of the level
    let enough = lay.levels.iter().map(|l| base + l.first + l.sizes.len() * l.sizes.iter().max().unwrap()).max().unwrap();
    let mut planar = vec![0i16; img.len()];
    prog.transform_and_to_planar(&img, &h, &mut planar);

    // the length is what a decoder needs
    let (r, _) = decode(&h, &s[HEADER..], 0, false).map_err(|e| format!("decoding: {}", derr(&e)))?;
    ensure!(r == 0, "the returned length {} is too short for the decoder: status {r}", s.len());
    for cut in [1, 4] {
        if s.len() - HEADER - plen > cut {
            match decode(&h, &s[HEADER..s.len() - cut], 0, false) {
                Ok((0, _)) => return Err(format!("the returned length {} has {cut} bytes that the decoder does not need", s.len())),
                _ => {}
            }
        }
    }

    let attempt = |len: usize, k: u64| guarded(len, b.seed ^ k, |buf| compress_simple(&img, &h, &prog, buf));
    let attempt_planar = |len: usize, k: u64| {
        guarded(len, b.seed ^ k, |buf| {
            let mut aux = planar.clone();
            compress_aux_data(&mut aux, &h, &chroma, buf)
        })
    };
    let mut lens: Vec<usize> = vec![enough, enough + 1, enough + 3];
    for (i, &(p, off)) in b.lens.iter().enumerate() {
        let anchors = [0, HEADER, base, base + lay.levels[0].first, s.len(), enough, enough / 2, base + lay.levels[mix(p as u64) as usize % lay.levels.len()].first];
        let l = if p % 4 == 3 { (mix(b.seed ^ i as u64) % (enough as u64 * 3 / 2 + 9)) as i64 } else { anchors[(p as usize / 4) % anchors.len()] as i64 + off as i64 };
        lens.push(l.max(0) as usize);
    }
    lens.push(case.roomy() * 2 + 13);
    lens.sort();
    lens.dedup();
    let mut success: Option<usize> = None;
    let mut failure: Option<usize> = None;
    for &len in &lens {
        match attempt(len, len as u64)? {
            Some(v) => {
                diff(&format!("stream in a buffer of {len} bytes against one with plenty of room"), &v, &s)?;
                success.get_or_insert(len);
            }
            None => {
                o.nontrivial();
                ensure!(success.is_none(), "a buffer of {} bytes is large enough, but one of {len} is not", success.unwrap());
                ensure!(len < enough, "compression fails with {len} bytes, though {enough} are enough for a stream of {} and its blocks", s.len());
                failure = Some(len);
            }
        }
        if len >= base {
            match attempt_planar(len - base, len as u64)? {
                Some(v) => {
                    ensure!(success.is_some(), "compress_aux_data succeeds with {} bytes, compress_simple fails with {len}", len - base);
                    diff(&format!("compress_aux_data in {} bytes", len - base), &v, &s[base..])?
                }
                None => ensure!(success.is_none(), "compress_aux_data fails with {} bytes, compress_simple succeeds with {len}", len - base),
            }
        }
    }
    // the exact boundary between failure and success
    if let (Some(mut lo), Some(mut hi)) = (failure, success) {
        while hi - lo > 1 {
            let mid = (lo + hi) / 2;
            match attempt(mid, 7)? {
                Some(v) => {
                    diff(&format!("stream in a buffer of {mid} bytes"), &v, &s)?;
                    hi = mid
                }
                None => lo = mid,
            }
        }
        for len in hi.saturating_sub(4)..hi + 5 {
            if let Some(v) = attempt(len, 11)? {
                diff(&format!("stream in a buffer of {len} bytes"), &v, &s)?;
                ensure!(len >= hi, "succeeds with {len} and fails with {} bytes", hi - 1);
            } else {
                ensure!(len < hi, "fails with {len} bytes and succeeds with {hi}");
            }
        }
    }
    Ok(())
}

/// Every length from nothing to more than enough.
fn every(b: &Bufs, o: &mut Obs) -> Res {
    let case = &b.case;
    case.classify(o);
    let img = case.image();
    let h = case.header();
    let prog = case.program();
    let s = encode(case, &h, &img)?;
    let plen = c08::program_len(case)?;
    let base = HEADER + plen;
    let lay = layout::parse(case, &s[base..], 0)?;
    let enough = lay.levels.iter().map(|l| base + l.first + l.sizes.len() * l.sizes.iter().max().unwrap()).max().unwrap();
    o.nontrivial();
    let mut ok = false;
    for len in 0..=(enough + 8).min(3000) {
        match guarded(len, b.seed, |buf| compress_simple(&img, &h, &prog, buf))? {
            Some(v) => {
                diff(&format!("stream in a buffer of {len} bytes"), &v, &s)?;
                ok = true;
            }
            None => {
                ensure!(!ok, "fails with {len} bytes and succeeds with {}", len - 1);
                ensure!(len < enough, "compression fails with {len} bytes, though {enough} are enough");
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Vast {
    case: Case,
    /// room for each block of the finest level, in GiB, and further bytes
    unit: u8,
    extra: u16,
}

/// Buffers in which blocks are given 4 GiB of room and more. Address space is all they take.
fn vast(v: &Vast, o: &mut Obs) -> Res {
    let case = &v.case;
    let img = case.image();
    let h = case.header();
    let prog = case.program();
    let s = encode(case, &h, &img)?;
    let blocks = case.levels().last().unwrap().blocks;
    let len = ((blocks * v.unit as usize) << 30) + v.extra as usize + s.len();
    let Some(mut m) = Mapped::new(len) else {
        o.skip();
        return Ok(());
    };
    case.classify(o);
    o.label_if(blocks > 1, "several blocks");
    if case.pixels() > 1 {
        o.nontrivial();
    }
    let n = compress_simple(&img, &h, &prog, m.bytes()).map_err(|e| format!("compression into {len} bytes: {e:?}"))?;
    ensure!(n == s.len(), "returned length {n} in place of {} with a buffer of {len} bytes", s.len());
    diff(&format!("stream in a buffer of {len} bytes"), &m.bytes()[..n], &s)?;
    let base = HEADER + c08::program_len(case)?;
    let mut aux = vec![0i16; img.len()];
    prog.transform_and_to_planar(&img, &h, &mut aux);
    drop(m);
    let Some(mut m) = Mapped::new(len) else { return Ok(()) };
    let n = compress_aux_data(&mut aux, &h, &case.is_chroma(), m.bytes()).map_err(|e| format!("compress_aux_data into {len} bytes: {e:?}"))?;
    diff(&format!("stream of compress_aux_data in a buffer of {len} bytes"), &m.bytes()[..n.min(len)], &s[base..])
}

fn strat(o: Opts, n: usize) -> BoxedStrategy<Bufs> {
    (gen::case(o), prop::collection::vec((any::<u16>(), prop_oneof![-9i16..=9, -200i16..=200]), 1..=n), any::<u64>()).prop_map(|(case, lens, seed)| Bufs { case, lens, seed }).boxed()
}

pub fn run(ctx: &mut Ctx) {
    ctx.check(
        "small",
        "images of up to 2000 samples, compressed into buffers of lengths around every mark of the stream, around what is enough, zero and at random, and at the boundary between failure and success; guard bytes around the buffer; non-trivial: some buffer is too small",
        20_000,
        || strat(Opts { scale: 0, max_samples: 2_000, ..Default::default() }, 8),
        check,
    );
    ctx.check("every", "images of up to 200 samples, compressed into buffers of every length up to more than enough; all count as non-trivial", 4_000, || strat(Opts { scale: 0, max_samples: 200, ..Default::default() }, 1), every);
    ctx.check("medium", "as small, with images of up to 100 000 samples", 600, || strat(Opts { scale: 1, max_samples: 100_000, ..Default::default() }, 5), check);
    ctx.check("large", "as small, with images of up to 800 000 samples", 16, || strat(Opts { scale: 2, max_samples: 800_000, ..Default::default() }, 3), check);
    if ctx.build == "release" {
        ctx.check(
            "vast",
            "images of up to 2000 samples and up to 8 blocks in a level, compressed into buffers that give each block from 1 to 9 GiB; non-trivial: more than one pixel",
            4_000,
            || {
                (gen::case(Opts { scale: 0, max_samples: 2_000, ..Default::default() }), 1u8..=9, any::<u16>()).prop_map(|(mut case, unit, extra)| {
                    if case.levels().last().unwrap().blocks > 8 {
                        case.block = 30;
                        case.layers = 1;
                        case.channels = case.channels.min(4);
                    }
                    Vast { case, unit, extra }
                })
            },
            vast,
        );
    }
}
