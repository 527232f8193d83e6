//! Conversion between interleaved and planar samples.
use super::*;
use gfwx::{interleaved_to_planar, planar_to_interleaved};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::content::mix;
use vh::{ensure, Ctx, Obs, Res};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Conv {
    channels: usize,
    /// samples per channel
    size: usize,
    /// samples beyond a whole number of pixels
    rest: usize,
    boost: i16,
    skip: Vec<usize>,
    seed: u64,
    /// samples are small, or of any size
    narrow: bool,
    extra: usize,
}

/// The second number is where an absent channel lies that a narrow type would take for the first.
fn skipped(max_ch: usize) -> impl Strategy<Value = (usize, usize)> {
    (0usize..max_ch + 2, prop_oneof![20 => Just(0usize), 1 => (5u32..64).prop_map(|k| 1usize << k), 1 => any::<usize>()])
}

fn strat(max_px: usize, max_ch: usize) -> BoxedStrategy<Conv> {
    (
        prop_oneof![3 => 1usize..=5, 1 => 1usize..=max_ch],
        prop_oneof![1 => 0usize..=3, 3 => 1usize..=80, 1 => 1usize..=max_px, 1 => vh::gen::dict(max_px as u32).prop_map(|v| v as usize)],
        prop_oneof![3 => Just(0usize), 1 => 0usize..6],
        prop_oneof![6 => Just(8i16), 6 => Just(1i16), 4 => 1i16..=128, 1 => 1i16..=i16::MAX],
        prop_oneof![6 => prop::collection::vec(skipped(max_ch), 0..5), 1 => prop::collection::vec(skipped(max_ch), 0..=2 * max_ch)],
        any::<u64>(),
        any::<bool>(),
        prop_oneof![2 => Just(0usize), 1 => 0usize..40],
    )
        .prop_map(|(channels, size, rest, boost, skip, seed, narrow, extra)| Conv {
            channels,
            size,
            rest: rest % channels,
            boost,
            skip: skip
                .into_iter()
                .enumerate()
                .map(|(i, (s, far))| {
                    let near = if i == 0 { s } else { s % (channels + 1) };
                    near.saturating_add(far)
                })
                .collect(),
            seed,
            narrow,
            extra,
        })
        .boxed()
}

/// Mostly many channels.
fn many(mut c: Conv) -> Conv {
    if c.seed % 4 != 0 {
        c.channels = 6 + (c.seed >> 8) as usize % 395;
        c.size = c.size.min(30);
        c.rest = (c.seed >> 40) as usize % c.channels.min(9);
        if c.skip.is_empty() && c.seed % 8 == 1 {
            c.skip = vec![(c.seed >> 20) as usize % c.channels];
        }
    }
    c
}

fn kept(c: &Conv) -> Vec<usize> {
    (0..c.channels).filter(|k| !c.skip.contains(k)).collect()
}

fn to_planar(c: &Conv, o: &mut Obs) -> Res {
    let n = c.channels * c.size + c.rest;
    let kept = kept(c);
    if c.size > 1 && !kept.is_empty() {
        o.nontrivial();
    }
    o.label_if(kept.len() < c.channels, "some channels skipped");
    o.label_if(c.boost != 1, "boosted");
    let top = (32767 / c.boost as u64 + 1).min(256);
    let bytes: Vec<u8> = (0..n).map(|i| (mix(c.seed ^ i as u64) % top) as u8).collect();
    let out_len = kept.len() * c.size + c.extra;
    let fill = |i: usize| mix(!c.seed ^ i as u64) as i16;
    let mut want: Vec<i16> = (0..out_len).map(fill).collect();
    for (p, &k) in kept.iter().enumerate() {
        for i in 0..c.size {
            want[p * c.size + i] = bytes[i * c.channels + k] as i16 * c.boost;
        }
    }
    let mut out: Vec<i16> = (0..out_len).map(fill).collect();
    interleaved_to_planar(&bytes, c.channels, c.boost, &mut out, &c.skip);
    diff16("planar samples", &out, &want)?;
    // signed samples of 16 bits
    let lim = (32767 / c.boost as i32).min(if c.narrow { 20 } else { 32767 });
    let words: Vec<i16> = (0..n).map(|i| (mix(c.seed ^ i as u64) as i32 % (lim + 1)) as i16).collect();
    let mut out: Vec<i16> = (0..out_len).map(fill).collect();
    interleaved_to_planar(&words, c.channels, c.boost, &mut out, &c.skip);
    for (p, &k) in kept.iter().enumerate() {
        for i in 0..c.size {
            want[p * c.size + i] = words[i * c.channels + k] * c.boost;
        }
    }
    diff16("planar samples from 16-bit samples", &out, &want)?;
    // there and back
    let mut again: Vec<u8> = (0..n).map(|i| !bytes[i]).collect();
    let mut expect = again.clone();
    for &k in &kept {
        for i in 0..c.size {
            expect[i * c.channels + k] = bytes[i * c.channels + k];
        }
    }
    let mut planar = vec![0i16; out_len];
    interleaved_to_planar(&bytes, c.channels, c.boost, &mut planar, &c.skip);
    let before = planar.clone();
    planar_to_interleaved(&planar, c.channels, c.boost, &mut again, &c.skip);
    diff("restored samples", &again, &expect)?;
    diff16("input of planar_to_interleaved", &planar, &before)
}

fn to_interleaved(c: &Conv, o: &mut Obs) -> Res {
    let n = c.channels * c.size + c.rest;
    let kept = kept(c);
    if c.size > 1 && !kept.is_empty() {
        o.nontrivial();
    }
    let input: Vec<i16> = (0..kept.len() * c.size + c.extra)
        .map(|i| {
            let r = mix(c.seed ^ i as u64);
            match r % 8 {
                0 => i16::MIN,
                1 => i16::MAX,
                2 => (255 * c.boost as i32 + (r >> 20) as i32 % 5 - 2).clamp(-32768, 32767) as i16,
                3 => (((r >> 20) % 5) as i16 - 2).wrapping_mul(if r & 256 != 0 { c.boost } else { 1 }),
                4 if !c.narrow => (r >> 16) as i16,
                _ => ((r >> 16) as i32 % (300 * c.boost as i32) - 20).clamp(-32768, 32767) as i16,
            }
        })
        .collect();
    let value = |p: usize, i: usize| -> i32 {
        let v = input[p * c.size + i] as i32 / c.boost as i32;
        v.clamp(0, 255)
    };
    o.label_if(input.iter().any(|&v| (v as i32 / c.boost as i32) > 255 || v < 0), "values out of range are clamped");
    macro_rules! with {
        ($t:ty, $name:expr) => {
            let fill = |i: usize| (mix(c.seed ^ 5 ^ i as u64) % 100 + 1) as u8 as $t;
            let mut out: Vec<$t> = (0..n).map(fill).collect();
            let mut want = out.clone();
            for (p, &k) in kept.iter().enumerate() {
                for i in 0..c.size {
                    want[i * c.channels + k] = value(p, i) as $t;
                }
            }
            planar_to_interleaved(&input, c.channels, c.boost, &mut out, &c.skip);
            if let Some(i) = (0..n).find(|&i| out[i] != want[i]) {
                return Err(format!("{} sample {i} of {n}: got {} but expected {}", $name, out[i], want[i]));
            }
        };
    }
    with!(u8, "u8");
    with!(i16, "i16");
    with!(u16, "u16");
    with!(i32, "i32");
    with!(f32, "f32");
    with!(usize, "usize");
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.check(
        "to_planar",
        "any number of channels, pixels, left-over samples, boost (mostly 1..128), list of skipped channels (repeated ones and absent ones too), u8 and i16 samples, output with spare room; and back again; non-trivial: two or more pixels and a kept channel",
        300_000,
        || strat(3000, 40),
        to_planar,
    );
    ctx.check("to_interleaved", "planar samples around and beyond 0 and 255 times the boost, into u8, i16, u16, i32, f32 and usize; non-trivial as above", 150_000, || strat(2000, 40), to_interleaved);
    ctx.check("to_planar_many", "as to_planar, up to 400 channels of up to 30 pixels", 20_000, || strat(30, 400).prop_map(many), to_planar);
    ctx.check("to_interleaved_many", "as to_interleaved, up to 400 channels of up to 30 pixels", 10_000, || strat(30, 400).prop_map(many), to_interleaved);
    ctx.check("to_planar_large", "as to_planar, up to 300 000 pixels", 600, || strat(300_000, 6), to_planar);
    ctx.check("to_interleaved_large", "as to_interleaved, up to 200 000 pixels", 300, || strat(200_000, 6), to_interleaved);
    ctx.fixed(
        "values",
        "every u8 sample with every boost from 1 to 128",
        (1i16..=128).collect::<Vec<i16>>(),
        |&b: &i16, o: &mut Obs| {
            o.nontrivial();
            let bytes: Vec<u8> = (0..=255).collect();
            let mut p = vec![0i16; 256];
            interleaved_to_planar(&bytes, 1, b, &mut p, &[]);
            let want: Vec<i16> = (0..256).map(|v| v as i16 * b).collect();
            diff16("planar", &p, &want)?;
            let mut back = vec![9u8; 256];
            planar_to_interleaved(&p, 1, b, &mut back, &[]);
            diff("restored", &back, &bytes)?;
            // every planar value
            let all: Vec<i16> = (-32768i32..=32767).map(|v| v as i16).collect();
            let mut out = vec![0u8; all.len()];
            planar_to_interleaved(&all, 1, b, &mut out, &[]);
            for (v, g) in all.iter().zip(&out) {
                let w = (*v as i32 / b as i32).clamp(0, 255);
                ensure!(*g as i32 == w, "{v} with boost {b} becomes {g} instead of {w}");
            }
            Ok(())
        },
    );
}
