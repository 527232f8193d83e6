//! Quantisation.
use super::*;
use gfwx::quant::{dequantize, quantize};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::model::M;
use vh::{ensure, gen, Ctx, Obs, Res};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C {
    w: u32,
    h: u32,
    quality: i32,
    min: i32,
    max: i32,
    c: Coefs,
}

fn cases(scale: u32, cap_: usize) -> BoxedStrategy<C> {
    let q = prop_oneof![6 => 1i32..=1024, 2 => 1i32..=16, 1 => 1000i32..=8200, 1 => 0i32..=2, 1 => gen::dict(8192).prop_map(|v| v as i32)];
    let max = prop_oneof![5 => Just(8192i32), 3 => Just(1024), 2 => 1i32..=8192];
    let min = prop_oneof![6 => Just(0i32), 1 => Just(1), 1 => 0i32..=2000];
    (gen::dims(scale), q, min, max, coefs())
        .prop_map(move |(d, quality, min, max, c)| {
            let (w, h) = cap(d, cap_);
            C { w, h, quality, min, max, c }
        })
        .boxed()
}

fn judge(c: &C, o: &mut Obs) -> Res {
    let (w, h) = (c.w as usize, c.h as usize);
    let img = c.c.fill(w, h);
    let mut q = img.clone();
    quantize(&mut rows(&mut q, w), c.quality, c.min, c.max);
    let mut d = q.clone();
    dequantize(&mut rows(&mut d, w), c.quality, c.min, c.max);
    let mut d0 = img.clone();
    dequantize(&mut rows(&mut d0, w), c.quality, c.min, c.max);
    o.label_if(w * h > 96 * 96, "above the parallel threshold");
    o.label_if(w == 1 || h == 1, "one row or column");
    let mut levels = 0;
    for y in 0..h {
        for x in 0..w {
            let i = y * w + x;
            let (a, b, e, e0) = (img[i] as i64, q[i] as i64, d[i] as i64, d0[i] as i64);
            // the scale of the level, written out: min and 1 bound it below, it doubles per level up to max
            let qq = M::level_of(x, y).and_then(|s| {
                if s >= w || s >= h {
                    return None;
                }
                let mut v = c.quality as i64;
                let mut t = 1;
                loop {
                    let e = v.max(1).max(c.min as i64);
                    if e >= c.max as i64 {
                        return None;
                    }
                    if t == s {
                        return Some(e);
                    }
                    t *= 2;
                    v = (2 * v).min(c.max as i64);
                }
            });
            match qq {
                None => {
                    ensure!(a == b && b == e && a == e0, "({x}, {y}) is not to be quantised, but {a} became {b}, {e} and {e0}");
                }
                Some(qv) => {
                    levels += 1;
                    let max = c.max as i64;
                    let want = a * qv / max;
                    ensure!(b == want, "({x}, {y}): quantising {a} by {qv}/{max} gave {b}, expected {want}");
                    let deq = |v: i64| {
                        let half = max / 2;
                        if v < 0 {
                            (v * max - half) / qv
                        } else if v > 0 {
                            (v * max + half) / qv
                        } else {
                            0
                        }
                    };
                    ensure!(e0 == deq(a) as i16 as i64, "({x}, {y}): dequantising {a} by {max}/{qv} gave {e0}, expected {}", deq(a) as i16);
                    if deq(b) as i16 as i64 != deq(b) {
                        continue; // leaves 16 bits
                    }
                    let step = (max + qv - 1) / qv;
                    ensure!((e - a).abs() <= step, "({x}, {y}): {a} came back as {e}, further off than one step of {max}/{qv}");
                    ensure!(e.signum() == b.signum() && (e == 0 || e.signum() == a.signum()), "({x}, {y}): sign of {a} -> {b} -> {e}");
                    if 2 * qv <= max {
                        ensure!(e * qv / max == b, "({x}, {y}): {a} is coded {b}, which dequantises to {e}, coded {}", e * qv / max);
                    }
                }
            }
        }
    }
    if levels > 0 && !matches!(c.c, Coefs::Zero) {
        o.nontrivial();
    }
    // the same once more through the code itself: re-quantising is stable where a step is two or more
    if c.quality.max(c.min) * 2 <= c.max {
        let mut z = d.clone();
        quantize(&mut rows(&mut z, w), c.quality, c.min, c.max);
        let bad = (0..w * h).find(|&i| {
            let fine = (i % w) & 1 == 1 || (i / w) & 1 == 1;
            let big = ((q[i] as i64).abs() + 1) * c.max as i64 / (c.quality.max(c.min).max(1) as i64);
            fine && big < 32000 && z[i] != q[i]
        });
        if let Some(i) = bad {
            return Err(format!("({}, {}): code {} dequantised to {}, which is coded {}", i % w, i / w, q[i], d[i], z[i]));
        }
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    let rule = "random dimensions, quality, limits and 16-bit content; every sample compared with the stated rule; non-trivial: some sample is quantised and the content is not all zero";
    ctx.check("small", rule, 150_000, || cases(0, 6_000), judge);
    ctx.check("medium", rule, 20_000, || cases(1, 40_000), judge);
    ctx.check("large", rule, 400, || cases(2, 1_000_000), judge);
}
