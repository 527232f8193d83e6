//! Wavelet lifting.
use super::*;
use gfwx::lifting::{lift_cubic, lift_linear, unlift_cubic, unlift_linear};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::model::M;
use vh::{ensure, gen, Ctx, Obs, Res};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C {
    w: u32,
    h: u32,
    filter: u8,
    c: Coefs,
}

fn cases(scale: u32, max: usize) -> BoxedStrategy<C> {
    (gen::dims(scale), 0u8..2, coefs())
        .prop_map(move |(d, filter, c)| {
            let (w, h) = cap(d, max);
            C { w, h, filter, c }
        })
        .boxed()
}

fn lift(f: u8, v: &mut [i16], w: usize) {
    let mut r = rows(v, w);
    if f == 0 {
        lift_linear(&mut r)
    } else {
        lift_cubic(&mut r)
    }
}
fn unlift(f: u8, v: &mut [i16], w: usize) {
    let mut r = rows(v, w);
    if f == 0 {
        unlift_linear(&mut r)
    } else {
        unlift_cubic(&mut r)
    }
}
fn same(what: &str, a: &[i16], b: &[i16], w: usize) -> Res {
    match a.iter().zip(b).position(|(x, y)| x != y) {
        None => Ok(()),
        Some(i) => Err(format!("{what}: at column {} row {}: got {} but expected {}", i % w, i / w, a[i], b[i])),
    }
}

fn judge(c: &C, o: &mut Obs) -> Res {
    let (w, h) = (c.w as usize, c.h as usize);
    o.label(["linear", "cubic"][c.filter as usize]);
    o.label(if w * h > 128 * 128 {
        "above every threshold"
    } else if w * h > 64 * 64 {
        "above the cubic threshold"
    } else {
        "below the thresholds"
    });
    o.label_if(w == 1 || h == 1, "one row or column");
    o.label_if(!w.is_power_of_two() || !h.is_power_of_two(), "a side that is no power of two");
    if w * h > 1 && !c.c.is_flat() {
        o.nontrivial();
    }
    let img = c.c.fill(w, h);
    let mut a = img.clone();
    lift(c.filter, &mut a, w);
    let coefs = a.clone();
    unlift(c.filter, &mut a, w);
    same("unlift(lift(x))", &a, &img, w)?;
    let mut b = img.clone();
    unlift(c.filter, &mut b, w);
    let synth = b.clone();
    lift(c.filter, &mut b, w);
    same("lift(unlift(x))", &b, &img, w)?;

    let mut m = M::default();
    let mut p: Vec<i32> = img.iter().map(|&v| v as i32).collect();
    m.lift(&mut p, w, h, c.filter);
    o.label_if(m.overflowed, "16-bit wrap-around");
    let p: Vec<i16> = p.iter().map(|&v| v as i16).collect();
    same("lift against the model", &coefs, &p, w)?;
    let mut p: Vec<i32> = img.iter().map(|&v| v as i32).collect();
    m.unlift(&mut p, w, h, c.filter);
    let p: Vec<i16> = p.iter().map(|&v| v as i16).collect();
    same("unlift against the model", &synth, &p, w)?;
    if let Coefs::Const(v) = c.c {
        // (-32768 has no negative, so predicting it from itself wraps)
        if v != i16::MIN {
            ensure!(coefs[0] == v, "a constant {v} has the DC coefficient {}", coefs[0]);
            ensure!(coefs[1..].iter().all(|&x| x == 0), "a constant image has detail coefficients");
        }
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    let rule = "random dimensions, filter and 16-bit content; both compositions of lift and unlift, and each against the model; non-trivial: several samples, not constant";
    ctx.check("small", rule, 120_000, || cases(0, 6_000), judge);
    ctx.check("medium", rule, 16_000, || cases(1, 60_000), judge);
    ctx.check("large", rule, 500, || cases(2, 1_000_000), judge);
}
