//! An independent model of everything between pixels and coefficients: colour program, wavelet, quantiser and
//! their inverses, in wide integers stored with 16-bit wrap-around. The wavelet is written as one rule on a line
//! of samples with mirrored borders, applied along rows and then columns of each level.
use crate::content::mix;
use crate::gen::{Case, Transform};

#[derive(Default)]
pub struct M {
    /// a value left the 16-bit range somewhere
    pub overflowed: bool,
    /// an estimate of the cubic filter left the 16-bit range before its clamping, where the original wraps it
    pub wide: bool,
}

pub type Plane = Vec<i32>;

impl M {
    fn st(&mut self, v: i64) -> i32 {
        let w = v as i16;
        if w as i64 != v {
            self.overflowed = true;
        }
        w as i32
    }

    fn predict(&mut self, filter: u8, a3: Option<i32>, a1: i32, b1: Option<i32>, b3: Option<i32>) -> (i64, i64) {
        // -> (amount taken from an odd sample, amount added to an even sample)
        let b1 = b1.unwrap_or(a1);
        if filter == 0 {
            let s = a1 as i64 + b1 as i64;
            (s / 2, s / 4)
        } else {
            let a3 = a3.unwrap_or(a1);
            let b3 = b3.unwrap_or(b1);
            let num = 9 * (a1 as i64 + b1 as i64) - a3 as i64 - b3 as i64;
            let r = if num < 0 { (num - 8) / 16 } else { (num + 8) / 16 };
            if r as i16 as i64 != r {
                self.wide = true;
            }
            let (lo, hi) = ((a1.min(b1)) as i64, (a1.max(b1)) as i64);
            let p = r.clamp(lo, hi);
            (p, p / 2)
        }
    }

    fn line(&mut self, v: &mut [i32], filter: u8, parity: usize, sign: i64) {
        let n = v.len();
        let mut i = if parity == 1 { 1 } else { 2 };
        while i < n {
            let g = |k: i64| -> Option<i32> {
                let j = i as i64 + k;
                // samples of the other parity only
                if j >= 0 && (j as usize) < n && (parity == 1 || j >= 1) {
                    Some(v[j as usize])
                } else {
                    None
                }
            };
            let (odd, even) = {
                let (a3, b1, b3) = (g(-3), g(1), g(3));
                self.predict(filter, a3, v[i - 1], b1, b3)
            };
            let delta = if parity == 1 { -odd } else { even };
            v[i] = self.st(v[i] as i64 + sign * delta);
            i += 2;
        }
    }

    fn along(&mut self, p: &mut Plane, w: usize, h: usize, step: usize, rows: bool, f: &mut dyn FnMut(&mut Self, &mut [i32])) {
        let (outer, inner) = if rows { (h, w) } else { (w, h) };
        let mut buf = vec![];
        for o in (0..outer).step_by(step) {
            buf.clear();
            for i in (0..inner).step_by(step) {
                buf.push(if rows { p[o * w + i] } else { p[i * w + o] });
            }
            f(self, &mut buf);
            for (k, i) in (0..inner).step_by(step).enumerate() {
                if rows {
                    p[o * w + i] = buf[k]
                } else {
                    p[i * w + o] = buf[k]
                }
            }
        }
    }

    pub fn lift(&mut self, p: &mut Plane, w: usize, h: usize, filter: u8) {
        let mut step = 1;
        while step < w || step < h {
            for rows in [true, false] {
                self.along(p, w, h, step, rows, &mut |m, l| {
                    m.line(l, filter, 1, 1);
                    m.line(l, filter, 0, 1);
                });
            }
            step *= 2;
        }
    }

    pub fn unlift(&mut self, p: &mut Plane, w: usize, h: usize, filter: u8) {
        let mut step = 1;
        while step * 2 < w || step * 2 < h {
            step *= 2;
        }
        while step >= 1 {
            for rows in [false, true] {
                self.along(p, w, h, step, rows, &mut |m, l| {
                    m.line(l, filter, 0, -1);
                    m.line(l, filter, 1, -1);
                });
            }
            step /= 2;
        }
    }

    /// Detail step of a position: the coefficient at (x, y) belongs to the level of this step; the DC has none.
    pub fn level_of(x: usize, y: usize) -> Option<usize> {
        if x == 0 && y == 0 {
            None
        } else {
            Some(1usize << (x | y).trailing_zeros())
        }
    }

    /// Quantiser value of the level with this step, or None where nothing is quantised.
    pub fn level_quality(step: usize, w: usize, h: usize, quality: i64, max: i64) -> Option<i64> {
        if step >= w || step >= h {
            return None;
        }
        let q = (quality.max(1)).saturating_mul(step as i64);
        if q >= max {
            None
        } else {
            Some(q)
        }
    }

    pub fn quantize(&mut self, p: &mut Plane, w: usize, h: usize, quality: i64, max: i64) {
        for y in 0..h {
            for x in 0..w {
                if let Some(q) = Self::level_of(x, y).and_then(|s| Self::level_quality(s, w, h, quality, max)) {
                    let v = p[y * w + x] as i64;
                    p[y * w + x] = self.st(v * q / max);
                }
            }
        }
    }

    pub fn dequantize(&mut self, p: &mut Plane, w: usize, h: usize, quality: i64, max: i64) {
        for y in 0..h {
            for x in 0..w {
                if let Some(q) = Self::level_of(x, y).and_then(|s| Self::level_quality(s, w, h, quality, max)) {
                    let v = p[y * w + x] as i64;
                    let half = max / 2 * v.signum();
                    p[y * w + x] = self.st((v * max + half) / q);
                }
            }
        }
    }

    /// Planes of boosted samples after the colour program. `sample(channel, pixel)`.
    pub fn transform(&mut self, ts: &[Transform], n: usize, pixels: usize, boost: i64, sample: &dyn Fn(usize, usize) -> u8) -> Vec<Plane> {
        let mut planes: Vec<Plane> = (0..n)
            .map(|c| (0..pixels).map(|i| sample(c, i) as i32 * boost as i32).collect())
            .collect();
        for t in ts {
            for i in 0..pixels {
                let d = self.term(t, &planes, i);
                planes[t.dest][i] = self.st(planes[t.dest][i] as i64 + d);
            }
        }
        planes
    }

    fn term(&mut self, t: &Transform, planes: &[Plane], i: usize) -> i64 {
        let mut s = 0i64;
        for &(src, f) in &t.factors {
            let prod = planes[src][i] as i64 * f as i64;
            s = self.st(s + self.peek(prod)) as i64;
            if prod as i16 as i64 != prod {
                self.overflowed = true;
            }
        }
        s / t.den as i64
    }
    fn peek(&self, v: i64) -> i64 {
        v as i16 as i64
    }

    pub fn detransform(&mut self, ts: &[Transform], planes: &mut [Plane]) {
        let pixels = planes.first().map_or(0, |p| p.len());
        for t in ts.iter().rev() {
            for i in 0..pixels {
                let d = self.term(t, planes, i);
                planes[t.dest][i] = self.st(planes[t.dest][i] as i64 - d);
            }
        }
    }
}

pub fn boost(quality: u16) -> i64 {
    if quality == 1024 {
        1
    } else {
        8
    }
}

/// Quality of a channel.
pub fn channel_quality(case: &Case, chroma: bool) -> i64 {
    if chroma {
        ((case.quality as i64 + case.chroma as i64 / 2) / case.chroma as i64).max(1)
    } else {
        case.quality as i64
    }
}

/// Index of (channel, pixel) in the interleaved sample array.
pub fn interleaved_index(k: usize, i: usize, channels: usize, pixels: usize) -> usize {
    let (l, c) = (k / channels, k % channels);
    l * pixels * channels + i * channels + c
}

pub struct Coefs {
    pub planes: Vec<Plane>,
    pub overflowed: bool,
    pub wide: bool,
}

/// The quantised coefficients that a correct encoder codes for this case.
pub fn coefs(case: &Case, img: &[u8]) -> Coefs {
    let mut m = M::default();
    let (w, h) = (case.w as usize, case.h as usize);
    let ch = case.channels as usize;
    let b = boost(case.quality);
    let ts = case.transforms();
    let mut planes = m.transform(&ts, case.n(), w * h, b, &|k, i| img[interleaved_index(k, i, ch, w * h)]);
    let chroma = case.is_chroma();
    for (k, p) in planes.iter_mut().enumerate() {
        m.lift(p, w, h, case.filter);
        m.quantize(p, w, h, channel_quality(case, chroma[k]), 1024 * b);
    }
    Coefs { planes, overflowed: m.overflowed, wide: m.wide }
}

pub fn down(n: usize, d: usize) -> usize {
    n.div_ceil(1 << d)
}

pub struct Pixels {
    pub data: Vec<u8>,
    pub overflowed: bool,
    pub wide: bool,
}

/// The decoded planes (before the colour program is undone), from the coefficients `have` admits.
pub fn decoded_planes(case: &Case, c: &Coefs, d: usize, have: &dyn Fn(usize, usize, usize) -> bool) -> (Vec<Plane>, M) {
    let mut m = M { overflowed: c.overflowed, wide: c.wide };
    let (w, h) = (case.w as usize, case.h as usize);
    let (wd, hd) = (down(w, d), down(h, d));
    let b = boost(case.quality);
    let chroma = case.is_chroma();
    let none = (case.top_step() >> d) == 0;
    let mut out = vec![];
    for (k, p) in c.planes.iter().enumerate() {
        let mut q: Plane = vec![0; wd * hd];
        if !none {
            for y in 0..hd {
                for x in 0..wd {
                    if have(k, x << d, y << d) {
                        q[y * wd + x] = p[(y << d) * w + (x << d)];
                    }
                }
            }
            m.dequantize(&mut q, wd, hd, channel_quality(case, chroma[k]) << d, 1024 * b);
            m.unlift(&mut q, wd, hd, case.filter);
        }
        out.push(q);
    }
    (out, m)
}

/// What a correct decoder returns at `d`, as interleaved samples.
pub fn decoded(case: &Case, c: &Coefs, d: usize, have: &dyn Fn(usize, usize, usize) -> bool) -> Pixels {
    let (mut planes, mut m) = decoded_planes(case, c, d, have);
    m.detransform(&case.transforms(), &mut planes);
    let b = boost(case.quality) as i32;
    let px = down(case.w as usize, d) * down(case.h as usize, d);
    let mut data = vec![0u8; px * case.n()];
    for (k, p) in planes.iter().enumerate() {
        for (i, v) in p.iter().enumerate() {
            data[interleaved_index(k, i, case.channels as usize, px)] = (v / b).clamp(0, 255) as u8;
        }
    }
    Pixels { data, overflowed: m.overflowed, wide: m.wide }
}

pub fn all(_k: usize, _x: usize, _y: usize) -> bool {
    true
}

pub fn digest(data: &[u8]) -> u64 {
    let mut h = 0x1234_5678_9abc_def0u64 ^ data.len() as u64;
    for c in data.chunks(8) {
        let mut b = [0u8; 8];
        b[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(b));
    }
    h
}
