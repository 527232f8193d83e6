//! Compact recipes for image content, so that a failing case shrinks and is written out in a line.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Content {
    Const(u8),
    /// (o + dx*x + dy*y) / 4, clamped
    Ramp { o: i16, dx: i16, dy: i16 },
    Noise { seed: u64, lo: u8, hi: u8 },
    /// one pixel in `per` is `fg`
    Sparse { seed: u64, per: u32, bg: u8, fg: u8 },
    Checker { px: u8, py: u8, a: u8, b: u8 },
    /// low-frequency surface plus a little noise
    Smooth { seed: u64, noise: u8 },
    /// flat rectangles with hard edges
    Blocks { seed: u64, size: u8 },
    /// all `bg` but the last pixel
    Last { bg: u8, fg: u8 },
    /// all `bg` but some pixels (places are taken modulo the size)
    Spots { bg: u8, at: Vec<(u32, u32, u8)> },
    /// explicit samples, repeated
    Raw(Vec<u8>),
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

fn h3(seed: u64, a: u64, b: u64) -> u64 {
    mix(seed ^ mix(a ^ mix(b)))
}

impl Content {
    pub fn at(&self, x: usize, y: usize, w: usize, h: usize, ch: usize) -> u8 {
        let key = ch as u64;
        match self {
            Content::Const(v) => *v,
            Content::Ramp { o, dx, dy } => {
                let v = (*o as i64 + *dx as i64 * x as i64 + *dy as i64 * y as i64) / 4;
                v.clamp(0, 255) as u8
            }
            Content::Noise { seed, lo, hi } => {
                let (lo, hi) = if lo <= hi { (*lo, *hi) } else { (*hi, *lo) };
                let n = (hi - lo) as u64 + 1;
                lo + (h3(*seed ^ (key << 40), x as u64, y as u64) % n) as u8
            }
            Content::Sparse { seed, per, bg, fg } => {
                if h3(*seed ^ (key << 40), x as u64, y as u64) % (*per).max(1) as u64 == 0 {
                    *fg
                } else {
                    *bg
                }
            }
            Content::Checker { px, py, a, b } => {
                let (px, py) = ((*px).max(1) as usize, (*py).max(1) as usize);
                if (x / px + y / py) % 2 == 0 {
                    *a
                } else {
                    *b
                }
            }
            Content::Smooth { seed, noise } => {
                let s = mix(*seed);
                let f = |k: u32| ((s >> k) & 31) as f64;
                let v = 128.0
                    + 60.0 * ((x as f64) / (4.0 + f(0)) + f(5)).sin()
                    + 60.0 * ((y as f64) / (4.0 + f(10)) + f(15) + key as f64).cos();
                let n = (h3(*seed ^ (key << 40), x as u64, y as u64) % (*noise as u64 + 1)) as f64;
                (v + n).clamp(0.0, 255.0) as u8
            }
            Content::Blocks { seed, size } => {
                let s = (*size).max(1) as usize;
                h3(*seed ^ (key << 40), (x / s) as u64, (y / s) as u64) as u8
            }
            Content::Last { bg, fg } => {
                if x + 1 == w && y + 1 == h {
                    *fg
                } else {
                    *bg
                }
            }
            Content::Spots { bg, at } => {
                at.iter().find(|p| p.0 as usize % w == x && p.1 as usize % h == y).map_or(*bg, |p| p.2)
            }
            Content::Raw(v) => {
                if v.is_empty() {
                    0
                } else {
                    v[(y * w + x + ch * 7) % v.len()]
                }
            }
        }
    }

    pub fn kind(&self) -> &'static str {
        match self {
            Content::Const(_) => "const",
            Content::Ramp { .. } => "ramp",
            Content::Noise { .. } => "noise",
            Content::Sparse { .. } => "sparse",
            Content::Checker { .. } => "checker",
            Content::Smooth { .. } => "smooth",
            Content::Blocks { .. } => "blocks",
            Content::Last { .. } => "last",
            Content::Spots { .. } => "spots",
            Content::Raw(_) => "raw",
        }
    }

    pub fn is_flat(&self) -> bool {
        matches!(self, Content::Const(_))
    }
}

/// Channel `c` of layer `l`: interleaved inside a layer, layers one after the other.
pub fn interleaved(content: &[Content], w: usize, h: usize, layers: usize, channels: usize) -> Vec<u8> {
    let mut v = vec![0u8; w * h * layers * channels];
    for l in 0..layers {
        for c in 0..channels {
            let k = l * channels + c;
            let r = &content[k % content.len()];
            let base = l * w * h * channels + c;
            for y in 0..h {
                for x in 0..w {
                    v[base + (y * w + x) * channels] = r.at(x, y, w, h, k);
                }
            }
        }
    }
    v
}

pub fn planar(content: &[Content], w: usize, h: usize, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(w * h * n);
    for k in 0..n {
        let r = &content[k % content.len()];
        for y in 0..h {
            for x in 0..w {
                v.push(r.at(x, y, w, h, k));
            }
        }
    }
    v
}
