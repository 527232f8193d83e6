pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c18;
pub mod c22;

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::content::mix;

/// Recipes for arrays of 16-bit samples.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Coefs {
    Zero,
    Const(i16),
    /// mostly small, tails up to `scale`
    Laplace { seed: u64, scale: u32 },
    Sparse { seed: u64, per: u32, amp: i16 },
    Uniform { seed: u64 },
    /// the values at which the coders change their behaviour
    Extreme { seed: u64 },
    Raw(Vec<i16>),
    Ramp { o: i16, dx: i16, dy: i16 },
}

impl Coefs {
    pub fn at(&self, i: usize, x: usize, y: usize) -> i16 {
        let h = |s: u64| mix(s ^ mix(i as u64));
        match self {
            Coefs::Zero => 0,
            Coefs::Const(v) => *v,
            Coefs::Laplace { seed, scale } => {
                let r = h(*seed);
                let bits = (r & 255).leading_zeros() as u64 - 56; // geometric, 0..=8
                let top = (*scale as u64 >> (8 - bits.min(8))).max(1);
                let v = ((r >> 16) % (top + 1)) as i64;
                (if r & 256 != 0 { -v } else { v }).clamp(-32768, 32767) as i16
            }
            Coefs::Sparse { seed, per, amp } => {
                let r = h(*seed);
                if r % (*per).max(1) as u64 == 0 {
                    if r & (1 << 40) != 0 {
                        *amp
                    } else {
                        amp.wrapping_neg()
                    }
                } else {
                    0
                }
            }
            Coefs::Uniform { seed } => h(*seed) as i16,
            Coefs::Extreme { seed } => {
                const V: [i16; 16] = [i16::MIN, i16::MAX, -32767, 0, 1, -1, 4095, 4096, 4097, -4096, 2047, -2048, 255, -256, 16384, -16385];
                V[(h(*seed) % 16) as usize]
            }
            Coefs::Raw(v) => {
                if v.is_empty() {
                    0
                } else {
                    v[i % v.len()]
                }
            }
            Coefs::Ramp { o, dx, dy } => (*o as i64 + *dx as i64 * x as i64 + *dy as i64 * y as i64) as i16,
        }
    }
    pub fn fill(&self, w: usize, h: usize) -> Vec<i16> {
        let mut v = Vec::with_capacity(w * h);
        for y in 0..h {
            for x in 0..w {
                v.push(self.at(y * w + x, x, y));
            }
        }
        v
    }
    pub fn is_flat(&self) -> bool {
        matches!(self, Coefs::Zero | Coefs::Const(_))
    }
}

pub fn value() -> BoxedStrategy<i16> {
    prop_oneof![
        4 => -8i16..=8,
        2 => -2100i16..=2100,
        1 => any::<i16>(),
        1 => prop::sample::select(vec![i16::MIN, i16::MAX, -32767, 4095, 4096, 4097, -4096, 255, 256, -255]),
        1 => vh::gen::signed_dict(32767).prop_map(|v| v as i16),
    ]
    .boxed()
}

pub fn coefs() -> BoxedStrategy<Coefs> {
    prop_oneof![
        1 => Just(Coefs::Zero),
        1 => value().prop_map(Coefs::Const),
        4 => (any::<u64>(), prop_oneof![1u32..8, 8u32..600, 600u32..33000]).prop_map(|(seed, scale)| Coefs::Laplace { seed, scale }),
        3 => (any::<u64>(), prop_oneof![2u32..20, 20u32..3000], value()).prop_map(|(seed, per, amp)| Coefs::Sparse { seed, per, amp }),
        1 => any::<u64>().prop_map(|seed| Coefs::Uniform { seed }),
        1 => any::<u64>().prop_map(|seed| Coefs::Extreme { seed }),
        3 => prop::collection::vec(value(), 1..80).prop_map(Coefs::Raw),
        1 => (value(), -300i16..300, -300i16..300).prop_map(|(o, dx, dy)| Coefs::Ramp { o, dx, dy }),
    ]
    .boxed()
}

pub fn rows(v: &mut [i16], w: usize) -> Vec<&mut [i16]> {
    v.chunks_mut(w).collect()
}

pub fn cap((mut w, mut h): (u32, u32), max: usize) -> (u32, u32) {
    while w as usize * h as usize > max {
        if w >= h {
            w = (w / 2).max(1)
        } else {
            h = (h / 2).max(1)
        }
    }
    (w, h)
}
