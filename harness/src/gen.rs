//! Codec cases and their generators.
use crate::content::{interleaved, Content};
use gfwx::{
    ChannelTransformBuilder, ColorTransformProgram, Encoder, Filter, Header, HeaderBuilder, Intent,
};
use proptest::prelude::*;
use proptest::strategy::Union;
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Transform {
    pub dest: usize,
    pub factors: Vec<(usize, i32)>,
    pub den: i32,
    pub chroma: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Prog {
    None,
    Yuv444,
    RgbYuv,
    BgrA710,
    RgbA710,
    /// channel numbers are taken modulo the number of channels; repeated destinations and factors on the
    /// destination itself are dropped (such programs have no inverse)
    Custom(Vec<Transform>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Case {
    pub w: u32,
    pub h: u32,
    pub layers: u16,
    pub channels: u16,
    pub quality: u16,
    pub chroma: u8,
    pub block: u8,
    pub filter: u8,
    pub encoder: u8,
    pub intent: u8,
    pub prog: Prog,
    pub content: Vec<Content>,
}

pub const INTENTS: [u8; 6] = [0, 7, 8, 10, 11, 12];

pub fn intent(i: u8) -> Intent {
    match i {
        0 => Intent::Generic,
        7 => Intent::RGB,
        8 => Intent::RGBA,
        10 => Intent::BGR,
        11 => Intent::BGRA,
        _ => Intent::YUV444,
    }
}
pub fn filter(i: u8) -> Filter {
    if i == 0 {
        Filter::Linear
    } else {
        Filter::Cubic
    }
}
pub fn encoder(i: u8) -> Encoder {
    match i {
        0 => Encoder::Turbo,
        1 => Encoder::Fast,
        _ => Encoder::Contextual,
    }
}

impl Case {
    pub fn n(&self) -> usize {
        self.layers as usize * self.channels as usize
    }
    pub fn pixels(&self) -> usize {
        self.w as usize * self.h as usize
    }
    pub fn samples(&self) -> usize {
        self.pixels() * self.n()
    }
    pub fn header(&self) -> Header {
        self.try_header().expect("valid header parameters")
    }
    pub fn try_header(&self) -> Result<Header, String> {
        HeaderBuilder {
            width: self.w,
            height: self.h,
            layers: self.layers,
            channels: self.channels,
            quality: self.quality,
            chroma_scale: self.chroma,
            block_size: self.block,
            filter: filter(self.filter),
            encoder: encoder(self.encoder),
            intent: intent(self.intent),
            metadata_size: 0,
        }
        .build()
        .map_err(|e| e.to_string())
    }
    pub fn image(&self) -> Vec<u8> {
        interleaved(&self.content, self.w as usize, self.h as usize, self.layers as usize, self.channels as usize)
    }
    /// The program as resolved for this number of channels.
    pub fn transforms(&self) -> Vec<Transform> {
        resolve(&self.prog, self.n())
    }
    pub fn program(&self) -> ColorTransformProgram {
        to_program(&self.transforms())
    }
    pub fn preset(&self) -> Option<ColorTransformProgram> {
        if self.n() < 3 {
            return None;
        }
        match self.prog {
            Prog::Yuv444 => Some(ColorTransformProgram::yuv444_to_yuv444()),
            Prog::RgbYuv => Some(ColorTransformProgram::rgb_to_yuv()),
            Prog::BgrA710 => Some(ColorTransformProgram::bgr_to_a710()),
            Prog::RgbA710 => Some(ColorTransformProgram::rgb_to_a710()),
            _ => None,
        }
    }
    /// The original keeps denominators in 16 bits.
    pub fn reference_can(&self) -> bool {
        self.transforms().iter().all(|t| t.den <= 32767)
    }
    pub fn is_chroma(&self) -> Vec<bool> {
        let mut v = vec![false; self.n()];
        for t in self.transforms() {
            v[t.dest] = t.chroma;
        }
        v
    }
    /// Generous size of an output buffer: every block gets room for the worst code lengths.
    pub fn roomy(&self) -> usize {
        let blocks: usize = self.levels().iter().map(|l| l.blocks).sum();
        // blocks of a level have equal room, however small the ones at the border are
        let widest = |l: &Level| l.blocks * (l.bs / l.step).min((self.w as usize).div_ceil(l.step)) * (l.bs / l.step).min((self.h as usize).div_ceil(l.step));
        let level = self.levels().iter().map(widest).max().unwrap_or(0);
        4096 + (self.samples() + level) * 12 + blocks * 64
    }
    /// The levels, coarse to fine, as the format defines them.
    pub fn levels(&self) -> Vec<Level> {
        let (w, h) = (self.w as usize, self.h as usize);
        let mut step = 1usize;
        while step * 2 < w || step * 2 < h {
            step *= 2;
        }
        let mut v = vec![];
        while step >= 1 {
            let bs = step << self.block;
            let bx = w.div_ceil(bs);
            let by = h.div_ceil(bs);
            v.push(Level { step, bs, bx, by, blocks: bx * by * self.n() });
            step /= 2;
        }
        v
    }
    pub fn top_step(&self) -> usize {
        self.levels()[0].step
    }
    pub fn classify(&self, obs: &mut crate::Obs) {
        obs.label(["linear", "cubic"][self.filter.min(1) as usize]);
        obs.label(["turbo", "fast", "contextual"][self.encoder.min(2) as usize]);
        obs.label(if self.quality == 1024 { "quality=max" } else { "quality<max" });
        obs.label(match self.prog {
            Prog::None => "no colour program",
            Prog::Custom(_) => "custom colour program",
            _ => "preset colour program",
        });
        let l = self.levels();
        if l.iter().any(|l| l.blocks > self.n()) {
            obs.label("several blocks per channel");
        }
        if l.len() >= 8 {
            obs.label("8 or more levels");
        }
        if self.samples() > 128 * 128 {
            obs.label("above every parallel threshold");
        } else if self.pixels() > 64 * 64 {
            obs.label("above some parallel threshold");
        }
        if self.w == 1 || self.h == 1 {
            obs.label("one row or column");
        }
        if self.layers > 1 {
            obs.label("several layers");
        }
        if self.n() > 4 {
            obs.label("more than 4 channels in all");
        }
        if self.w.max(self.h) > 4096 {
            obs.label("a side over 4096");
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Level {
    pub step: usize,
    pub bs: usize,
    pub bx: usize,
    pub by: usize,
    pub blocks: usize,
}

pub fn resolve(p: &Prog, n: usize) -> Vec<Transform> {
    let t = |dest, factors: &[(usize, i32)], den, chroma| Transform { dest, factors: factors.to_vec(), den, chroma };
    if n < 3 && !matches!(p, Prog::Custom(_)) {
        return vec![];
    }
    match p {
        Prog::None => vec![],
        Prog::Yuv444 => vec![t(1, &[], 1, true), t(2, &[], 1, true)],
        Prog::RgbYuv => vec![t(0, &[(1, -1)], 1, true), t(2, &[(1, -1)], 1, true), t(1, &[(0, 1), (2, 1)], 4, false)],
        Prog::BgrA710 => vec![
            t(2, &[(1, -1)], 1, true),
            t(0, &[(1, -2), (2, -1)], 2, true),
            t(1, &[(0, 2), (2, 3)], 8, false),
        ],
        Prog::RgbA710 => vec![
            t(0, &[(1, -1)], 1, true),
            t(2, &[(1, -2), (0, -1)], 2, true),
            t(1, &[(2, 2), (0, 3)], 8, false),
        ],
        Prog::Custom(v) => {
            let mut used = vec![false; n];
            let mut out = vec![];
            for x in v {
                let dest = x.dest % n;
                if used[dest] {
                    continue;
                }
                used[dest] = true;
                let factors = x.factors.iter().map(|&(s, f)| (s % n, f)).filter(|&(s, _)| s != dest).collect();
                out.push(Transform { dest, factors, den: x.den, chroma: x.chroma });
            }
            out
        }
    }
}

pub fn to_program(ts: &[Transform]) -> ColorTransformProgram {
    let mut p = ColorTransformProgram::new();
    for t in ts {
        let mut b = ChannelTransformBuilder::with_dest_channel(t.dest);
        for &(s, f) in &t.factors {
            b.add_channel_factor(s, f as isize);
        }
        if t.den != 1 {
            b.set_denominator(t.den as isize);
        }
        if t.chroma {
            b.set_chroma();
        }
        p.add_channel_transform(b.build());
    }
    p
}

/// Integer literals in the library's sources (tests left out) that can serve as sizes or values: thresholds in
/// the code are where its behaviour changes, so generators visit them and their neighbours.
pub fn dictionary() -> &'static Vec<u32> {
    static D: OnceLock<Vec<u32>> = OnceLock::new();
    D.get_or_init(|| {
        let mut v: Vec<u32> = vec![2, 3, 4, 7, 8, 12, 24, 30, 31, 32, 64, 96, 100, 128, 255, 256, 1023, 1024, 2047, 2048, 4096, 9216, 16384, 32767, 32768, 65535, 65536];
        fn walk(d: &std::path::Path, v: &mut Vec<u32>) {
            let Ok(rd) = std::fs::read_dir(d) else { return };
            let mut paths: Vec<_> = rd.flatten().map(|e| e.path()).collect();
            paths.sort();
            for p in paths {
                if p.is_dir() {
                    walk(&p, v);
                } else if p.extension().is_some_and(|e| e == "rs") && !p.ends_with("test.rs") {
                    let Ok(s) = std::fs::read_to_string(&p) else { continue };
                    let b = s.as_bytes();
                    let mut i = 0;
                    let mut last: Option<(u64, usize)> = None;
                    while i < b.len() {
                        let prev_word = i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_');
                        if b[i].is_ascii_digit() && !prev_word {
                            let st = i;
                            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                                i += 1;
                            }
                            let t = s[st..i].replace('_', "");
                            let n = if let Some(x) = t.strip_prefix("0x") {
                                u64::from_str_radix(x.trim_end_matches(|c: char| !c.is_ascii_hexdigit()), 16).ok()
                            } else if let Some(x) = t.strip_prefix("0b") {
                                u64::from_str_radix(x, 2).ok()
                            } else {
                                let e = t.find(|c: char| !c.is_ascii_digit()).unwrap_or(t.len());
                                t[..e].parse::<u64>().ok()
                            };
                            if let Some(n) = n {
                                // `a * b` and `a << b` count by their value as well
                                let more = match last {
                                    Some((a, end)) => match s[end..st].trim() {
                                        "*" => Some(n.saturating_mul(a)),
                                        "<<" if n < 32 => Some(a.min(1 << 30) << n),
                                        _ => None,
                                    },
                                    None => None,
                                };
                                last = Some((more.unwrap_or(n), i));
                                for n in [Some(n), more].into_iter().flatten() {
                                    if (2..=1 << 26).contains(&n) {
                                        v.push(n as u32);
                                    }
                                }
                            }
                        } else {
                            i += 1;
                        }
                    }
                }
            }
        }
        let repo = std::env::var("VH_REPO").unwrap_or_else(|_| "/repo".into());
        walk(&std::path::Path::new(&repo).join("src"), &mut v);
        v.sort();
        v.dedup();
        v
    })
}

/// A dictionary value or a neighbour, at most `max`.
pub fn dict(max: u32) -> impl Strategy<Value = u32> + Clone {
    let vals: Vec<u32> = dictionary().iter().copied().filter(|&v| v <= max).collect();
    (0..vals.len(), -1i64..=1).prop_map(move |(i, d)| ((vals[i] as i64 + d).max(1) as u32).min(max))
}

fn pow2ish(max_log: u32) -> impl Strategy<Value = u32> + Clone {
    (0..=max_log, -1i64..=1).prop_map(|(k, d)| (((1i64 << k) + d).max(1)) as u32)
}

/// Sides whose product is a dictionary value, or just over it.
fn area(max: u32) -> BoxedStrategy<(u32, u32)> {
    (dict(max), prop_oneof![1u32..=8, 1u32..=400], any::<bool>(), 0u32..2)
        .prop_map(|(n, a, turn, more)| {
            let a = a.min(n);
            let b = (n / a + more).max(1);
            if turn {
                (a, b)
            } else {
                (b, a)
            }
        })
        .boxed()
}

/// A dictionary value or a neighbour with either sign.
pub fn signed_dict(max: u32) -> impl Strategy<Value = i32> + Clone {
    (dict(max), any::<bool>()).prop_map(|(v, n)| if n { -(v as i32) } else { v as i32 })
}

/// Width and height. `scale` 0: at most a few thousand pixels; 1: up to about 200 k; 2: adds images of up to 2 M.
pub fn dims(scale: u32) -> BoxedStrategy<(u32, u32)> {
    let mut v: Vec<(u32, BoxedStrategy<(u32, u32)>)> = vec![
        (5, (1u32..=9, 1u32..=9).boxed()),
        (8, (1u32..=70, 1u32..=70).boxed()),
        (3, (pow2ish(6), pow2ish(6)).boxed()),
        (1, (1u32..=3, 1u32..=900).boxed()),
        (1, (1u32..=900, 1u32..=3).boxed()),
    ];
    if scale >= 1 {
        v.push((3, (pow2ish(9), pow2ish(9)).boxed()));
        v.push((2, (1u32..=4, 1u32..=5000).boxed()));
        v.push((2, (1u32..=5000, 1u32..=4).boxed()));
        v.push((1, (1u32..=2, 1u32..=70000).boxed()));
        v.push((1, (1u32..=70000, 1u32..=2).boxed()));
        v.push((3, (60u32..=420, 60u32..=420).boxed()));
        v.push((1, (dict(70000), 1u32..=24).boxed()));
        v.push((1, (1u32..=24, dict(70000)).boxed()));
        v.push((1, (dict(1200), dict(1200)).boxed()));
        v.push((2, area(230_000)));
    }
    if scale >= 2 {
        v.push((1, (400u32..=1500, 400u32..=1500).boxed()));
        v.push((1, (pow2ish(11), pow2ish(11)).boxed()));
        v.push((1, area(2_000_000)));
    }
    Union::new_weighted(v).boxed()
}

pub fn channels() -> BoxedStrategy<(u16, u16)> {
    prop_oneof![
        8 => (Just(1u16), 1u16..=4),
        3 => (1u16..=3, 1u16..=4),
        1 => (1u16..=20, 1u16..=20),
        1 => (Just(1u16), 1u16..=300),
        1 => (1u16..=300, Just(1u16)),
        1 => (Just(1u16), dict(1100)).prop_map(|(l, c)| (l, c as u16)),
        // sums and products that leave 16 bits, on images of a pixel or two
        1 => prop_oneof![
            (250u16..=330, 250u16..=330),
            (Just(1u16), 32_000u16..=65535),
            (32_000u16..=65535, Just(1u16)),
            (2u16..=4, 16_000u16..=34_000),
        ],
    ]
    .boxed()
}

pub fn quality() -> BoxedStrategy<u16> {
    prop_oneof![
        2 => Just(1024u16),
        1 => Just(1023u16),
        2 => 1u16..=16,
        4 => 1u16..=1024,
        1 => dict(1024).prop_map(|v| v as u16),
    ]
    .boxed()
}

pub fn chroma() -> BoxedStrategy<u8> {
    prop_oneof![3 => Just(8u8), 2 => Just(1u8), 1 => Just(2u8), 3 => 1u8..=255].boxed()
}

pub fn block() -> BoxedStrategy<u8> {
    prop_oneof![3 => Just(2u8), 2 => 2u8..=4, 2 => Just(7u8), 1 => Just(30u8), 2 => 2u8..=30].boxed()
}

pub fn content() -> BoxedStrategy<Content> {
    let b = any::<u8>;
    prop_oneof![
        1 => b().prop_map(Content::Const),
        2 => (-200i16..1200, -40i16..40, -40i16..40).prop_map(|(o, dx, dy)| Content::Ramp { o, dx, dy }),
        3 => (any::<u64>(), b(), b()).prop_map(|(seed, lo, hi)| Content::Noise { seed, lo, hi }),
        1 => any::<u64>().prop_map(|seed| Content::Noise { seed, lo: 0, hi: 255 }),
        2 => (any::<u64>(), prop_oneof![2u32..50, 50u32..3000], b(), b())
            .prop_map(|(seed, per, bg, fg)| Content::Sparse { seed, per, bg, fg }),
        1 => (1u8..=9, 1u8..=9, prop_oneof![Just(0u8), b()], prop_oneof![Just(255u8), b()])
            .prop_map(|(px, py, a, b)| Content::Checker { px, py, a, b }),
        3 => (any::<u64>(), prop_oneof![Just(0u8), 0u8..12]).prop_map(|(seed, noise)| Content::Smooth { seed, noise }),
        2 => (any::<u64>(), 1u8..40).prop_map(|(seed, size)| Content::Blocks { seed, size }),
        1 => (b(), b()).prop_map(|(bg, fg)| Content::Last { bg, fg }),
        1 => (b(), prop::collection::vec((any::<u32>(), any::<u32>(), b()), 0..5)).prop_map(|(bg, at)| Content::Spots { bg, at }),
        2 => prop::collection::vec(b(), 1..40).prop_map(Content::Raw),
    ]
    .boxed()
}

/// `wild`: any factor and denominator the format can carry; otherwise those of a sensible colour space.
pub fn transform(wild: bool) -> BoxedStrategy<Transform> {
    let f = if wild {
        prop_oneof![6 => -4i32..=4, 2 => -32768i32..=32767, 1 => signed_dict(32767)].boxed()
    } else {
        (-3i32..=3).boxed()
    };
    let d = if wild {
        prop_oneof![2 => Just(1), 2 => 1i32..=16, 1 => 1i32..=32767, 1 => 32768i32..=i32::MAX, 1 => Just(65536), 1 => dict(1 << 26).prop_map(|v| v as i32)].boxed()
    } else {
        prop_oneof![3 => Just(1i32), 1 => Just(2), 1 => Just(4), 1 => Just(8), 2 => 1i32..=16].boxed()
    };
    let c = || prop_oneof![8 => 0usize..12, 1 => 0usize..400];
    (c(), prop_oneof![12 => prop::collection::vec((c(), f.clone()), 0..4), 1 => prop::collection::vec((c(), f), 4..40)], d, any::<bool>())
        .prop_map(|(dest, factors, den, chroma)| Transform { dest, factors, den, chroma })
        .boxed()
}

pub fn prog(wild: bool) -> BoxedStrategy<Prog> {
    prop_oneof![
        6 => Just(Prog::None),
        2 => Just(Prog::Yuv444),
        4 => Just(Prog::RgbYuv),
        2 => Just(Prog::BgrA710),
        2 => Just(Prog::RgbA710),
        8 => prop::collection::vec(transform(wild), 0..5).prop_map(Prog::Custom),
        1 => prop::collection::vec(transform(wild), 5..40).prop_map(Prog::Custom),
    ]
    .boxed()
}

#[derive(Clone)]
pub struct Opts {
    pub scale: u32,
    pub max_samples: usize,
    pub wild: bool,
    pub quality: BoxedStrategy<u16>,
    pub chroma: BoxedStrategy<u8>,
}

impl Default for Opts {
    fn default() -> Self {
        Opts { scale: 1, max_samples: 250_000, wild: false, quality: quality(), chroma: chroma() }
    }
}

pub fn case(o: Opts) -> BoxedStrategy<Case> {
    let max = o.max_samples;
    (
        dims(o.scale),
        channels(),
        o.quality,
        o.chroma,
        block(),
        (0u8..2, 0u8..3, 0usize..INTENTS.len()),
        prog(o.wild),
        prop::collection::vec(content(), 1..4),
    )
        .prop_map(move |((w, h), (layers, channels), quality, chroma, block, (filter, encoder, it), prog, content)| {
            let (mut w, mut h, mut layers, mut channels) = (w, h, layers, channels);
            if layers as usize * channels as usize > 30_000 && max >= 100_000 {
                w = 1 + w % 2;
                h = 1 + (h & 1 & w);
            }
            while w as usize * h as usize * layers as usize * channels as usize > max {
                if layers > 1 {
                    layers /= 2;
                } else if channels > 3 {
                    channels = (channels / 2).max(3);
                } else if w as usize * h as usize > max / 3 {
                    if h >= w {
                        h /= 2
                    } else {
                        w /= 2
                    }
                } else {
                    channels = 1;
                }
            }
            Case {
                w: w.max(1),
                h: h.max(1),
                layers,
                channels,
                quality,
                chroma,
                block,
                filter,
                encoder,
                intent: INTENTS[it],
                prog,
                content,
            }
        })
        .boxed()
}

/// A case whose planes hold samples of 16 bits, for the interface on planar work buffers.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Wide {
    pub case: Case,
    pub mul: i32,
    pub off: i32,
    /// seed and amplitude of noise that is added
    pub noise: (u64, u32),
}

impl Wide {
    pub fn planes(&self) -> Vec<i16> {
        let c = &self.case;
        crate::content::planar(&c.content, c.w as usize, c.h as usize, c.n())
            .iter()
            .enumerate()
            .map(|(i, &v)| {
                let noise = if self.noise.1 == 0 { 0 } else { (crate::content::mix(self.noise.0 ^ i as u64) % (self.noise.1 as u64 + 1)) as i32 };
                (v as i32).wrapping_mul(self.mul).wrapping_add(self.off).wrapping_add(noise) as i16
            })
            .collect()
    }
}

pub fn wide(o: Opts) -> BoxedStrategy<Wide> {
    let mul = prop_oneof![2 => Just(257i32), 2 => -40i32..=40, 1 => -300i32..=300, 1 => any::<i16>().prop_map(|v| v as i32)];
    let off = prop_oneof![1 => Just(0i32), 1 => Just(-32768i32), 1 => -32768i32..=32767];
    let noise = (any::<u64>(), prop_oneof![3 => Just(0u32), 2 => 0u32..20, 1 => 0u32..2000, 1 => Just(65535u32)]);
    (case(o), mul, off, noise).prop_map(|(case, mul, off, noise)| Wide { case, mul, off, noise }).boxed()
}
