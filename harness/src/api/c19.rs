//! Buffers that do not fit.
use super::*;
use gfwx::bits::{BitsIOReader, BitsIOWriter, BitsWriter};
use gfwx::processing::image::Image;
use gfwx::{compress_aux_data, decompress_aux_data, interleaved_to_planar, planar_to_interleaved, ChannelTransformBuilder, ColorTransformProgram};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::ops::{Deref, DerefMut};
use vh::content::mix;
use vh::gen::{self, Opts, Transform};
use vh::run::no_panic;
use vh::{ensure, Ctx, Obs, Res};

/// Difference between the length that fits and the one that is passed.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Off {
    Fits,
    Empty,
    By(i16),
    /// in 256ths of the right length
    Part(u16),
    /// the length that fits this many pixels more or fewer a row
    Row(i8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Call {
    CompressSimple,
    CompressAux,
    DecompressSimple { d: u8, own: bool, test: bool },
    DecompressAux { d: u8, own: bool, test: bool },
    Transform { planar: bool },
    Detransform { planar: bool, size: Off },
    ToPlanar { channels: u8, boost: i16 },
    ToInterleaved { channels: u8, boost: i16 },
    Lift { filter: u8, inverse: bool, rows: Vec<Off> },
    Quant { inverse: bool, rows: Vec<Off> },
    Block { chunk: u16, step: u8, decode: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mis {
    case: Case,
    /// the program as it is, with channels that may not exist
    prog: Option<Vec<Transform>>,
    call: Call,
    image: Off,
    work: Off,
    list: Off,
    out: Off,
    seed: u64,
    /// fields of the header (they are public) that were changed after it was built
    #[serde(default)]
    edits: Vec<(u8, u32)>,
}

fn edited(m: &Mis) -> gfwx::Header {
    let mut h = m.case.header();
    for &(field, v) in &m.edits {
        match field % 10 {
            0 => h.width = v,
            1 => h.height = v,
            2 => h.layers = v as u16,
            3 => h.channels = v as u16,
            4 => h.quality = v as u16,
            5 => h.chroma_scale = v as u8,
            6 => h.block_size = v as u8,
            7 => h.bit_depth = v as u8,
            8 => h.channel_size = v as usize % 300_000,
            _ => h.image_size = v as usize % 300_000,
        }
    }
    h
}

/// A buffer that has nothing around it under the address sanitizer, and guard bytes otherwise.
struct Buf<T> {
    all: Box<[T]>,
    guard: usize,
    fill: T,
}

impl<T: Copy + PartialEq> Buf<T> {
    fn new(v: Vec<T>, fill: T) -> Self {
        let guard = if cfg!(feature = "plain_alloc") { 0 } else { 4096 };
        let mut all = Vec::with_capacity(v.len() + 2 * guard);
        all.extend(std::iter::repeat(fill).take(guard));
        all.extend_from_slice(&v);
        all.extend(std::iter::repeat(fill).take(guard));
        Buf { all: all.into_boxed_slice(), guard, fill }
    }
    fn intact(&self, what: &str) -> Res {
        let n = self.all.len();
        for i in (0..self.guard).chain(n - self.guard..n) {
            ensure!(self.all[i] == self.fill, "{what}: element {} outside of a buffer of {} was written", i as i64 - self.guard as i64, n - 2 * self.guard);
        }
        Ok(())
    }
}
impl<T> Deref for Buf<T> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        let n = self.all.len();
        &self.all[self.guard..n - self.guard]
    }
}
impl<T> DerefMut for Buf<T> {
    fn deref_mut(&mut self) -> &mut [T] {
        let n = self.all.len();
        &mut self.all[self.guard..n - self.guard]
    }
}

/// A call that succeeds leaves what it has no use for alone.
fn surplus<T: Copy + PartialEq>(what: &str, now: &[T], before: &[T], used: usize, outcome: &Result<bool, String>) -> Res {
    if *outcome == Ok(true) && now.len() > used {
        if let Some(i) = (used..now.len()).find(|&i| now[i] != before[i]) {
            return Err(format!("{what}: element {i} of {} was written, though only {used} are needed", now.len()));
        }
    }
    Ok(())
}

fn len(o: Off, right: usize, width: usize) -> usize {
    let v = match o {
        Off::Fits => right as i64,
        Off::Empty => 0,
        Off::By(d) => right as i64 + d as i64,
        Off::Part(p) => right as i64 * p as i64 / 256,
        Off::Row(k) => {
            let w = width.max(1) as i64;
            right as i64 / w * (w + k as i64).max(0)
        }
    };
    v.clamp(0, 200_000) as usize
}

fn program(m: &Mis) -> ColorTransformProgram {
    match &m.prog {
        None => m.case.program(),
        Some(v) => {
            let mut p = ColorTransformProgram::new();
            for t in v {
                let mut b = ChannelTransformBuilder::with_dest_channel(t.dest);
                for &(s, f) in &t.factors {
                    b.add_channel_factor(s, f as isize);
                }
                b.set_denominator(t.den as isize);
                if t.chroma {
                    b.set_chroma();
                }
                p.add_channel_transform(b.build());
            }
            p
        }
    }
}

fn check(m: &Mis, o: &mut Obs) -> Res {
    let case = &m.case;
    let (n, w, h) = (case.n(), case.w as usize, case.h as usize);
    let px = w * h;
    let hd = edited(m);
    // what the header claims, however much that is
    let claim = |d: usize| -> usize {
        let side = |v: u32| ((v as u128 + (1u128 << d.min(100)) - 1) >> d.min(100)).max(if v == 0 { 0 } else { 1 });
        let all = (side(hd.width) * side(hd.height)).saturating_mul(hd.layers as u128 * hd.channels as u128);
        all.min(usize::MAX as u128) as usize
    };
    let claimed_list = hd.layers as usize * hd.channels as usize;
    o.label_if(!m.edits.is_empty(), "edited header");
    let prog = program(m);
    let bytes = |n: usize| -> Vec<u8> { (0..n).map(|i| mix(m.seed ^ i as u64) as u8).collect() };
    let words = |n: usize| -> Vec<i16> { (0..n).map(|i| (mix(m.seed ^ i as u64) % 2000) as i16 - 1000).collect() };
    let img = Buf::new(bytes(len(m.image, n * px, w)), 0x6b);
    let list: Buf<bool> = Buf::new((0..len(m.list, n, 1)).map(|k| mix(m.seed ^ k as u64) % 2 == 0).collect(), false);
    let top = case.top_step().trailing_zeros() as usize;
    // a stream that was made for this header, or for another one
    let stream = |own: bool| -> Vec<u8> {
        let mut c = case.clone();
        if !own {
            c.w = 1 + (mix(m.seed) % 40) as u32;
            c.h = 1 + (mix(m.seed ^ 1) % 40) as u32;
            c.encoder = (mix(m.seed ^ 2) % 3) as u8;
            c.block = 2 + (mix(m.seed ^ 3) % 6) as u8;
        }
        let mut b = vec![0u8; c.roomy()];
        let k = compress_simple(&c.image(), &c.header(), &c.program(), &mut b).unwrap();
        b[HEADER..k].to_vec()
    };
    if !m.edits.is_empty() || m.prog.is_some() || [m.image, m.work, m.list, m.out].iter().any(|x| !matches!(x, Off::Fits)) {
        o.nontrivial();
    }
    o.label(match m.call {
        Call::CompressSimple => "compress_simple",
        Call::CompressAux => "compress_aux_data",
        Call::DecompressSimple { .. } => "decompress_simple",
        Call::DecompressAux { .. } => "decompress_aux_data",
        Call::Transform { .. } => "transform*",
        Call::Detransform { .. } => "detransform*",
        Call::ToPlanar { .. } => "interleaved_to_planar",
        Call::ToInterleaved { .. } => "planar_to_interleaved",
        Call::Lift { .. } => "lift_*, unlift_*",
        Call::Quant { .. } => "quantize, dequantize",
        Call::Block { .. } => "encode, decode",
    });
    let kept = |channels: u8| (0..channels as usize).filter(|&c| c != m.seed as usize % 5).count();
    // outcome: Err for a panic, Ok(true) for success, Ok(false) for an error
    let outcome: Result<bool, String>;
    let mut too_short = false;
    match &m.call {
        Call::CompressSimple => {
            let mut out = Buf::new(bytes(len(m.out, 2000 + 8 * n * px, 1)), 0x5c);
            too_short = img.len() < n * px;
            outcome = no_panic(|| compress_simple(&img, &hd, &prog, &mut out).is_ok());
            out.intact("output")?;
        }
        Call::CompressAux => {
            let mut aux = Buf::new(words(len(m.work, n * px, w)), 0x3c3c);
            let mut out = Buf::new(bytes(len(m.out, 2000 + 8 * n * px, 1)), 0x5c);
            too_short = aux.len() < claim(0) || list.len() < claimed_list;
            let before = aux.to_vec();
            outcome = no_panic(|| compress_aux_data(&mut aux, &hd, &list, &mut out).is_ok());
            aux.intact("samples")?;
            surplus("samples", &aux, &before, claim(0), &outcome)?;
            out.intact("output")?;
        }
        Call::DecompressSimple { d, own, test } => {
            let d = *d as usize % (top + 3);
            let data = Buf::new(stream(*own), 0x11);
            let right = hd.get_decompress_buffer_size(d);
            let mut out = Buf::new(bytes(len(m.out, right, w.div_ceil(1 << d))), 0x5c);
            too_short = !*test && out.len() < right;
            let before = out.to_vec();
            outcome = no_panic(|| decompress_simple(&data, &hd, d, *test, &mut out).is_ok());
            out.intact("output")?;
            surplus("output", &out, &before, if *test { 0 } else { right }, &outcome)?;
            data.intact("data")?;
        }
        Call::DecompressAux { d, own, test } => {
            let d = if *d < 12 { *d as usize % (top + 3) } else { *d as usize };
            let data = Buf::new(stream(*own), 0x11);
            let plen = if m.seed % 2 == 0 { c08::program_len(case).unwrap_or(0).min(data.len()) } else { 0 };
            let right = claim(d);
            let fitting = n * w.div_ceil(1 << d.min(40)) * h.div_ceil(1 << d.min(40));
            let mut aux = Buf::new(words(len(m.work, fitting, w.div_ceil(1 << d.min(40)))), 0x3c3c);
            // (the shifts of a release build take the level modulo 64)
            too_short = d < 64 && (aux.len() < right || list.len() < claimed_list);
            let right = if d < 64 { right } else { aux.len() };
            let before = aux.to_vec();
            outcome = no_panic(|| decompress_aux_data(&data[plen..], &hd, &list, d, *test, &mut aux).is_ok());
            aux.intact("samples")?;
            surplus("samples", &aux, &before, if *test { 0 } else { right }, &outcome)?;
        }
        Call::Transform { planar } => {
            let mut aux = Buf::new(words(len(m.work, n * px, w)), 0x3c3c);
            let before = aux.to_vec();
            let used = claimed_list * hd.channel_size;
            too_short = img.len() < used || aux.len() < used;
            outcome = no_panic(|| {
                if *planar {
                    prog.transform(&img, &hd, &mut aux)
                } else {
                    prog.transform_and_to_planar(&img, &hd, &mut aux)
                }
                true
            });
            aux.intact("samples")?;
            surplus("samples", &aux, &before, used, &outcome)?;
        }
        Call::Detransform { planar, size } => {
            let mut aux = Buf::new(words(len(m.work, n * px, w)), 0x3c3c);
            let mut out = Buf::new(bytes(len(m.out, n * px, w)), 0x5c);
            let size = len(*size, px, w);
            // in planar form all samples that are there are converted, and nothing is read beyond
            let used = if *planar { aux.len() } else { claimed_list * size };
            too_short = out.len() < used || aux.len() < used;
            let before = out.to_vec();
            outcome = no_panic(|| {
                if *planar {
                    prog.detransform(&mut aux, &hd, size, &mut out)
                } else {
                    prog.detransform_and_to_interleaved(&mut aux, &hd, size, &mut out)
                }
                true
            });
            aux.intact("samples")?;
            out.intact("output")?;
            surplus("output", &out, &before, used, &outcome)?;
        }
        Call::ToPlanar { channels, boost } => {
            let mut aux = Buf::new(words(len(m.work, n * px, w)), 0x3c3c);
            let used = kept(*channels) * img.len().checked_div(*channels as usize).unwrap_or(0);
            too_short = aux.len() < used;
            let before = aux.to_vec();
            outcome = no_panic(|| {
                interleaved_to_planar(&img, *channels as usize, *boost, &mut aux, &[m.seed as usize % 5]);
                true
            });
            aux.intact("samples")?;
            surplus("samples", &aux, &before, used, &outcome)?;
        }
        Call::ToInterleaved { channels, boost } => {
            let aux = Buf::new(words(len(m.work, n * px, w)), 0x3c3c);
            let mut out = Buf::new(bytes(len(m.out, n * px, w)), 0x5c);
            let size = out.len().checked_div(*channels as usize).unwrap_or(0);
            too_short = aux.len() < kept(*channels) * size;
            let before = out.to_vec();
            outcome = no_panic(|| {
                planar_to_interleaved(&aux, *channels as usize, *boost, &mut out, &[m.seed as usize % 5]);
                true
            });
            out.intact("output")?;
            surplus("output", &out, &before, size * *channels as usize, &outcome)?;
        }
        Call::Lift { rows, .. } | Call::Quant { rows, .. } => {
            let mut bufs: Vec<Buf<i16>> = (0..h.min(40)).map(|y| Buf::new(words(len(if rows.is_empty() { Off::Fits } else { rows[y % rows.len()] }, w, 1)), 0x3c3c)).collect();
            outcome = {
                let mut refs: Vec<&mut [i16]> = bufs.iter_mut().map(|b| &mut b[..]).collect();
                no_panic(|| {
                    match &m.call {
                        Call::Lift { filter: 0, inverse: false, .. } => gfwx::lifting::lift_linear(&mut refs),
                        Call::Lift { filter: 0, inverse: true, .. } => gfwx::lifting::unlift_linear(&mut refs),
                        Call::Lift { inverse: false, .. } => gfwx::lifting::lift_cubic(&mut refs),
                        Call::Lift { inverse: true, .. } => gfwx::lifting::unlift_cubic(&mut refs),
                        Call::Quant { inverse: false, .. } => gfwx::quant::quantize(&mut refs, case.quality as i32, 0, 8192),
                        _ => gfwx::quant::dequantize(&mut refs, case.quality as i32, 0, 8192),
                    }
                    true
                })
            };
            for b in &bufs {
                b.intact("row")?;
            }
        }
        Call::Block { chunk, step, decode } => {
            let mut aux = Buf::new(words(len(m.work, n * px, w)), 0x3c3c);
            let mut out = vec![0u8; 4000 + 10 * n * px];
            let data = bytes(300);
            too_short = aux.len() < n * px;
            let step = 1usize << (step % 6);
            let chunk = (*chunk as usize).max(1) * step;
            outcome = no_panic(|| {
                let image = Image::from_slice(&mut aux, (w, h), n);
                let mut ok = true;
                for (i, c) in image.into_chunks_mut(chunk, step).enumerate().take(5000) {
                    if *decode {
                        let mut rd = &data[..];
                        ok &= gfwx::encode::decode(c, &mut BitsIOReader::new(&mut rd), gen::encoder(case.encoder), 500, i == 0, false).is_ok();
                    } else {
                        let mut wr = &mut out[..];
                        let mut bw = BitsIOWriter::new(&mut wr);
                        ok &= gfwx::encode::encode(&c, &mut bw, gen::encoder(case.encoder), 500, i == 0, false).is_ok();
                        ok &= bw.flush_write_word().is_ok();
                    }
                }
                ok
            });
            aux.intact("samples")?;
            too_short &= !*decode;
        }
    }
    img.intact("image")?;
    list.intact("chroma list")?;
    match &outcome {
        Err(_) => o.label("panic"),
        Ok(false) => o.label("error"),
        Ok(true) => o.label("success"),
    }
    ensure!(!(too_short && outcome == Ok(true)), "{:?} succeeds with a buffer or list that is too short", m.call);
    Ok(())
}

fn off() -> BoxedStrategy<Off> {
    prop_oneof![
        3 => Just(Off::Fits),
        1 => Just(Off::Empty),
        2 => (-9i16..=9).prop_map(Off::By),
        1 => (-300i16..=300).prop_map(Off::By),
        2 => (0u16..=640).prop_map(Off::Part),
        1 => (-2i8..=3).prop_map(Off::Row),
    ]
    .boxed()
}

fn call() -> BoxedStrategy<Call> {
    let b = any::<bool>;
    prop_oneof![
        2 => Just(Call::CompressSimple),
        4 => Just(Call::CompressAux),
        2 => (0u8..12, b(), b()).prop_map(|(d, own, test)| Call::DecompressSimple { d, own, test }),
        4 => (0u8..12, b(), prop_oneof![4 => Just(false), 1 => Just(true)]).prop_map(|(d, own, test)| Call::DecompressAux { d, own, test }),
        2 => b().prop_map(|planar| Call::Transform { planar }),
        2 => (b(), off()).prop_map(|(planar, size)| Call::Detransform { planar, size }),
        1 => (0u8..6, -2i16..=9).prop_map(|(channels, boost)| Call::ToPlanar { channels, boost }),
        1 => (0u8..6, -2i16..=9).prop_map(|(channels, boost)| Call::ToInterleaved { channels, boost }),
        2 => (0u8..2, b(), prop::collection::vec(off(), 0..6)).prop_map(|(filter, inverse, rows)| Call::Lift { filter, inverse, rows }),
        1 => (b(), prop::collection::vec(off(), 0..6)).prop_map(|(inverse, rows)| Call::Quant { inverse, rows }),
        3 => (1u16..12, any::<u8>(), b()).prop_map(|(chunk, step, decode)| Call::Block { chunk, step, decode }),
    ]
    .boxed()
}

fn loose() -> BoxedStrategy<Option<Vec<Transform>>> {
    let t = (prop_oneof![4 => 0usize..5, 1 => 0usize..40], prop::collection::vec((prop_oneof![4 => 0usize..5, 1 => 0usize..40], -4i32..=4), 0..4), 1i32..9, any::<bool>())
        .prop_map(|(dest, factors, den, chroma)| Transform { dest, factors, den, chroma });
    prop_oneof![2 => Just(None), 1 => prop::collection::vec(t, 0..4).prop_map(Some)].boxed()
}

fn strat(o: Opts) -> BoxedStrategy<Mis> {
    (gen::case(o), loose(), call(), off(), off(), off(), off(), any::<u64>())
        .prop_map(|(case, prog, call, image, work, list, out, seed)| Mis { case, prog, call, image, work, list, out, seed, edits: vec![] })
        .boxed()
}

/// Calls that get a header and buffers of the caller's, with fields of the header changed.
fn with_edits() -> BoxedStrategy<Mis> {
    let b = any::<bool>;
    let call = prop_oneof![
        2 => Just(Call::CompressAux),
        2 => (prop_oneof![3 => 0u8..12, 1 => any::<u8>()], b(), prop_oneof![4 => Just(false), 1 => Just(true)]).prop_map(|(d, own, test)| Call::DecompressAux { d, own, test }),
        1 => b().prop_map(|planar| Call::Transform { planar }),
        1 => (b(), off()).prop_map(|(planar, size)| Call::Detransform { planar, size }),
    ];
    let value = prop_oneof![
        4 => 0u32..=3,
        4 => 0u32..=70,
        1 => 0u32..70_000,
        2 => (0u32..32, -1i64..=1).prop_map(|(k, d)| ((1i64 << k) + d) as u32),
        1 => any::<u32>(),
    ];
    (strat(Opts { scale: 0, max_samples: 1_500, ..Default::default() }), call, prop::collection::vec((any::<u8>(), value), 0..5))
        .prop_map(|(mut m, call, edits)| {
            m.call = call;
            m.edits = edits;
            m
        })
        .boxed()
}

pub fn run(ctx: &mut Ctx) {
    ctx.check(
        "small",
        "every public function that takes buffers, with images, work buffers, chroma lists and outputs that are empty, too short, too long or fit, and programs with channels that may not exist; any outcome but an access outside of the buffers, and no success where something is too short; non-trivial: something does not fit",
        160_000,
        || strat(Opts { scale: 0, max_samples: 1_500, ..Default::default() }),
        check,
    );
    ctx.check("edited", "headers with public fields changed after they were built (sizes, counts, qualities, block sizes of any value), and downsamplings of up to 255; non-trivial: something does not fit", 60_000, with_edits, check);
    ctx.check("medium", "as small, with images of up to 60 000 samples", 3_000, || strat(Opts { scale: 1, max_samples: 60_000, ..Default::default() }), check);
}
