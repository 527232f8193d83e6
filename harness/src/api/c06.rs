//! Arbitrary bytes.
use super::c08::program_len;
use super::*;
use gfwx::bits::{BitsIOWriter, BitsWriter};
use gfwx::encode::signed_code;
use gfwx::{decompress_aux_data, ColorTransformProgram};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::alloc::{process_peak, thread_peak};
use vh::content::{mix, Content};
use vh::gen::{self, Opts};
use vh::run::no_panic;
use vh::{ensure, layout, Ctx, Obs, Res};

/// What memory the library may take: the samples of the output several times over, and lists that grow with the input.
fn bound(samples: usize, input: usize) -> usize {
    64 * samples + 256 * input + (256 << 10)
}

// ---------------------------------------------------------------- headers

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Head {
    bytes: Vec<u8>,
}

fn header_bytes(b: &Head, o: &mut Obs) -> Res {
    let (r, peak) = thread_peak(|| Header::decode(&mut &b.bytes[..]));
    ensure!(peak <= 4096, "reading a header of {} bytes takes {peak} bytes", b.bytes.len());
    match r {
        Err(_) => o.label("rejected"),
        Ok(h) => {
            o.nontrivial();
            o.label("accepted");
            for d in 0..=31 {
                let n = h.get_downsampled_image_size(d);
                ensure!(h.get_decompress_buffer_size(d) >= n, "buffer of {} for {n} samples", h.get_decompress_buffer_size(d));
                ensure!(h.get_downsampled_channel_size(d) == h.get_downsampled_width(d) * h.get_downsampled_height(d), "sizes at {d}");
            }
            ensure!(h.get_chroma_quality() >= 1, "chroma quality {}", h.get_chroma_quality());
            ensure!(h.get_boost() == 1 || h.get_boost() == 8, "boost {}", h.get_boost());
            ensure!(h.get_image_size() >= h.get_channel_size(), "image size");
            let mut w = vec![];
            h.encode(&mut w).map_err(|e| e.to_string())?;
        }
    }
    Ok(())
}

fn head() -> BoxedStrategy<Head> {
    let word = || prop_oneof![4 => any::<u32>(), 2 => 0u32..70000, 1 => (0u32..32).prop_map(|k| 1 << k), 1 => (0u32..32).prop_map(|k| (1u32 << k).wrapping_sub(1)), 1 => Just(u32::MAX), 1 => gen::dict(1 << 26)];
    let nearly = (
        prop_oneof![9 => Just(u32::from_le_bytes(*b"GFWX")), 1 => any::<u32>()],
        any::<u32>(),
        (word(), word()),
        (prop_oneof![3 => 0u16..6, 1 => any::<u16>()], prop_oneof![3 => 0u16..6, 1 => any::<u16>(), 1 => Just(65535u16)]),
        (prop_oneof![3 => 0u32..1 << 23, 1 => any::<u32>()], prop_oneof![8 => 0u8..9, 1 => any::<u8>()]),
        (prop_oneof![9 => (0usize..6).prop_map(|i| gen::INTENTS[i]), 1 => 0u8..14, 1 => any::<u8>()], prop_oneof![9 => 0u8..3, 1 => any::<u8>()], prop_oneof![9 => Just(0u8), 1 => any::<u8>()], prop_oneof![9 => 0u8..2, 1 => any::<u8>()]),
        prop_oneof![3 => 0u32..100, 1 => word()],
        (0usize..45, any::<[bool; 4]>()),
    )
        .prop_map(|(magic, version, (mut w, mut h), (ch, la), (bits, depth), (intent, enc, quant, filt), meta, (cut, small))| {
            // mostly of a size that fits
            if small[0] || small[1] {
                w &= 0x3fff;
                h &= 0x3fff;
            }
            let mut v = vec![];
            v.extend(magic.to_le_bytes());
            v.extend(version.to_le_bytes());
            v.extend(w.to_le_bytes());
            v.extend(h.to_le_bytes());
            v.extend(ch.to_le_bytes());
            v.extend(la.to_le_bytes());
            v.extend(&bits.to_le_bytes()[..3]);
            v.push(depth);
            v.extend([intent, enc, quant, filt]);
            v.extend(meta.to_le_bytes());
            if small[2] && small[3] {
                v.truncate(cut);
            }
            Head { bytes: v }
        });
    let wild = prop::collection::vec(any::<u8>(), 0..80).prop_map(|bytes| Head { bytes });
    prop_oneof![8 => nearly, 1 => wild].boxed()
}

// ---------------------------------------------------------------- colour programs

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Codes {
    Bytes(Vec<u8>),
    /// written as codes of the program, in any order and number
    Codes(Vec<i32>),
    /// transforms that are what they should be, but for some values
    Like(Vec<(i32, Vec<(i32, i32)>, i32, i32)>),
}

impl Codes {
    fn bytes(&self, tail: &[u8]) -> Vec<u8> {
        let mut list: Vec<i32> = vec![];
        match self {
            Codes::Bytes(b) => return b.clone(),
            Codes::Codes(v) => list.extend(v),
            Codes::Like(v) => {
                for (dest, factors, den, chroma) in v {
                    list.push(*dest);
                    for (s, f) in factors {
                        list.extend([*s, *f]);
                    }
                    list.extend([-1, *den, *chroma]);
                }
                list.push(-1);
            }
        }
        let mut out = vec![];
        {
            let mut w = BitsIOWriter::new(&mut out);
            for v in list {
                // the code holds 31 bits and a sign
                signed_code(v.max(-i32::MAX), &mut w, 2).unwrap();
            }
            w.flush_write_word().unwrap();
        }
        out.extend_from_slice(tail);
        out
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Program {
    codes: Codes,
    channels: u16,
}

fn program_bytes(p: &Program, o: &mut Obs) -> Res {
    let bytes = p.codes.bytes(&[]);
    let mut chroma = vec![false; p.channels as usize];
    let mut rd = &bytes[..];
    let (r, peak) = thread_peak(|| ColorTransformProgram::decode(&mut rd, &mut chroma));
    ensure!(peak <= bound(0, bytes.len()), "a program of {} bytes takes {peak} bytes", bytes.len());
    match r {
        Err(_) => o.label("rejected"),
        Ok(p) => {
            o.label("accepted");
            o.label_if(p.iter().next().is_some(), "accepted, with transforms");
            if p.iter().next().is_some() {
                o.nontrivial();
            }
            ensure!(p.iter().all(|t| t.denominator > 0), "denominator {:?} read", p.iter().map(|t| t.denominator).collect::<Vec<_>>());
            ensure!(p.iter().all(|t| t.dest_channel < chroma.len() && t.channel_factors.iter().all(|f| f.src_channel < chroma.len())), "a channel that does not exist was read");
        }
    }
    Ok(())
}

fn code_value() -> BoxedStrategy<i32> {
    prop_oneof![6 => -3i32..6, 2 => -40i32..300, 2 => any::<i32>(), 1 => Just(i32::MAX), 1 => Just(i32::MIN), 1 => Just(i32::MIN + 1), 1 => Just(65536), 1 => Just(32768), 1 => (0u32..31).prop_map(|k| 1 << k), 1 => (0u32..31).prop_map(|k| -1 << k)].boxed()
}

fn codes() -> BoxedStrategy<Codes> {
    let ch = || prop_oneof![9 => 0i32..4, 1 => code_value()];
    let like = (ch(), prop::collection::vec((ch(), code_value()), 0..4), prop_oneof![4 => 1i32..20, 1 => code_value()], prop_oneof![3 => 0i32..2, 1 => code_value()]);
    prop_oneof![
        2 => prop::collection::vec(prop_oneof![2 => any::<u8>(), 1 => Just(0u8), 1 => Just(0xffu8)], 0..60).prop_map(Codes::Bytes),
        2 => prop::collection::vec(code_value(), 0..30).prop_map(Codes::Codes),
        4 => prop::collection::vec(like, 0..5).prop_map(Codes::Like),
    ]
    .boxed()
}

// ---------------------------------------------------------------- payloads

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mut {
    /// places are 65536ths of the length
    Flip(u16, u8),
    Byte(u16, u8),
    Word(u16, u32),
    Cut(u16),
    Grow(Vec<u8>),
    Delete(u16, u8),
    Insert(u16, Vec<u8>),
    Copy(u16, u16, u16),
    /// entry of the size table of a level: a size, or a change of it
    Size { level: u8, block: u16, to: u32, relative: bool },
    /// the bytes of a block of a level
    Fill { level: u8, block: u16, how: u8, seed: u64 },
    /// the bytes of all blocks
    FillAll { how: u8, seed: u64 },
    /// the colour program
    Program(Codes),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Base {
    /// a stream for the header it is decoded with
    Own,
    /// a stream made for another header
    Other(Box<Case>),
    Bytes(Vec<u8>),
    /// right tables, and bytes for the blocks that no encoder wrote, this many words each
    Tables { program: Codes, words: Vec<u8>, how: u8, seed: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fuzz {
    case: Case,
    base: Base,
    muts: Vec<Mut>,
    d: u8,
    chroma: u64,
}

fn fill(how: u8, seed: u64, i: usize) -> u8 {
    let r = mix(seed ^ i as u64);
    match how % 6 {
        0 => 0,
        1 => 0xff,
        2 => r as u8,
        // long runs of zeros
        3 => if r % 24 == 0 { 1 << (r >> 8 & 7) } else { 0 },
        4 => if r % 8 == 0 { 0x11 } else { 0x88 },
        _ => (r & r >> 8 & r >> 16) as u8,
    }
}

fn payload(f: &Fuzz) -> Result<Vec<u8>, String> {
    let case = &f.case;
    let whole = |c: &Case| -> Result<(Vec<u8>, usize, layout::Layout), String> {
        let s = encode(c, &c.header(), &c.image())?;
        let p = s[HEADER..].to_vec();
        let k = program_len(c)?;
        let l = layout::parse(c, &p, k)?;
        Ok((p, k, l))
    };
    let (mut p, mut lay) = match &f.base {
        Base::Own => whole(case).map(|(p, k, l)| (p, Some((k, l))))?,
        Base::Other(c) => whole(c).map(|(p, k, l)| (p, Some((k, l))))?,
        Base::Bytes(b) => (b.clone(), None),
        Base::Tables { program, words, how, seed } => {
            let mut p = program.bytes(&[]);
            let mut i = 0;
            for l in case.levels() {
                let at = p.len();
                p.resize(at + 4 * l.blocks, 0);
                for b in 0..l.blocks {
                    let k = if words.is_empty() { 1 } else { words[(mix(*seed ^ i as u64) % words.len() as u64) as usize] as usize };
                    p[at + 4 * b..at + 4 * b + 4].copy_from_slice(&(k as u32).to_le_bytes());
                    for _ in 0..4 * k {
                        p.push(fill(*how, *seed, i));
                        i += 1;
                    }
                    i += 1;
                }
                if p.len() > 600_000 {
                    break;
                }
            }
            (p, None)
        }
    };
    let at = |p: &Vec<u8>, x: u16| (x as usize * p.len() / 65536).min(p.len().saturating_sub(1));
    for m in &f.muts {
        if p.is_empty() {
            break;
        }
        let moved = matches!(m, Mut::Delete(..) | Mut::Insert(..) | Mut::Program(_) | Mut::Cut(_));
        match m {
            Mut::Flip(x, b) => {
                let i = at(&p, *x);
                p[i] ^= 1 << (b % 8)
            }
            Mut::Byte(x, v) => {
                let i = at(&p, *x);
                p[i] = *v
            }
            Mut::Word(x, v) => {
                let i = at(&p, *x) & !3;
                let e = (i + 4).min(p.len());
                p[i..e].copy_from_slice(&v.to_le_bytes()[..e - i]);
            }
            Mut::Cut(x) => {
                let i = at(&p, *x);
                p.truncate(i)
            }
            Mut::Grow(v) => p.extend(v),
            Mut::Delete(x, n) => {
                let i = at(&p, *x);
                let e = (i + *n as usize).min(p.len());
                p.drain(i..e);
            }
            Mut::Insert(x, v) => {
                let i = at(&p, *x);
                p.splice(i..i, v.iter().copied());
            }
            Mut::Copy(x, y, n) => {
                let (i, j) = (at(&p, *x), at(&p, *y));
                let n = (*n as usize).min(p.len() - i.max(j));
                p.copy_within(i..i + n, j);
            }
            Mut::Size { level, block, to, relative } => {
                if let Some((_, l)) = &lay {
                    let l = &l.levels[*level as usize % l.levels.len()];
                    let b = *block as usize % l.sizes.len();
                    let i = l.table + 4 * b;
                    if i + 4 <= p.len() {
                        let v = if *relative { (l.sizes[b] as u32 / 4).wrapping_add(*to) } else { *to };
                        p[i..i + 4].copy_from_slice(&v.to_le_bytes());
                    }
                }
            }
            Mut::Fill { level, block, how, seed } => {
                if let Some((_, l)) = &lay {
                    let l = &l.levels[*level as usize % l.levels.len()];
                    let b = *block as usize % l.sizes.len();
                    let s = l.first + l.sizes[..b].iter().sum::<usize>();
                    for i in s..(s + l.sizes[b]).min(p.len()) {
                        p[i] = fill(*how, *seed, i);
                    }
                }
            }
            Mut::FillAll { how, seed } => {
                if let Some((_, l)) = &lay {
                    for l in &l.levels {
                        for i in l.first..l.end.min(p.len()) {
                            p[i] = fill(*how, *seed, i);
                        }
                    }
                }
            }
            Mut::Program(c) => {
                let k = lay.as_ref().map_or(0, |l| l.0);
                if k <= p.len() {
                    p = c.bytes(&p[k..]);
                }
            }
        }
        if moved {
            lay = None;
        }
    }
    p.truncate(4_000_000);
    Ok(p)
}

fn decode_all(f: &Fuzz, p: &[u8], o: &mut Obs, measure: &dyn Fn(&mut dyn FnMut()) -> usize) -> Res {
    let case = &f.case;
    let h = case.header();
    let d = f.d as usize;
    let n = h.get_downsampled_image_size(d);
    let mut seen = (false, false);
    for test in [false, true] {
        let mut out = vec![0u8; h.get_decompress_buffer_size(d)];
        let mut r = None;
        let peak = measure(&mut || r = Some(no_panic(|| decompress_simple(p, &h, d, test, &mut out))));
        let r = r.unwrap().map_err(|e| format!("panic in decompress_simple, test mode {test}: {e}"))?;
        ensure!(peak <= bound(n, p.len()), "decompress_simple (test mode {test}) takes {peak} bytes for {n} samples and {} bytes of input", p.len());
        match r {
            Err(_) => o.label("rejected"),
            Ok(0) => {
                o.label("decoded");
                seen.0 = true
            }
            Ok(r) => {
                o.label("incomplete");
                seen.1 = true;
                ensure!(r > p.len(), "point of interest {r} is not beyond {} bytes", p.len());
            }
        }
    }
    // the planar interface, with any chroma flags
    let chroma: Vec<bool> = (0..case.n()).map(|k| f.chroma >> (k % 64) & 1 == 1).collect();
    let skip = match &f.base {
        Base::Own | Base::Other(_) if f.chroma % 3 != 0 => program_len(case)?.min(p.len()),
        _ => 0,
    };
    for test in [false, true] {
        let mut aux = vec![0i16; n];
        let mut r = None;
        let peak = measure(&mut || r = Some(no_panic(|| decompress_aux_data(&p[skip..], &h, &chroma, d, test, &mut aux))));
        let r = r.unwrap().map_err(|e| format!("panic in decompress_aux_data, test mode {test}: {e}"))?;
        ensure!(peak <= bound(n, p.len()), "decompress_aux_data (test mode {test}) takes {peak} bytes for {n} samples and {} bytes of input", p.len());
        if let Ok(r) = r {
            seen.0 |= r == 0;
            seen.1 |= r > 0;
            ensure!(r == 0 || r > p.len() - skip, "decompress_aux_data: point of interest {r} is not beyond {} bytes", p.len() - skip);
        }
    }
    if seen.0 || seen.1 {
        o.nontrivial();
    }
    Ok(())
}

fn shared(f: &Fuzz, o: &mut Obs) -> Res {
    let p = payload(f)?;
    decode_all(f, &p, o, &|g| thread_peak(|| g()).1)
}

fn alone(f: &Fuzz, o: &mut Obs) -> Res {
    let p = payload(f)?;
    decode_all(f, &p, o, &|g| process_peak(|| g()).1)
}

fn word() -> BoxedStrategy<u32> {
    prop_oneof![2 => Just(0u32), 2 => Just(u32::MAX), 1 => Just(u32::MAX / 4), 1 => Just(u32::MAX / 4 + 1), 1 => Just(1u32), 2 => 0u32..300, 1 => any::<u32>(), 1 => (0u32..32).prop_map(|k| 1 << k), 1 => (1u32..20).prop_map(|k| k.wrapping_neg())].boxed()
}

fn mutation() -> BoxedStrategy<Mut> {
    let bytes = || prop::collection::vec(any::<u8>(), 0..24);
    // most of a stream's structure is near its start
    let pos = || prop_oneof![1 => any::<u16>(), 1 => 0u16..4000];
    prop_oneof![
        4 => (pos(), any::<u8>()).prop_map(|(a, b)| Mut::Flip(a, b)),
        2 => (pos(), any::<u8>()).prop_map(|(a, b)| Mut::Byte(a, b)),
        2 => (pos(), word()).prop_map(|(a, b)| Mut::Word(a, b)),
        2 => any::<u16>().prop_map(Mut::Cut),
        1 => bytes().prop_map(Mut::Grow),
        1 => (pos(), any::<u8>()).prop_map(|(a, b)| Mut::Delete(a, b)),
        1 => (pos(), bytes()).prop_map(|(a, b)| Mut::Insert(a, b)),
        1 => (pos(), pos(), any::<u16>()).prop_map(|(a, b, c)| Mut::Copy(a, b, c)),
        4 => (any::<u8>(), any::<u16>(), word(), any::<bool>()).prop_map(|(level, block, to, relative)| Mut::Size { level, block, to, relative }),
        4 => (any::<u8>(), any::<u16>(), any::<u8>(), any::<u64>()).prop_map(|(level, block, how, seed)| Mut::Fill { level, block, how, seed }),
        1 => (any::<u8>(), any::<u64>()).prop_map(|(how, seed)| Mut::FillAll { how, seed }),
        2 => codes().prop_map(Mut::Program),
    ]
    .boxed()
}

fn fuzz(o: Opts) -> BoxedStrategy<Fuzz> {
    let base = prop_oneof![
        6 => Just(Base::Own),
        1 => gen::case(Opts { scale: 0, max_samples: 3000, ..Default::default() }).prop_map(|c| Base::Other(Box::new(c))),
        1 => prop::collection::vec(any::<u8>(), 0..200).prop_map(Base::Bytes),
        3 => (prop_oneof![3 => Just(Codes::Like(vec![])), 1 => codes()], prop::collection::vec(prop_oneof![4 => 0u8..6, 1 => any::<u8>()], 1..5), any::<u8>(), any::<u64>()).prop_map(|(program, words, how, seed)| Base::Tables { program, words, how, seed }),
    ];
    let d = prop_oneof![6 => Just(0u8), 3 => 0u8..10, 1 => 0u8..=31];
    (gen::case(o), base, prop::collection::vec(mutation(), 0..5), d, any::<u64>())
        .prop_map(|(case, base, muts, d, chroma)| Fuzz { case, base, muts, d, chroma })
        .boxed()
}

// ---------------------------------------------------------------- long inputs

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long {
    case: Case,
    how: u8,
    seed: u64,
    len: u32,
    /// as the colour program, or in blocks
    program: bool,
}

/// Inputs of megabytes, on a thread with the stack threads usually have.
fn long(l: &Long, o: &mut Obs) -> Res {
    o.nontrivial();
    let case = l.case.clone();
    let mut p = vec![];
    if !l.program {
        p = Codes::Like(vec![]).bytes(&[]);
        for lv in case.levels() {
            let (bw, bh) = (lv.bs.min(case.w as usize).div_ceil(lv.step), lv.bs.min(case.h as usize).div_ceil(lv.step));
            // as much as any encoder might have written
            let k = ((bw * bh + 1) * 8).min(l.len as usize / 4);
            for _ in 0..lv.blocks {
                p.extend((k as u32).to_le_bytes());
            }
            let s = p.len();
            p.extend((s..s + lv.blocks * k * 4).map(|i| fill(l.how, l.seed, i)));
            if p.len() > 24_000_000 {
                break;
            }
        }
    } else {
        p.extend((0..l.len as usize).map(|i| fill(l.how, l.seed, i)));
    }
    let program = l.program;
    let r = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || -> Res {
            let h = case.header();
            for chroma in [false, true] {
                if program {
                    let mut flags = vec![false; case.n()];
                    no_panic(|| ColorTransformProgram::decode(&mut &p[..], &mut flags).is_ok()).map_err(|e| format!("panic in ColorTransformProgram::decode: {e}"))?;
                }
                let mut out = vec![0u8; case.samples()];
                no_panic(|| decompress_simple(&p, &h, 0, false, &mut out).is_ok()).map_err(|e| format!("panic in decompress_simple: {e}"))?;
                let mut aux = vec![0i16; case.samples()];
                let k = if program { 0 } else { 4 };
                no_panic(|| decompress_aux_data(&p[k..], &h, &vec![chroma; case.n()], 0, false, &mut aux).is_ok()).map_err(|e| format!("panic in decompress_aux_data: {e}"))?;
            }
            Ok(())
        })
        .unwrap()
        .join();
    o.label(if l.program { "as a colour program" } else { "as blocks" });
    r.unwrap_or_else(|_| Err("the thread panicked".into()))
}

pub fn run(ctx: &mut Ctx) {
    ctx.check("header", "random header bytes, mostly with sensible fields next to extreme ones, and cut ones; non-trivial: accepted", 1_000_000, head, header_bytes);
    ctx.check(
        "program",
        "colour programs of random bytes, of random codes, and of nearly valid transforms with some extreme value; non-trivial: accepted and not empty",
        600_000,
        || (codes(), prop_oneof![4 => 1u16..6, 1 => 1u16..400]).prop_map(|(codes, channels)| Program { codes, channels }),
        program_bytes,
    );
    ctx.check(
        "small",
        "valid streams with up to 4 mutations (bits, bytes, words, cuts, insertions, copies, size tables, block contents, colour programs), streams for other headers, well-formed tables over arbitrary blocks and random bytes, at downsampling 0..31, with and without test mode, through both interfaces; non-trivial: something gets past the error checks",
        300_000,
        || fuzz(Opts { scale: 0, max_samples: 4_000, wild: true, ..Default::default() }),
        shared,
    );
    ctx.check("medium", "as small, with images of up to 120 000 samples", 12_000, || fuzz(Opts { scale: 1, max_samples: 120_000, wild: true, ..Default::default() }), shared);
    let shards = std::mem::replace(&mut ctx.shards, 1);
    ctx.check("memory", "as medium, one at a time, with the memory of all threads counted", 1_500, || fuzz(Opts { scale: 1, max_samples: 200_000, ..Default::default() }), alone);
    ctx.shards = shards;
    ctx.check(
        "long",
        "colour programs and blocks of up to megabytes of zeros, ones, noise or mostly zeros, on a thread with a stack of 2 MB; non-trivial: all",
        300,
        || {
            (gen::case(Opts { scale: 1, max_samples: 200_000, ..Default::default() }), any::<u8>(), any::<u64>(), prop_oneof![2 => 1000u32..200_000, 1 => 200_000u32..6_000_000], any::<bool>())
                .prop_map(|(mut case, how, seed, len, program)| {
                    case.block = if seed % 2 == 0 { 30 } else { case.block };
                    Long { case, how, seed, len, program }
                })
        },
        long,
    );
    let plain = |w, h, encoder| Case { w, h, layers: 1, channels: 1, quality: 512, chroma: 8, block: 30, filter: 0, encoder, intent: 0, prog: gen::Prog::None, content: vec![Content::Const(0)] };
    let mut v = vec![];
    for how in 0..6 {
        v.push(Long { case: plain(3, 3, 0), how, seed: 1, len: 12_000_000, program: true });
        for e in 0..3 {
            v.push(Long { case: plain(700, 700, e), how, seed: 1, len: 12_000_000, program: false });
        }
    }
    ctx.fixed("longest", "the longest of them", v, long);
}
