//! Headers.
use super::*;
use gfwx::{HeaderBuilder, Quantization};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::gen;
use vh::{ensure, Ctx, Obs, Res};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Params {
    width: u32,
    height: u32,
    layers: u16,
    channels: u16,
    quality: u16,
    chroma: u8,
    block: u8,
    filter: u8,
    encoder: u8,
    intent: usize,
    metadata: u32,
}

fn total(w: u32, h: u32, l: u32, c: u32) -> Option<usize> {
    let t = (w as u128 * h as u128) * (l as u128 * c as u128);
    (t <= u64::MAX as u128).then_some(t as usize)
}

fn valid(p: &Params) -> bool {
    let side = |v: u32| (1..1 << 30).contains(&v);
    side(p.width)
        && side(p.height)
        && p.layers >= 1
        && p.channels >= 1
        && (1..=1024).contains(&p.quality)
        && p.chroma >= 1
        && (2..=30).contains(&p.block)
        && p.metadata % 4 == 0
        && total(p.width, p.height, p.layers as u32, p.channels as u32).is_some()
}

fn bytes(p: &Params, version: u32, bit_depth: u8) -> Vec<u8> {
    let mut v = b"GFWX".to_vec();
    v.extend(version.to_le_bytes());
    v.extend(p.width.to_le_bytes());
    v.extend(p.height.to_le_bytes());
    v.extend((p.channels - 1).to_le_bytes());
    v.extend((p.layers - 1).to_le_bytes());
    let word = (p.block as u32 - 2) + ((p.chroma as u32 - 1) << 5) + ((p.quality as u32 - 1) << 13);
    v.extend(&word.to_le_bytes()[..3]);
    v.push(bit_depth - 1);
    v.extend([gen::INTENTS[p.intent % 6], p.encoder, 0, p.filter]);
    v.extend((p.metadata / 4).to_le_bytes());
    v
}

fn derived(h: &Header, p: &Params) -> Res {
    let n = p.layers as usize * p.channels as usize;
    ensure!(h.get_channel_size() == p.width as usize * p.height as usize, "channel size {}", h.get_channel_size());
    ensure!(h.get_image_size() == p.width as usize * p.height as usize * n, "image size {}", h.get_image_size());
    ensure!(h.get_boost() == if p.quality == 1024 { 1 } else { 8 }, "boost {} at quality {}", h.get_boost(), p.quality);
    let cq = ((p.quality as i32 + p.chroma as i32 / 2) / p.chroma as i32).max(1);
    ensure!(h.get_chroma_quality() == cq, "chroma quality {} for {} and scale {}", h.get_chroma_quality(), p.quality, p.chroma);
    for d in 0..=31usize {
        let (w, hh) = ((p.width as u64).div_ceil(1 << d) as usize, (p.height as u64).div_ceil(1 << d) as usize);
        ensure!(h.get_downsampled_width(d) == w && h.get_downsampled_height(d) == hh, "downsampled size at {d}");
        ensure!(h.get_downsampled_channel_size(d) == w * hh, "downsampled channel size at {d}");
        ensure!(h.get_downsampled_image_size(d) == w * hh * n, "downsampled image size at {d}");
        ensure!(h.get_decompress_buffer_size(d) == w * hh * n, "decompress buffer size at {d}");
    }
    Ok(())
}

fn build(p: &Params, o: &mut Obs) -> Res {
    let ok = valid(p);
    o.label(if ok { "valid" } else { "invalid" });
    o.nontrivial();
    let b = HeaderBuilder {
        width: p.width,
        height: p.height,
        layers: p.layers,
        channels: p.channels,
        quality: p.quality,
        chroma_scale: p.chroma,
        block_size: p.block,
        filter: gen::filter(p.filter),
        encoder: gen::encoder(p.encoder),
        intent: gen::intent(gen::INTENTS[p.intent % 6]),
        metadata_size: p.metadata,
    };
    let h = match b.build() {
        Ok(h) => {
            ensure!(ok, "a header is built from parameters the format cannot carry: {h:?}");
            h
        }
        Err(e) => {
            ensure!(!ok, "valid parameters are rejected: {e}");
            return Ok(());
        }
    };
    ensure!(
        h.width == p.width && h.height == p.height && h.layers == p.layers && h.channels == p.channels && h.quality == p.quality
            && h.chroma_scale == p.chroma && h.block_size == p.block && h.metadata_size == p.metadata
            && h.filter == gen::filter(p.filter) && h.encoder == gen::encoder(p.encoder)
            && h.intent == gen::intent(gen::INTENTS[p.intent % 6]) && h.quantization == Quantization::Scalar
            && h.version == 1 && h.bit_depth == 8 && !h.is_signed,
        "the header differs from its parameters: {h:?}"
    );
    derived(&h, p)?;
    let mut e = vec![];
    h.encode(&mut e).map_err(|e| e.to_string())?;
    diff("encoded header", &e, &bytes(p, 1, 8))?;
    e.extend([0xEE; 9]);
    let mut rd = &e[..];
    let back = Header::decode(&mut rd).map_err(|e| format!("a built header is rejected when decoded: {e}"))?;
    ensure!(back == h, "decoded {back:?} instead of {h:?}");
    ensure!(rd.len() == 9, "decoding took {} bytes", e.len() - rd.len());
    // a sink or source that is too short is an error
    for n in [0usize, 3, 4, 16, 21, 31] {
        let mut small = vec![0u8; n];
        let mut sink = &mut small[..];
        ensure!(h.encode(&mut sink).is_err(), "encoding into {n} bytes succeeds");
        ensure!(Header::decode(&mut &e[..n]).is_err(), "decoding {n} bytes succeeds");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Raw {
    bytes: Vec<u8>,
}

/// Parse by the format's definition.
fn parse(b: &[u8]) -> Option<(Params, u32, u8)> {
    if b.len() < 32 || &b[..4] != b"GFWX" {
        return None;
    }
    let u32at = |i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap());
    let u16at = |i: usize| u16::from_le_bytes(b[i..i + 2].try_into().unwrap());
    let word = b[20] as u32 | (b[21] as u32) << 8 | (b[22] as u32) << 16;
    let (channels, layers) = (u16at(16) as u32 + 1, u16at(18) as u32 + 1);
    let (block, chroma, quality, signed) = ((word & 31) + 2, (word >> 5 & 255) + 1, (word >> 13 & 1023) + 1, word >> 23);
    let meta = u32at(28) as u64 * 4;
    if channels > 65535 || layers > 65535 || chroma > 255 || meta > u32::MAX as u64 || signed == 1 || b[23] > 7 {
        return None;
    }
    let intent = gen::INTENTS.iter().position(|i| *i == b[24])?;
    if b[25] > 2 || b[26] != 0 || b[27] > 1 {
        return None;
    }
    let p = Params {
        width: u32at(8),
        height: u32at(12),
        layers: layers as u16,
        channels: channels as u16,
        quality: quality as u16,
        chroma: chroma as u8,
        block: block as u8,
        filter: b[27],
        encoder: b[25],
        intent,
        metadata: meta as u32,
    };
    valid(&p).then(|| (p, u32at(4), b[23] + 1))
}

fn decode_raw(r: &Raw, o: &mut Obs) -> Res {
    let want = parse(&r.bytes);
    o.label(if want.is_some() { "accepted" } else { "rejected" });
    o.nontrivial();
    let mut rd = &r.bytes[..];
    match (Header::decode(&mut rd), want) {
        (Err(_), None) => Ok(()),
        (Err(e), Some(_)) => Err(format!("a header of the supported format is rejected: {e}")),
        (Ok(h), None) => Err(format!("bytes outside the supported format are accepted: {h:?}")),
        (Ok(h), Some((p, version, depth))) => {
            ensure!(r.bytes.len() - rd.len() == 32, "{} bytes were consumed", r.bytes.len() - rd.len());
            ensure!(h.version == version && h.bit_depth == depth && !h.is_signed, "version {}, bit depth {}", h.version, h.bit_depth);
            ensure!(
                h.width == p.width && h.height == p.height && h.layers == p.layers && h.channels == p.channels && h.quality == p.quality
                    && h.chroma_scale == p.chroma && h.block_size == p.block && h.metadata_size == p.metadata
                    && h.filter == gen::filter(p.filter) && h.encoder == gen::encoder(p.encoder)
                    && h.intent == gen::intent(gen::INTENTS[p.intent % 6]) && h.quantization == Quantization::Scalar,
                "decoded {h:?} where the bytes say {p:?}"
            );
            derived(&h, &p)?;
            let mut e = vec![];
            h.encode(&mut e).map_err(|e| e.to_string())?;
            diff("header encoded again", &e, &r.bytes[..32])
        }
    }
}

fn side() -> BoxedStrategy<u32> {
    prop_oneof![
        4 => 1u32..5000,
        2 => (0u32..32, -1i64..=1).prop_map(|(k, d)| ((1i64 << k) + d).clamp(0, u32::MAX as i64) as u32),
        1 => any::<u32>(),
        1 => 0u32..3,
        1 => gen::dict(1 << 26),
        1 => (1u32 << 30) - 2..(1 << 30) + 2,
    ]
    .boxed()
}

fn count() -> BoxedStrategy<u16> {
    prop_oneof![3 => 1u16..5, 1 => Just(0u16), 1 => any::<u16>(), 1 => 65534u16..=65535, 1 => 255u16..=257, 1 => gen::dict(65535).prop_map(|v| v as u16)].boxed()
}

fn params() -> BoxedStrategy<Params> {
    (
        (side(), side(), count(), count()),
        (
            prop_oneof![4 => 1u16..=1024, 1 => 0u16..=2, 1 => 1022u16..=1026, 1 => any::<u16>()],
            any::<u8>().prop_map(|v| v),
            prop_oneof![4 => 2u8..=30, 1 => 0u8..=3, 1 => 29u8..=40, 1 => any::<u8>()],
        ),
        (0u8..2, 0u8..3, 0usize..6),
        prop_oneof![4 => Just(0u32), 4 => any::<u32>().prop_map(|v| v & !3), 2 => any::<u32>(), 1 => gen::dict(1 << 26), 1 => gen::dict(1 << 24).prop_map(|v| v * 4)],
    )
        .prop_map(|((width, height, layers, channels), (quality, chroma, block), (filter, encoder, intent), metadata)| Params {
            width,
            height,
            layers,
            channels,
            quality,
            chroma,
            block,
            filter,
            encoder,
            intent,
            metadata,
        })
        .boxed()
}

fn raw() -> BoxedStrategy<Raw> {
    let near = (params(), any::<u32>(), 1u8..=8, prop::collection::vec((0usize..32, any::<u8>()), 0..3), 0usize..40)
        .prop_map(|(mut p, version, depth, edits, len)| {
            p.layers = p.layers.max(1);
            p.channels = p.channels.max(1);
            p.quality = p.quality.clamp(1, 1024);
            p.chroma = p.chroma.max(1);
            p.block = p.block.clamp(2, 30);
            let mut b = bytes(&p, version, depth);
            for (i, v) in edits {
                b[i] = v;
            }
            if len < 4 {
                b.truncate(28 + len);
            } else if len > 30 {
                b.extend(vec![7u8; len - 30]);
            }
            Raw { bytes: b }
        });
    let bits = (params(), 0usize..256).prop_map(|(mut p, bit)| {
        p.layers = p.layers.clamp(1, 3);
        p.channels = p.channels.clamp(1, 4);
        p.quality = p.quality.clamp(1, 1024);
        p.chroma = p.chroma.max(1);
        p.block = p.block.clamp(2, 30);
        p.width = p.width.clamp(1, 3000);
        p.height = p.height.clamp(1, 3000);
        let mut b = bytes(&p, 1, 8);
        b[bit / 8] ^= 1 << (bit % 8);
        Raw { bytes: b }
    });
    let noise = prop::collection::vec(any::<u8>(), 28..36).prop_map(|mut b| {
        b[..4].copy_from_slice(b"GFWX");
        Raw { bytes: b }
    });
    let any = prop::collection::vec(any::<u8>(), 0..40).prop_map(|bytes| Raw { bytes });
    prop_oneof![5 => near, 4 => bits, 1 => noise, 1 => any].boxed()
}

pub fn run(ctx: &mut Ctx) {
    ctx.check("build", "random builder parameters around the limits of every field: build, compare the fields, encode, compare with the layout, decode; every case counts", 400_000, params, build);
    ctx.check("decode", "valid headers with random edits, single bit flips, cut or extended, and random bytes: accepted exactly when the format's definition accepts, fields and re-encoding equal; every case counts", 600_000, raw, decode_raw);
    // every value of every field on its own
    let base = Params { width: 1920, height: 1080, layers: 1, channels: 4, quality: 500, chroma: 8, block: 7, filter: 0, encoder: 1, intent: 1, metadata: 0 };
    let mut all = vec![];
    for v in 0..=1026u16 {
        all.push(Params { quality: v, ..base.clone() });
        all.push(Params { quality: v.max(1), chroma: (v % 255) as u8 + 1, ..base.clone() });
    }
    for v in 0..=255u8 {
        all.push(Params { chroma: v, ..base.clone() });
        all.push(Params { block: v, ..base.clone() });
    }
    for v in (0..=65535u32).step_by(257).chain([1, 2, 255, 256, 65534, 65535]) {
        all.push(Params { layers: v as u16, ..base.clone() });
        all.push(Params { channels: v as u16, ..base.clone() });
    }
    for i in 0..36 {
        all.push(Params { filter: i % 2, encoder: i / 2 % 3, intent: i as usize / 6, ..base.clone() });
    }
    // products around 2^64
    for (w, h, l, c) in [
        ((1u32 << 30) - 1, (1u32 << 30) - 1, 4u16, 4u16),
        (1 << 29, 1 << 29, 8, 8),
        (1 << 29, 1 << 29, 8, 7),
        (1 << 29, 1 << 29, 63, 1),
        (1 << 29, 1 << 29, 1, 64),
        (1 << 29, 1 << 29, 1, 65),
        (1 << 20, 1 << 20, 4095, 4096),
        (1 << 20, 1 << 20, 4096, 4096),
        (1 << 20, 1 << 20, 4096, 4097),
        ((1 << 30) - 1, 1, 65535, 65535),
    ] {
        all.push(Params { width: w, height: h, layers: l, channels: c, ..base.clone() });
    }
    ctx.fixed("fields", "every value of quality, chroma scale, block size, filter, encoder and intent, and a grid of layer and channel counts", all, build);
    let mut raws = vec![];
    for i in 20..28 {
        for v in 0..=255u8 {
            let mut b = bytes(&base, 1, 8);
            b[i] = v;
            raws.push(Raw { bytes: b });
        }
    }
    ctx.fixed("bytes", "every value of every byte of the packed fields", raws, decode_raw);
}
