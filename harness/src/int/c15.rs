//! Entropy codes and block coding.
use super::*;
use gfwx::bits::{BitsIOReader, BitsIOWriter, BitsReader, BitsWriter};
use gfwx::encode::*;
use gfwx::processing::image::Image;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::{ensure, gen, Ctx, Obs, Res};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Item {
    U(u32, u32),
    I(i32, u32),
    S(i32, u32),
    Raw(u32, u32),
}

fn magnitude() -> BoxedStrategy<u32> {
    prop_oneof![
        3 => 0u32..40,
        3 => (0u32..32, any::<u32>()).prop_map(|(k, r)| r >> k),
        2 => (0u32..32, -2i64..=2).prop_map(|(k, d)| ((1i64 << k) + d).clamp(0, u32::MAX as i64) as u32),
        // around the escapes: sums of 12 << pot
        2 => (0u32..5, 0u32..8, -2i64..=2).prop_map(|(p, e, d)| {
            let mut s = 0i64;
            let mut pot = p;
            for _ in 0..e {
                s += 12i64 << pot;
                pot = if pot < 20 { pot + 4 } else { 24 };
            }
            (s + d).clamp(0, u32::MAX as i64) as u32
        }),
        1 => gen::dict(1 << 26),
        1 => Just(u32::MAX),
    ]
    .boxed()
}
fn item() -> BoxedStrategy<Item> {
    let pot = || prop_oneof![5 => 0u32..=5, 2 => 0u32..=24];
    prop_oneof![
        3 => (magnitude(), pot()).prop_map(|(x, p)| Item::U(x, p)),
        3 => (magnitude(), any::<bool>(), pot()).prop_map(|(x, n, p)| {
            let v = (x % (1 << 30)) as i32;
            Item::I(if n { -v } else { v }, p)
        }),
        3 => (magnitude(), any::<bool>(), pot()).prop_map(|(x, n, p)| {
            let v = (x & 0x7fff_ffff) as i32;
            Item::S(if n { -v } else { v }, p)
        }),
        2 => (any::<u32>(), 1u32..=32).prop_map(|(x, b)| Item::Raw(if b == 32 { x } else { x & ((1 << b) - 1) }, b)),
    ]
    .boxed()
}

fn codes(c: &Vec<Item>, o: &mut Obs) -> Res {
    let mut out: Vec<u8> = vec![];
    {
        let mut w = BitsIOWriter::new(&mut out);
        for i in c {
            match *i {
                Item::U(x, p) => unsigned_code(x, &mut w, p),
                Item::I(x, p) => interleaved_code(x, &mut w, p),
                Item::S(x, p) => signed_code(x, &mut w, p),
                Item::Raw(x, b) => w.put_bits(x, b),
            }
            .map_err(|e| format!("writing {i:?}: {e}"))?;
        }
        w.flush_write_word().map_err(|e| e.to_string())?;
    }
    let escapes = c.iter().any(|i| match *i {
        Item::U(x, p) => x >> p >= 12,
        Item::I(x, p) | Item::S(x, p) => x.unsigned_abs() >> p >= 12,
        _ => false,
    });
    o.label_if(escapes, "an escape");
    o.label_if(
        c.iter().any(|i| match *i {
            Item::U(x, _) => x > 8 << 20,
            Item::I(x, _) | Item::S(x, _) => x.unsigned_abs() > 8 << 20,
            _ => false,
        }),
        "a value over 2^23",
    );
    if escapes {
        o.nontrivial();
    }
    let mut src = &out[..];
    {
        let mut r = BitsIOReader::new(&mut src);
        for (n, i) in c.iter().enumerate() {
            let e = |e: std::io::Error| format!("reading item {n}, {i:?}: {e}");
            match *i {
                Item::U(x, p) => {
                    let v = unsigned_decode(&mut r, p).map_err(e)?;
                    ensure!(v == x, "item {n}, {i:?}, was read back as {v}");
                }
                Item::I(x, p) => {
                    let v = interleaved_decode(&mut r, p).map_err(e)?;
                    ensure!(v == x, "item {n}, {i:?}, was read back as {v}");
                }
                Item::S(x, p) => {
                    let v = signed_decode(&mut r, p).map_err(e)?;
                    ensure!(v == x, "item {n}, {i:?}, was read back as {v}");
                }
                Item::Raw(x, b) => {
                    let v = r.get_bits(b).map_err(e)?;
                    ensure!(v == x, "item {n}, {i:?}, was read back as {v}");
                }
            }
        }
    }
    ensure!(src.is_empty(), "{} bytes were left over", src.len());
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct B {
    w: u32,
    h: u32,
    block: u8,
    encoder: u8,
    q: i32,
    chroma: Vec<bool>,
    c: Vec<Coefs>,
}

fn blocks(scale: u32, max: usize) -> BoxedStrategy<B> {
    (
        gen::dims(scale),
        gen::block(),
        0u8..3,
        prop_oneof![3 => Just(1024i32), 4 => 1i32..=1024, 1 => Just(0)],
        prop::collection::vec(any::<bool>(), 1..4),
        prop::collection::vec(coefs(), 1..4),
    )
        .prop_map(move |(d, block, encoder, q, chroma, c)| {
            let (w, h) = cap(d, max / chroma.len());
            B { w, h, block, encoder, q, chroma, c }
        })
        .boxed()
}

fn block(b: &B, o: &mut Obs) -> Res {
    let (w, h, n) = (b.w as usize, b.h as usize, b.chroma.len());
    let enc = gen::encoder(b.encoder);
    let mut data: Vec<i16> = (0..n).flat_map(|k| b.c[k % b.c.len()].fill(w, h)).collect();
    let orig = data.clone();
    let mut back = vec![0i16; data.len()];
    let mut step = 1;
    while step * 2 < w || step * 2 < h {
        step *= 2;
    }
    let mut dc = true;
    o.label(["turbo", "fast", "contextual"][b.encoder as usize]);
    if b.c.iter().any(|c| !matches!(c, Coefs::Zero)) && w * h > 1 {
        o.nontrivial();
    }
    let mut chunks = 0;
    while step >= 1 {
        let bs = step << b.block;
        let mut streams: Vec<Vec<u8>> = vec![];
        for ch in Image::from_slice(&mut data, (w, h), n).into_chunks_mut(bs, step) {
            let mut out = vec![];
            {
                let mut wr = BitsIOWriter::new(&mut out);
                let first = ch.x_range.0 == 0 && ch.y_range.0 == 0;
                encode(&ch, &mut wr, enc, b.q, dc && first, b.chroma[ch.channel]).map_err(|e| format!("encode: {e}"))?;
                wr.flush_write_word().map_err(|e| format!("flush: {e}"))?;
            }
            streams.push(out);
        }
        let mut k = 0;
        for ch in Image::from_slice(&mut back, (w, h), n).into_chunks_mut(bs, step) {
            let what = format!("channel {} columns {:?} rows {:?} step {step}", ch.channel, ch.x_range, ch.y_range);
            ensure!(k < streams.len(), "more chunks on decoding");
            let mut src = &streams[k][..];
            let first = ch.x_range.0 == 0 && ch.y_range.0 == 0;
            let chroma = b.chroma[ch.channel];
            decode(ch, &mut BitsIOReader::new(&mut src), enc, b.q, dc && first, chroma).map_err(|e| format!("decoding block {k} ({what}): {e}"))?;
            ensure!(src.is_empty(), "block {k} ({what}) left {} of {} bytes unread", src.len(), streams[k].len());
            k += 1;
        }
        chunks += k;
        dc = false;
        step /= 2;
    }
    o.label_if(chunks > 3 * n + 10, "many blocks");
    ensure!(data == orig, "encoding changed the coefficients");
    match (0..orig.len()).find(|&i| orig[i] != back[i]) {
        None => Ok(()),
        Some(i) => {
            let (k, p) = (i / (w * h), i % (w * h));
            Err(format!("channel {k} column {} row {}: coefficient {} came back as {}", p % w, p / w, orig[i], back[i]))
        }
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.check(
        "codes",
        "random sequences of unsigned, interleaved and signed codes and raw fields at random parameters; non-trivial: at least one value needs an escape",
        250_000,
        || prop::collection::vec(item(), 1..40),
        codes,
    );
    let rule = "all blocks of all levels of random coefficient images, every encoder, quality, chroma and block size, coded and decoded coarse to fine from exactly the bytes written; non-trivial: several coefficients, not all zero";
    ctx.check("blocks", rule, 60_000, || blocks(0, 6_000), block);
    ctx.check("blocks_medium", rule, 6_000, || blocks(1, 60_000), block);
}
