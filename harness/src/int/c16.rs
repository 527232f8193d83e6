//! Bit input and output against a vector of bits.
use gfwx::bits::{BitsIOReader, BitsIOWriter, BitsReader, BitsWriter};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::{ensure, Ctx, Obs, Res};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum W {
    Put(u32, u32),
    Flush,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum R {
    Get(u32),
    Zeros(u32),
    Flush,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C {
    w: Vec<W>,
    /// room in the sink, or None for a growing one
    room: Option<usize>,
    r: Vec<R>,
}

fn put() -> BoxedStrategy<W> {
    let bits = prop_oneof![6 => 1u32..=32, 2 => 30u32..=32, 2 => 1u32..=4, 1 => Just(0u32)];
    let x = prop_oneof![3 => any::<u32>(), 2 => Just(0u32), 1 => Just(1u32), 1 => Just(u32::MAX)];
    prop_oneof![
        12 => (x, bits).prop_map(|(x, b)| W::Put(if b == 32 { x } else { x & ((1u32 << b) - 1) }, b)),
        1 => Just(W::Flush),
    ]
    .boxed()
}
fn read() -> BoxedStrategy<R> {
    prop_oneof![
        5 => (1u32..=32).prop_map(R::Get),
        2 => (30u32..=32).prop_map(R::Get),
        4 => prop_oneof![Just(12u32), 1u32..=12, 1u32..=100].prop_map(R::Zeros),
        1 => Just(R::Flush),
    ]
    .boxed()
}
fn cases() -> BoxedStrategy<C> {
    (
        prop_oneof![3 => prop::collection::vec(put(), 0..40), 1 => prop::collection::vec(put(), 40..300)],
        prop_oneof![2 => Just(None), 1 => (0usize..200).prop_map(Some)],
        prop::collection::vec(read(), 0..80),
    )
        .prop_map(|(w, room, r)| C { w, room, r })
        .boxed()
}

fn word(bits: &[bool]) -> [u8; 4] {
    let mut v = 0u32;
    for i in 0..32 {
        v = v << 1 | bits.get(i).copied().unwrap_or(false) as u32;
    }
    v.to_le_bytes()
}

/// Write ops to `sink`; returns (index of the failing op or ops.len())
fn write_ops<S: std::io::Write>(sink: &mut S, ops: &[W]) -> usize {
    let mut w = BitsIOWriter::new(sink);
    for (i, op) in ops.iter().enumerate() {
        let r = match op {
            W::Put(x, b) => w.put_bits(*x, *b),
            W::Flush => w.flush_write_word(),
        };
        if r.is_err() {
            return i;
        }
    }
    ops.len()
}

fn judge(c: &C, o: &mut Obs) -> Res {
    let mut ops = c.w.clone();
    ops.push(W::Flush);
    // model
    let mut bits: Vec<bool> = vec![];
    let mut full_at = vec![]; // complete words after each op
    for op in &ops {
        match op {
            W::Put(x, b) => {
                for k in (0..*b).rev() {
                    bits.push(x >> k & 1 != 0);
                }
            }
            W::Flush => {
                while bits.len() % 32 != 0 {
                    bits.push(false);
                }
            }
        }
        full_at.push(bits.len() / 32);
    }
    let want: Vec<u8> = bits.chunks(32).flat_map(word).collect();
    let whole = |v: &W| matches!(v, W::Put(_, 32));
    o.label_if(ops.iter().any(whole), "a 32-bit field");
    o.label_if(want.len() > 64, "more than 16 words");
    if want.len() >= 8 {
        o.nontrivial();
    }
    match c.room {
        None => {
            let mut out: Vec<u8> = vec![];
            let n = write_ops(&mut out, &ops);
            ensure!(n == ops.len(), "write {n} ({:?}) failed on a growing sink", ops[n]);
            ensure!(out == want, "wrote {out:?}, expected {want:?}");
        }
        Some(room) => {
            let mut buf = vec![0xEEu8; room];
            let n = write_ops(&mut &mut buf[..], &ops);
            let fits = full_at.iter().position(|&words| words * 4 > room).unwrap_or(ops.len());
            o.label_if(fits < ops.len(), "the sink overflows");
            ensure!(n == fits, "in a sink of {room} bytes the first failing write is {n}, expected {fits} of {}", ops.len());
            let words = if n == 0 { 0 } else { full_at[n - 1] * 4 };
            ensure!(buf[..words] == want[..words], "sink of {room} bytes holds {:?}, expected {:?}", &buf[..words], &want[..words]);
        }
    }
    // reading
    let mut src = &want[..];
    let mut r = BitsIOReader::new(&mut src);
    let mut pos = 0usize;
    for (i, op) in c.r.iter().enumerate() {
        match op {
            R::Get(n) => {
                let n = *n as usize;
                let got = r.get_bits(n as u32);
                if pos + n > bits.len() {
                    ensure!(got.is_err(), "read {i}: {n} bits at {pos} of {} gave {got:?}", bits.len());
                    o.label("read past the end");
                    return Ok(());
                }
                let want = bits[pos..pos + n].iter().fold(0u32, |a, &b| a << 1 | b as u32);
                ensure!(matches!(got, Ok(v) if v == want), "read {i}: {n} bits at {pos} gave {got:?}, expected {want}");
                pos += n;
            }
            R::Zeros(max) => {
                let got = r.get_zeros(*max);
                let mut z = 0;
                let mut p = pos;
                let want = loop {
                    if p == bits.len() {
                        break None;
                    }
                    p += 1;
                    if bits[p - 1] {
                        break Some(z);
                    }
                    z += 1;
                    if z == *max {
                        break Some(z);
                    }
                };
                match want {
                    None => {
                        ensure!(got.is_err(), "read {i}: zeros up to {max} at {pos} of {} gave {got:?}", bits.len());
                        o.label("read past the end");
                        return Ok(());
                    }
                    Some(v) => {
                        ensure!(matches!(got, Ok(g) if g == v), "read {i}: zeros up to {max} at {pos} gave {got:?}, expected {v}");
                        pos = p;
                    }
                }
            }
            R::Flush => {
                r.flush_read_word();
                pos = pos.div_ceil(32) * 32;
            }
        }
    }
    // how much was taken from the source: whole words, none beyond the one being read
    drop(r);
    let taken = want.len() - src.len();
    ensure!(taken == pos.div_ceil(32) * 4, "after {pos} bits {taken} bytes were taken from the source");
    Ok(())
}

/// The words that a partial tail of the source leaves unread.
fn ragged(c: &(Vec<u8>, Vec<R>), o: &mut Obs) -> Res {
    let (data, ops) = c;
    let bits: Vec<bool> = data
        .chunks_exact(4)
        .flat_map(|w| {
            let v = u32::from_le_bytes([w[0], w[1], w[2], w[3]]);
            (0..32).rev().map(move |k| v >> k & 1 != 0)
        })
        .collect();
    if data.len() % 4 != 0 && data.len() > 4 {
        o.nontrivial();
    }
    let mut src = &data[..];
    let mut r = BitsIOReader::new(&mut src);
    let mut pos = 0usize;
    for op in ops {
        match op {
            R::Get(n) => {
                let n = *n as usize;
                let got = r.get_bits(n as u32);
                if pos + n > bits.len() {
                    ensure!(got.is_err(), "{n} bits at {pos} of {} gave {got:?}", bits.len());
                    return Ok(());
                }
                let want = bits[pos..pos + n].iter().fold(0u32, |a, &b| a << 1 | b as u32);
                ensure!(matches!(got, Ok(v) if v == want), "{n} bits at {pos} gave {got:?}, expected {want}");
                pos += n;
            }
            R::Zeros(max) => {
                let got = r.get_zeros(*max);
                let rest = &bits[pos..];
                let lead = rest.iter().position(|&b| b).unwrap_or(rest.len());
                if lead >= *max as usize {
                    ensure!(matches!(got, Ok(g) if g == *max), "zeros up to {max} at {pos} gave {got:?}");
                    pos += *max as usize;
                } else if lead == rest.len() {
                    ensure!(got.is_err(), "zeros up to {max} at {pos} of {} gave {got:?}", bits.len());
                    return Ok(());
                } else {
                    ensure!(matches!(got, Ok(g) if g as usize == lead), "zeros up to {max} at {pos} gave {got:?}, expected {lead}");
                    pos += lead + 1;
                }
            }
            R::Flush => {
                r.flush_read_word();
                pos = pos.div_ceil(32) * 32;
            }
        }
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.check(
        "stream",
        "random sequences of field writes (0 to 32 bits) and flushes into a growing or a bounded sink, then an independent sequence of field reads, zero-run reads and flushes; non-trivial: at least two words",
        400_000,
        cases,
        judge,
    );
    ctx.check(
        "ragged",
        "reads from arbitrary bytes whose length need not be a multiple of four; non-trivial: there is a partial word at the end",
        200_000,
        || (prop::collection::vec(prop_oneof![2 => Just(0u8), 3 => any::<u8>()], 0..60), prop::collection::vec(read(), 0..60)),
        ragged,
    );
}
