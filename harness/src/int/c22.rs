//! Headers, programs and bit streams over readers and writers that deliver in pieces, are interrupted, or fail.
use gfwx::bits::{BitsIOReader, BitsIOWriter, BitsReader, BitsWriter};
use gfwx::encode::{interleaved_code, interleaved_decode, signed_code, signed_decode, unsigned_code, unsigned_decode};
use gfwx::errors::HeaderErr;
use gfwx::{ColorTransformProgram, DecompressError, Header};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{self, ErrorKind, Read, Write};
use vh::gen::{self, Opts, Transform};
use vh::{ensure, Ctx, Obs, Res};

const KINDS: [ErrorKind; 9] = [
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::PermissionDenied,
    ErrorKind::InvalidData,
    ErrorKind::ConnectionReset,
    ErrorKind::NotFound,
    ErrorKind::UnexpectedEof,
];

/// How a stream behaves.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
    /// sizes of the pieces, in turn; 0 is an interruption
    pieces: Vec<u8>,
    /// fails after so many bytes with this kind of error (or, the last one, just ends)
    fail: Option<(usize, u8)>,
    /// fails that one time only, and goes on if asked again
    #[serde(default)]
    once: bool,
}

impl Plan {
    fn kind(&self) -> Option<(usize, ErrorKind)> {
        self.fail.map(|(at, k)| (at, KINDS[k as usize % KINDS.len()]))
    }
    fn ends(&self) -> bool {
        self.fail.is_some_and(|(_, k)| k as usize % 2 == 1)
    }
    fn label(&self, o: &mut Obs) {
        o.label_if(self.pieces.contains(&0), "interruptions");
        o.label_if(self.fail.is_some(), "a failure");
        o.label_if(self.fail.is_some() && self.once, "a failure that passes");
    }
}

struct Flow<'a> {
    plan: &'a Plan,
    calls: usize,
    pos: usize,
    failed: bool,
    data: Vec<u8>,
}

impl<'a> Flow<'a> {
    fn new(plan: &'a Plan, data: &[u8]) -> Self {
        Flow { plan, calls: 0, pos: 0, failed: false, data: data.to_vec() }
    }
    /// Bytes that may pass now, at most `n` (which is not 0).
    fn next(&mut self, n: usize) -> io::Result<usize> {
        let mut n = n;
        if !self.plan.pieces.is_empty() {
            let p = self.plan.pieces[self.calls % self.plan.pieces.len()] as usize;
            self.calls += 1;
            if p == 0 {
                return Err(ErrorKind::Interrupted.into());
            }
            n = n.min(p);
        }
        if let Some((at, kind)) = self.plan.kind().filter(|_| !(self.plan.once && self.failed)) {
            if self.pos == at {
                self.failed = true;
                return if self.plan.ends() { Ok(0) } else { Err(kind.into()) };
            }
            n = n.min(at - self.pos);
        }
        Ok(n)
    }
}

impl Read for Flow<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let n = self.next(buf.len())?.min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

impl Write for Flow<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let n = self.next(buf.len())?;
        self.data.extend(&buf[..n]);
        self.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// What an operation over a stream that fails after `at` bytes must report, if it needs `need` bytes.
fn due(plan: &Plan, need: usize, have: usize, read: bool) -> Option<ErrorKind> {
    match plan.kind() {
        Some((at, k)) if at < need && at <= have => Some(if !plan.ends() {
            k
        } else if read {
            ErrorKind::UnexpectedEof
        } else {
            ErrorKind::WriteZero
        }),
        _ if have < need => Some(ErrorKind::UnexpectedEof),
        _ => None,
    }
}

fn expect<T>(what: &str, got: Result<T, Option<io::Error>>, due: Option<ErrorKind>) -> Result<Option<T>, String> {
    match (got, due) {
        (Ok(v), None) => Ok(Some(v)),
        (Ok(_), Some(k)) => Err(format!("{what} succeeds though the stream fails ({k:?}) before its end")),
        (Err(Some(e)), Some(k)) => {
            ensure!(e.kind() == k, "{what} reports {:?} where the stream fails with {k:?}", e.kind());
            Ok(None)
        }
        (Err(None), Some(k)) => Err(format!("{what} fails, but not with the I/O error ({k:?}) of the stream")),
        (Err(e), None) => Err(format!("{what} fails ({e:?}) over a stream that delivers all that it needs")),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct H {
    case: gen::Case,
    metadata: u32,
    tail: Vec<u8>,
    rd: Plan,
    wr: Plan,
}

fn header(c: &H, o: &mut Obs) -> Res {
    c.rd.label(o);
    c.wr.label(o);
    o.nontrivial();
    let mut h = c.case.header();
    h.metadata_size = c.metadata & !3;
    let mut want = vec![];
    h.encode(&mut want).map_err(|e| e.to_string())?;
    let mut w = Flow::new(&c.wr, &[]);
    expect("writing a header", h.encode(&mut w).map_err(Some), due(&c.wr, 32, usize::MAX, false))?;
    let n = c.wr.fail.map_or(32, |f| f.0.min(32));
    ensure!(w.data == want[..n], "the sink took {:?}, of the header {:?}", w.data, want);

    let mut all = want.clone();
    all.extend(&c.tail);
    let mut r = Flow::new(&c.rd, &all);
    let got = Header::decode(&mut r).map_err(|e| match e {
        HeaderErr::IOErr(e) => Some(e),
        _ => None,
    });
    let taken = r.pos;
    if let Some(back) = expect("reading a header", got, due(&c.rd, 32, all.len(), true))? {
        ensure!(back == h, "read {back:?} instead of {h:?}");
        ensure!(taken == 32, "reading a header took {taken} bytes");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct P {
    n: usize,
    ts: Vec<Transform>,
    tail: Vec<u8>,
    rd: Plan,
    wr: Plan,
}

fn program(c: &P, o: &mut Obs) -> Res {
    c.rd.label(o);
    c.wr.label(o);
    let mut ts = c.ts.clone();
    for t in &mut ts {
        t.dest %= c.n;
        for f in &mut t.factors {
            f.0 %= c.n;
        }
    }
    let p = gen::to_program(&ts);
    let mut want = vec![];
    let chroma = p.encode(c.n, &mut want).map_err(|e| e.to_string())?;
    let len = want.len();
    o.label_if(len > 16, "a program of more than 4 words");
    o.nontrivial();
    let mut w = Flow::new(&c.wr, &[]);
    if let Some(f) = expect("writing a program", p.encode(c.n, &mut w).map_err(Some), due(&c.wr, len, usize::MAX, false))? {
        ensure!(f == chroma, "chroma flags {f:?} instead of {chroma:?}");
    }
    let n = c.wr.fail.map_or(len, |f| f.0.min(len));
    ensure!(w.data == want[..n], "the sink took {:?}, of the program {:?}", w.data, want);

    let mut all = want.clone();
    all.extend(&c.tail);
    let mut r = Flow::new(&c.rd, &all);
    let mut flags = vec![false; c.n];
    let got = ColorTransformProgram::decode(&mut r, &mut flags).map_err(|e| match e {
        DecompressError::IOErr(e) => Some(e),
        _ => None,
    });
    let taken = r.pos;
    if let Some(q) = expect("reading a program", got, due(&c.rd, len, all.len(), true))? {
        ensure!(q == p, "read {q:?} instead of {p:?}");
        ensure!(flags == chroma, "chroma flags {flags:?} instead of {chroma:?}");
        ensure!(taken == len, "reading a program of {len} bytes took {taken}");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Bits(u32, u32),
    Unsigned(u32, u32),
    Inter(i32, u32),
    Signed(i32, u32),
    Flush,
}

fn code_bits(x: u32, pot: u32) -> usize {
    let y = x >> pot;
    if y >= 12 {
        12 + code_bits(x - (12 << pot), if pot < 20 { pot + 4 } else { 24 })
    } else {
        (y + 1 + pot) as usize
    }
}

fn op_bits(op: &Op) -> usize {
    match *op {
        Op::Bits(_, b) => b as usize,
        Op::Unsigned(x, p) => code_bits(x, p),
        Op::Inter(x, p) => code_bits(if x <= 0 { -2 * x } else { 2 * x - 1 } as u32, p),
        Op::Signed(x, p) => code_bits(x.unsigned_abs(), p) + (x != 0) as usize,
        Op::Flush => 0,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct B {
    ops: Vec<Op>,
    tail: Vec<u8>,
    rd: Plan,
    wr: Plan,
}

fn put(w: &mut BitsIOWriter<'_, Flow<'_>>, op: &Op) -> io::Result<()> {
    match *op {
        Op::Bits(x, b) => w.put_bits(x, b),
        Op::Unsigned(x, p) => unsigned_code(x, w, p),
        Op::Inter(x, p) => interleaved_code(x, w, p),
        Op::Signed(x, p) => signed_code(x, w, p),
        Op::Flush => w.flush_write_word(),
    }
}

fn get(r: &mut BitsIOReader<'_, Flow<'_>>, op: &Op) -> io::Result<i64> {
    Ok(match *op {
        Op::Bits(_, b) => r.get_bits(b)? as i64,
        Op::Unsigned(_, p) => unsigned_decode(r, p)? as i64,
        Op::Inter(_, p) => interleaved_decode(r, p)? as i64,
        Op::Signed(_, p) => signed_decode(r, p)? as i64,
        Op::Flush => {
            r.flush_read_word();
            0
        }
    })
}

fn value(op: &Op) -> i64 {
    match *op {
        Op::Bits(x, _) | Op::Unsigned(x, _) => x as i64,
        Op::Inter(x, _) | Op::Signed(x, _) => x as i64,
        Op::Flush => 0,
    }
}

fn bits(c: &B, o: &mut Obs) -> Res {
    c.rd.label(o);
    c.wr.label(o);
    o.nontrivial();
    let mut ops = c.ops.clone();
    ops.push(Op::Flush);
    // position after each operation, in bits
    let mut at = 0usize;
    let ends: Vec<usize> = ops
        .iter()
        .map(|op| {
            at += op_bits(op);
            if matches!(op, Op::Flush) {
                at = at.next_multiple_of(32);
            }
            at
        })
        .collect();
    let steady = Plan { pieces: vec![], fail: None, once: false };
    let mut want = Flow::new(&steady, &[]);
    {
        let mut w = BitsIOWriter::new(&mut want);
        for op in &ops {
            put(&mut w, op).map_err(|e| format!("writing {op:?} fails: {e}"))?;
        }
    }
    let want = want.data;
    ensure!(want.len() == at / 8, "wrote {} bytes where {} bits are due", want.len(), at);

    let mut sink = Flow::new(&c.wr, &[]);
    {
        let mut w = BitsIOWriter::new(&mut sink);
        for (op, end) in ops.iter().zip(&ends) {
            // whole words are handed on at once
            let d = due(&c.wr, end / 32 * 4, usize::MAX, false);
            if expect(&format!("writing {op:?} up to bit {end}"), put(&mut w, op).map_err(Some), d)?.is_none() {
                break;
            }
        }
    }
    let n = c.wr.fail.map_or(want.len(), |f| f.0.min(want.len()));
    ensure!(sink.data == want[..n], "the sink took {:?}, of {:?}", sink.data, want);

    let mut all = want.clone();
    all.extend(&c.tail);
    let mut src = Flow::new(&c.rd, &all);
    let mut r = BitsIOReader::new(&mut src);
    let mut need = 0;
    for (op, end) in ops.iter().zip(&ends) {
        // a word is read when a bit of it is needed
        if !matches!(op, Op::Flush) {
            need = end.div_ceil(32) * 4;
        }
        let d = due(&c.rd, need, all.len(), true);
        match expect(&format!("reading {op:?} up to bit {end}"), get(&mut r, op).map_err(Some), d)? {
            None => return Ok(()),
            Some(v) => ensure!(v == value(op), "read {v}, wrote {op:?}"),
        }
    }
    ensure!(src.pos == need, "reading took {} bytes of the {need} that were needed", src.pos);
    Ok(())
}

fn plan(max: usize) -> BoxedStrategy<Plan> {
    let pieces = prop_oneof![
        1 => Just(vec![]),
        2 => Just(vec![1u8]),
        4 => prop::collection::vec(prop_oneof![1 => Just(0u8), 4 => 1u8..=5, 1 => 6u8..=40], 0..6).prop_map(|mut v| {
            if v.iter().all(|p| *p == 0) {
                v.push(3);
            }
            v
        }),
    ];
    let fail = prop_oneof![2 => Just(None), 3 => (0..=max, any::<u8>()).prop_map(Some), 1 => (0..=max, any::<u8>()).prop_map(|(a, k)| Some((a / 4 * 4, k)))];
    (pieces, fail, any::<bool>()).prop_map(|(pieces, fail, once)| Plan { pieces, fail, once }).boxed()
}

fn tail() -> BoxedStrategy<Vec<u8>> {
    prop::collection::vec(any::<u8>(), 0..12).boxed()
}

fn op() -> BoxedStrategy<Op> {
    let mag = || prop_oneof![4 => 0u32..40, 2 => 0u32..5_000, 1 => 0u32..(1 << 24)];
    let smag = || (mag(), any::<bool>()).prop_map(|(v, n)| if n { -(v as i32) } else { v as i32 });
    let pot = || prop_oneof![4 => 0u32..6, 1 => 0u32..=24];
    prop_oneof![
        3 => (any::<u32>(), 1u32..=32).prop_map(|(x, b)| Op::Bits(x >> (32 - b), b)),
        2 => (mag(), pot()).prop_map(|(x, p)| Op::Unsigned(x, p)),
        2 => (smag(), pot()).prop_map(|(x, p)| Op::Inter(x, p)),
        2 => (smag(), pot()).prop_map(|(x, p)| Op::Signed(x, p)),
        1 => Just(Op::Flush),
    ]
    .boxed()
}

pub fn run(ctx: &mut Ctx) {
    ctx.check(
        "header",
        "a header written to a sink and read from a source that pass 1 to 40 bytes at a time, are interrupted, and fail or end after any number of bytes, for good or for once, with any kind of error; every case counts",
        120_000,
        || {
            (gen::case(Opts { scale: 1, max_samples: usize::MAX, ..Default::default() }), prop_oneof![Just(0u32), any::<u32>()], tail(), plan(40), plan(40))
                .prop_map(|(case, metadata, tail, rd, wr)| H { case, metadata, tail, rd, wr })
        },
        header,
    );
    ctx.check(
        "program",
        "colour programs likewise; every case counts",
        120_000,
        || {
            let int = || prop_oneof![4 => -9i32..=9, 3 => -40_000i32..=40_000, 1 => any::<i32>()];
            let den = prop_oneof![3 => Just(1i32), 3 => 1i32..=300, 1 => 1i32..=i32::MAX];
            let tr = (0usize..400, prop::collection::vec((0usize..400, int()), 0..6), den, any::<bool>())
                .prop_map(|(dest, factors, den, chroma)| Transform { dest, factors, den, chroma });
            (1usize..400, prop::collection::vec(tr, 0..7), tail(), plan(60), plan(60)).prop_map(|(n, ts, tail, rd, wr)| P { n, ts, tail, rd, wr })
        },
        program,
    );
    ctx.check(
        "bits",
        "up to 60 bit fields, codes and flushes likewise: the first operation that needs a byte behind the failure fails with that error, all before it succeed, no word is taken before a bit of it is needed; every case counts",
        150_000,
        || (prop::collection::vec(op(), 0..60), tail(), plan(120), plan(120)).prop_map(|(ops, tail, rd, wr)| B { ops, tail, rd, wr }),
        bits,
    );
}
