//! Calls without memory.
use super::*;
use gfwx::{compress_aux_data, decompress_aux_data, interleaved_to_planar, planar_to_interleaved, ColorTransformProgram};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::content::mix;
use vh::gen::{self, Opts};
use vh::map::Mapped;
use vh::{ensure, Ctx, Obs, Res};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Op {
    Compress,
    /// compress into too small a buffer of this many 256ths of what would do
    Squeeze(u8),
    Decompress { d: u8, test: bool },
    /// decode a part of the stream
    Part { d: u8, upto: u16, test: bool },
    /// decode a damaged stream
    Damaged { d: u8, at: u16, xor: u8 },
    CompressAux,
    DecompressAux { d: u8, test: bool },
    PartAux { d: u8, upto: u16, test: bool },
    Transform { planar: bool },
    Detransform { planar: bool },
    Convert { skip: u8 },
    HeaderCode,
    HeaderGarbage(u8),
    ProgramCode,
    ProgramGarbage(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hist {
    case: Case,
    /// further cases that differ from the first in a few fields
    vary: Vec<(u8, u64)>,
    ops: Vec<(u8, Op)>,
    seed: u64,
}

struct World {
    case: Case,
    header: Header,
    prog: ColorTransformProgram,
    chroma: Vec<bool>,
    img: Vec<u8>,
    planar: Vec<i16>,
    stream: Vec<u8>,
    plen: usize,
}

/// What the surroundings of a call look like.
#[derive(Clone, Copy)]
struct Env {
    fill: u64,
    surplus: bool,
}

/// A buffer that starts at some distance from where the allocator puts it.
struct Placed<T> {
    v: Vec<T>,
    shift: usize,
}
impl<T> std::ops::Deref for Placed<T> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        &self.v[self.shift..]
    }
}
impl<T> std::ops::DerefMut for Placed<T> {
    fn deref_mut(&mut self) -> &mut [T] {
        &mut self.v[self.shift..]
    }
}

impl Env {
    /// Elements by which buffers are displaced: alignment must not matter either.
    fn shift(&self, salt: u64) -> usize {
        if self.surplus {
            (mix(self.fill ^ salt) % 8) as usize
        } else {
            0
        }
    }
    fn place<T: Copy + Default>(&self, data: &[T], salt: u64) -> Placed<T> {
        let shift = self.shift(salt);
        let mut v = vec![T::default(); shift];
        v.extend_from_slice(data);
        Placed { v, shift }
    }
    fn b(&self, i: usize) -> u8 {
        match self.fill {
            0 => 0,
            1 => 255,
            f => mix(f ^ i as u64) as u8,
        }
    }
    fn bytes(&self, n: usize) -> Placed<u8> {
        let n = n + if self.surplus { (mix(self.fill ^ 0xabc) % 70) as usize } else { 0 };
        self.place(&(0..n).map(|i| self.b(i)).collect::<Vec<_>>(), 1)
    }
    fn words(&self, n: usize) -> Placed<i16> {
        let n = n + if self.surplus { (mix(self.fill ^ 0xabd) % 70) as usize } else { 0 };
        self.place(&(0..n).map(|i| (self.b(i) as u16 * 257) as i16).collect::<Vec<_>>(), 2)
    }
}

fn kind(e: &DecompressError) -> String {
    match e {
        DecompressError::IOErr(e) => format!("IOErr {:?}", e.kind()),
        e => format!("{e:?}"),
    }
}

fn w16(v: &[i16]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_le_bytes()).collect()
}

/// The whole observable result of a call, as text and bytes.
fn perform(w: &World, op: &Op, env: Env) -> Result<(String, Vec<u8>), String> {
    let h = &w.header;
    let n = w.img.len();
    let top = w.case.top_step().trailing_zeros() as usize;
    let input = |upto: usize| -> Placed<u8> {
        let mut v = w.stream[HEADER..HEADER + upto].to_vec();
        if env.surplus && upto == w.stream.len() - HEADER {
            // bytes after the end of a complete stream
            v.extend((0..mix(env.fill ^ 77) as usize % 90).map(|i| env.b(i)));
        }
        env.place(&v, 3)
    };
    let unchanged8 = |what: &str, a: &[u8], b: &[u8]| diff(&format!("{what}, an input, after the call"), a, b);
    Ok(match op {
        Op::Compress => {
            let mut buf = env.bytes(w.case.roomy());
            let img = env.place(&w.img, 4);
            let r = compress_simple(&img, h, &w.prog, &mut buf);
            unchanged8("image", &img, &w.img)?;
            match r {
                Ok(k) => ("ok".into(), buf[..k].to_vec()),
                Err(e) => (format!("{e:?}"), vec![]),
            }
        }
        Op::Squeeze(q) => {
            let len = w.stream.len() * *q as usize / 256;
            let mut buf: Vec<u8> = (0..len).map(|i| env.b(i)).collect();
            match compress_simple(&w.img, h, &w.prog, &mut buf) {
                Ok(k) => {
                    buf.truncate(k);
                    ("ok".into(), buf)
                }
                Err(_) => ("error".into(), vec![]),
            }
        }
        Op::Decompress { d, test } => decompress(w, input(w.stream.len() - HEADER), *d as usize % (top + 2), *test, env)?,
        Op::Part { d, upto, test } => {
            let len = w.plen + (w.stream.len() - HEADER - w.plen) * *upto as usize / 65536;
            decompress(w, input(len), *d as usize % (top + 2), *test, env)?
        }
        Op::Damaged { d, at, xor } => {
            let mut v = w.stream[HEADER..].to_vec();
            let i = v.len() * *at as usize / 65536;
            v[i] ^= xor;
            decompress(w, env.place(&v, 7), *d as usize % (top + 2), false, env)?
        }
        Op::CompressAux => {
            let mut buf = env.bytes(w.case.roomy());
            let mut aux = env.place(&w.planar, 6);
            match compress_aux_data(&mut aux, h, &w.chroma, &mut buf) {
                Ok(k) => ("ok".into(), buf[..k].to_vec()),
                Err(e) => (format!("{e:?}"), vec![]),
            }
        }
        Op::DecompressAux { d, test } => decompress_aux(w, input(w.stream.len() - HEADER), *d as usize % (top + 2), *test, env)?,
        Op::PartAux { d, upto, test } => {
            let len = w.plen + (w.stream.len() - HEADER - w.plen) * *upto as usize / 65536;
            decompress_aux(w, input(len), *d as usize % (top + 2), *test, env)?
        }
        Op::Transform { planar } => {
            let mut aux = env.words(n);
            let img = env.place(&w.img, 5);
            if *planar {
                w.prog.transform(&img, h, &mut aux);
            } else {
                w.prog.transform_and_to_planar(&img, h, &mut aux);
            }
            unchanged8("image", &img, &w.img)?;
            ("ok".into(), w16(&aux[..n]))
        }
        Op::Detransform { planar } => {
            let mut aux = env.place(&w.planar, 6);
            let mut out = env.bytes(n);
            if *planar {
                w.prog.detransform(&mut aux, h, w.case.pixels(), &mut out);
            } else {
                w.prog.detransform_and_to_interleaved(&mut aux, h, w.case.pixels(), &mut out);
            }
            ("ok".into(), out[..n].to_vec())
        }
        Op::Convert { skip } => {
            // one layer as the conversion sees it
            let ch = w.case.n();
            let skip: Vec<usize> = (0..ch.min(8)).filter(|c| skip >> c & 1 == 1).collect();
            let kept = (ch - skip.len()) * w.case.pixels();
            let mut aux = env.words(kept);
            interleaved_to_planar(&w.img, ch, 8, &mut aux, &skip);
            let mut out = vec![3u8; n];
            let before = aux.to_vec();
            planar_to_interleaved(&aux, ch, 8, &mut out, &skip);
            ensure!(aux[..] == before[..], "planar_to_interleaved changes its input");
            let mut r = w16(&aux[..kept]);
            r.extend(out);
            ("ok".into(), r)
        }
        Op::HeaderCode => {
            let mut v = vec![];
            h.encode(&mut v).map_err(|e| e.to_string())?;
            if env.surplus {
                v.extend((0..40).map(|i| env.b(i)));
            }
            let copy = v.clone();
            let mut rd = &v[..];
            let g = Header::decode(&mut rd);
            let text = format!("{g:?} {}", v.len() - rd.len());
            unchanged8("header", &v, &copy)?;
            v.truncate(HEADER);
            (text, v)
        }
        Op::HeaderGarbage(x) => {
            let mut v = w.stream[..HEADER].to_vec();
            v[*x as usize % HEADER] ^= x | 1;
            (format!("{:?}", Header::decode(&mut &v[..])), vec![])
        }
        Op::ProgramCode => {
            let mut v = vec![];
            let c = w.prog.encode(w.case.n(), &mut v).map_err(|e| e.to_string())?;
            let len = v.len();
            if env.surplus {
                v.extend((0..40).map(|i| env.b(i)));
            }
            let mut ch: Vec<bool> = (0..w.case.n()).map(|_| false).collect();
            let mut rd = &v[..];
            let p = ColorTransformProgram::decode(&mut rd, &mut ch).map_err(|e| kind(&e))?;
            let text = format!("{c:?} {p:?} {ch:?} {}", v.len() - rd.len());
            v.truncate(len);
            (text, v)
        }
        Op::ProgramGarbage(x) => {
            let v: Vec<u8> = (0..12).map(|i| mix(x ^ i) as u8).collect();
            let mut ch = vec![false; w.case.n()];
            match ColorTransformProgram::decode(&mut &v[..], &mut ch) {
                Ok(p) => (format!("{p:?} {ch:?}"), vec![]),
                Err(e) => (kind(&e), vec![]),
            }
        }
    })
}

fn decompress(w: &World, data: Placed<u8>, d: usize, test: bool, env: Env) -> Result<(String, Vec<u8>), String> {
    let n = w.header.get_decompress_buffer_size(d);
    let mut out = env.bytes(n);
    let copy = data.to_vec();
    let r = decompress_simple(&data, &w.header, d, test, &mut out);
    diff("data, an input, after the call", &data, &copy)?;
    Ok(match r {
        Ok(k) => (format!("ok {k}"), if test { vec![] } else { out[..n].to_vec() }),
        // several damaged blocks: which of their errors is reported is open
        Err(_) => ("error".into(), vec![]),
    })
}

fn decompress_aux(w: &World, data: Placed<u8>, d: usize, test: bool, env: Env) -> Result<(String, Vec<u8>), String> {
    let n = w.header.get_downsampled_image_size(d);
    let mut out = env.words(n);
    let r = decompress_aux_data(&data[w.plen..], &w.header, &w.chroma, d, test, &mut out);
    Ok(match r {
        Ok(k) => (format!("ok {k}"), if test { vec![] } else { w16(&out[..n]) }),
        Err(_) => ("error".into(), vec![]),
    })
}

fn vary(base: &Case, which: u8, r: u64) -> Case {
    let mut c = base.clone();
    for k in 0..8 {
        if which >> k & 1 == 0 {
            continue;
        }
        let r = mix(r ^ k as u64);
        match k {
            0 => c.quality = 1 + (r % 1024) as u16,
            1 => c.encoder = (r % 3) as u8,
            2 => c.filter = (r % 2) as u8,
            3 => c.block = 2 + (r % 8) as u8,
            4 => c.chroma = 1 + (r % 12) as u8,
            5 => std::mem::swap(&mut c.w, &mut c.h),
            6 => c.prog = vh::run::generate(&gen::prog(false), r),
            _ => c.content = vec![vh::run::generate(&gen::content(), r)],
        }
    }
    c
}

fn world(case: Case) -> Result<World, String> {
    let header = case.header();
    let img = case.image();
    let stream = encode(&case, &header, &img)?;
    let mut planar = vec![0i16; img.len()];
    let prog = case.program();
    prog.transform_and_to_planar(&img, &header, &mut planar);
    Ok(World { plen: c08::program_len(&case)?, prog, chroma: case.is_chroma(), header, img, planar, stream, case })
}

fn history(h: &Hist, o: &mut Obs) -> Res {
    let mut worlds = vec![world(h.case.clone())?];
    for &(which, r) in &h.vary {
        worlds.push(world(vary(&h.case, which, r))?);
    }
    h.case.classify(o);
    let at = |i: u8| &worlds[i as usize % worlds.len()];
    let mut first: Vec<Option<(String, Vec<u8>)>> = vec![None; h.ops.len()];
    let check = |j: usize, env: Env, first: &mut Vec<Option<(String, Vec<u8>)>>, how: &str| -> Res {
        let (i, op) = &h.ops[j];
        let got = perform(at(*i), op, env).map_err(|e| format!("{op:?} on case {}: {e}", *i as usize % worlds.len()))?;
        match &first[j] {
            None => first[j] = Some(got),
            Some(f) => {
                ensure!(f.0 == got.0, "{op:?} {how}: {} instead of {}", got.0, f.0);
                diff(&format!("{op:?} {how}"), &got.1, &f.1)?;
            }
        }
        Ok(())
    };
    for j in 0..h.ops.len() {
        check(j, Env { fill: 0, surplus: false }, &mut first, "")?;
    }
    let mut order: Vec<usize> = (0..h.ops.len()).collect();
    for round in 0..3u64 {
        for i in (1..order.len()).rev() {
            order.swap(i, (mix(h.seed ^ round << 20 ^ i as u64) % (i as u64 + 1)) as usize);
        }
        for &j in &order {
            let env = Env { fill: [1, mix(h.seed ^ j as u64) | 2, mix(h.seed ^ 5 ^ j as u64) | 2][round as usize], surplus: round > 0 };
            check(j, env, &mut first, ["repeated with buffers full of 255", "repeated later with other buffers and surplus room and data", "repeated once more"][round as usize])?;
        }
    }
    // in a thread that has made no calls yet
    let mut err = Ok(());
    std::thread::scope(|s| {
        let r = s.spawn(|| {
            let mut first = first.clone();
            vh::run::no_panic(|| {
                let j = *order.first().unwrap_or(&0);
                if h.ops.is_empty() {
                    return Ok(());
                }
                check(j, Env { fill: 0, surplus: false }, &mut first, "in a fresh thread")
            })
        });
        err = r.join().unwrap_or_else(|_| Err("thread panicked".into())).and_then(|x| x);
    });
    err?;
    if h.ops.len() >= 3 && h.case.pixels() > 1 {
        o.nontrivial();
    }
    o.label_if(first.iter().flatten().any(|f| f.0 == "error"), "some call fails");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Vast {
    case: Case,
    d: u8,
    more: u16,
}

/// A complete stream at the start of more than 4 GiB of data, decoded into longer buffers. Address space is all they take.
fn vast(v: &Vast, o: &mut Obs) -> Res {
    let w = world(v.case.clone())?;
    let room = (4usize << 30) + v.more as usize;
    let (Some(mut data), Some(mut out), Some(mut aux)) = (Mapped::new(room), Mapped::new(room), Mapped::new(2 * room)) else {
        o.skip();
        return Ok(());
    };
    w.case.classify(o);
    if w.case.pixels() > 1 {
        o.nontrivial();
    }
    let d = v.d as usize % (w.case.top_step().trailing_zeros() as usize + 2);
    let payload = &w.stream[HEADER..];
    let n = w.header.get_decompress_buffer_size(d);
    let (r, want) = decode(&w.header, payload, d, false).map_err(|e| derr(&e))?;
    data.bytes()[..payload.len()].copy_from_slice(payload);
    let got = decompress_simple(data.bytes(), &w.header, d, false, &mut out.bytes()[..n]).map_err(|e| format!("{} with {room} bytes of data", derr(&e)))?;
    ensure!(r == got, "status {got} in place of {r} with {room} bytes of data");
    diff(&format!("pixels with {room} bytes of data"), &out.bytes()[..n], &want)?;
    out.bytes()[..n].fill(0);
    let got = decompress_simple(payload, &w.header, d, false, out.bytes()).map_err(|e| format!("{} with {room} bytes of output", derr(&e)))?;
    ensure!(r == got, "status {got} in place of {r} with {room} bytes of output");
    diff(&format!("pixels with {room} bytes of output"), &out.bytes()[..n], &want)?;
    let k = w.header.get_downsampled_image_size(d);
    let mut planes = vec![0i16; k];
    let r = decompress_aux_data(&payload[w.plen..], &w.header, &w.chroma, d, false, &mut planes).map_err(|e| derr(&e))?;
    let got = decompress_aux_data(&data.bytes()[w.plen..], &w.header, &w.chroma, d, false, aux.words()).map_err(|e| format!("decompress_aux_data: {} with {room} samples of room", derr(&e)))?;
    ensure!(r == got, "decompress_aux_data: status {got} in place of {r} with {room} samples of room");
    diff(&format!("samples with {room} samples of room"), &w16(&aux.words()[..k]), &w16(&planes))
}

fn op() -> BoxedStrategy<Op> {
    let d = || prop_oneof![2 => Just(0u8), 1 => 0u8..12];
    prop_oneof![
        3 => Just(Op::Compress),
        1 => any::<u8>().prop_map(Op::Squeeze),
        4 => (d(), any::<bool>()).prop_map(|(d, t)| Op::Decompress { d, test: t }),
        3 => (d(), any::<u16>(), prop_oneof![3 => Just(false), 1 => Just(true)]).prop_map(|(d, upto, test)| Op::Part { d, upto, test }),
        2 => (d(), any::<u16>(), 1u8..=255).prop_map(|(d, at, xor)| Op::Damaged { d, at, xor }),
        3 => Just(Op::CompressAux),
        3 => (d(), prop_oneof![3 => Just(false), 1 => Just(true)]).prop_map(|(d, t)| Op::DecompressAux { d, test: t }),
        3 => (d(), any::<u16>(), prop_oneof![3 => Just(false), 1 => Just(true)]).prop_map(|(d, upto, test)| Op::PartAux { d, upto, test }),
        2 => any::<bool>().prop_map(|planar| Op::Transform { planar }),
        2 => any::<bool>().prop_map(|planar| Op::Detransform { planar }),
        1 => any::<u8>().prop_map(|skip| Op::Convert { skip }),
        1 => Just(Op::HeaderCode),
        1 => any::<u8>().prop_map(Op::HeaderGarbage),
        1 => Just(Op::ProgramCode),
        1 => any::<u64>().prop_map(Op::ProgramGarbage),
    ]
    .boxed()
}

fn strat(o: Opts, ops: usize) -> BoxedStrategy<Hist> {
    (gen::case(o), prop::collection::vec((any::<u8>(), any::<u64>()), 0..3), prop::collection::vec((any::<u8>(), op()), 1..=ops), any::<u64>())
        .prop_map(|(case, vary, ops, seed)| Hist { case, vary, ops, seed })
        .boxed()
}

pub fn run(ctx: &mut Ctx) {
    ctx.check(
        "small",
        "histories of up to 12 calls of all public functions over up to 3 cases that differ in a few settings, some calls failing; every call is repeated three times in other orders, with other contents and alignment of the buffers, surplus room and surplus data, and once in a fresh thread; non-trivial: three or more calls on more than one pixel",
        10_000,
        || strat(Opts { scale: 0, max_samples: 3_000, ..Default::default() }, 12),
        history,
    );
    ctx.check("medium", "as small, up to 8 calls, images of up to 100 000 samples", 500, || strat(Opts { scale: 1, max_samples: 100_000, ..Default::default() }, 8), history);
    ctx.check("wild", "as small, with any colour factors and denominators", 2_000, || strat(Opts { scale: 0, max_samples: 2_000, wild: true, ..Default::default() }, 8), history);
    ctx.check("large", "as small, up to 4 calls, images of up to 800 000 samples", 16, || strat(Opts { scale: 2, max_samples: 800_000, ..Default::default() }, 4), history);
    if ctx.build == "release" {
        ctx.check(
            "vast",
            "images of up to 2000 samples, decoded from more than 4 GiB of data and into longer buffers of more than 4 GiB; non-trivial: more than one pixel",
            2_000,
            || (gen::case(Opts { scale: 0, max_samples: 2_000, ..Default::default() }), prop_oneof![2 => Just(0u8), 1 => 0u8..12], any::<u16>()).prop_map(|(case, d, more)| Vast { case, d, more }),
            vast,
        );
    }
}
