//! Failures say what went wrong.
use super::*;
use gfwx::errors::{CompressError, HeaderErr};
use gfwx::{compress_aux_data, decompress_aux_data, ColorTransformProgram, HeaderBuilder};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::error::Error;
use std::io::ErrorKind;
use vh::content::mix;
use vh::gen::{self, Opts, Transform};
use vh::{ensure, Ctx, Obs, Res};

fn said(e: &dyn Error) -> Res {
    let t = e.to_string();
    ensure!(!t.trim().is_empty() && !format!("{e:?}").is_empty(), "an error without a text");
    Ok(())
}

// ---- headers

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit {
    /// the source ends early
    Cut(u8),
    /// one of the first four bytes differs
    Magic(u8, u8),
    Field(Field),
    /// a byte string of 32 bytes that is no header
    Noise(Vec<u8>),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Field {
    Width(u32),
    Height(u32),
    Channels,
    Layers,
    Chroma,
    Signed,
    Depth(u8),
    Intent(u8),
    Encoder(u8),
    Quantization(u8),
    Filter(u8),
    Metadata(u32),
    Block,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct H {
    case: Case,
    edit: Edit,
    more: Option<Field>,
}

fn set(b: &mut [u8], f: Field) {
    let bad_side = |v: u32| if v % 5 == 0 { 0 } else { (v | 1 << 30).max(1 << 30) };
    match f {
        Field::Width(v) => b[8..12].copy_from_slice(&bad_side(v).to_le_bytes()),
        Field::Height(v) => b[12..16].copy_from_slice(&bad_side(v).to_le_bytes()),
        Field::Channels => b[16..18].copy_from_slice(&[255, 255]),
        Field::Layers => b[18..20].copy_from_slice(&[255, 255]),
        Field::Block => b[20] |= 31,
        Field::Chroma => {
            b[20] |= 0xe0;
            b[21] |= 0x1f;
        }
        Field::Signed => b[22] |= 0x80,
        Field::Depth(v) => b[23] = v.max(8),
        Field::Intent(v) => b[24] = if gen::INTENTS.contains(&v) { 99 } else { v },
        Field::Encoder(v) => b[25] = v.max(3),
        Field::Quantization(v) => b[26] = v.max(1),
        Field::Filter(v) => b[27] = v.max(2),
        Field::Metadata(v) => b[28..32].copy_from_slice(&(v | 1 << 30).to_le_bytes()),
    }
}

fn header(c: &H, o: &mut Obs) -> Res {
    let h = c.case.header();
    let mut b = vec![];
    h.encode(&mut b).map_err(|e| e.to_string())?;
    o.nontrivial();
    let show = |r: &Result<Header, HeaderErr>| format!("{r:?}");
    match &c.edit {
        Edit::Cut(n) => {
            o.label("cut");
            b.truncate(*n as usize % 32);
            let r = Header::decode(&mut &b[..]);
            match &r {
                Err(HeaderErr::IOErr(e)) if e.kind() == ErrorKind::UnexpectedEof => said(r.as_ref().unwrap_err()),
                _ => Err(format!("a header cut to {} bytes gives {} in place of an I/O error for the unexpected end", b.len(), show(&r))),
            }
        }
        Edit::Magic(i, x) => {
            o.label("magic");
            b[*i as usize % 4] ^= (*x).max(1);
            if let Some(f) = c.more {
                set(&mut b, f);
            }
            let r = Header::decode(&mut &b[..]);
            match &r {
                Err(HeaderErr::WrongMagic) => said(r.as_ref().unwrap_err()),
                _ => Err(format!("bytes without the magic give {}", show(&r))),
            }
        }
        Edit::Noise(n) => {
            o.label("noise");
            let mut n = n.clone();
            n.resize(32, 0xA5);
            if n[..4] == b[..4] {
                n[0] ^= 1;
            }
            let r = Header::decode(&mut &n[..]);
            match &r {
                Err(HeaderErr::WrongMagic) => said(r.as_ref().unwrap_err()),
                _ => Err(format!("bytes without the magic give {}", show(&r))),
            }
        }
        Edit::Field(f) => {
            o.label("field");
            set(&mut b, *f);
            if let Some(f) = c.more {
                set(&mut b, f);
            }
            let r = Header::decode(&mut &b[..]);
            match &r {
                Err(HeaderErr::WrongValue(t)) => {
                    ensure!(!t.trim().is_empty(), "a wrong value without a text");
                    said(r.as_ref().unwrap_err())
                }
                _ => Err(format!("a header with {f:?} spoilt gives {}", show(&r))),
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bld {
    case: Case,
    which: u8,
    v: u32,
}

fn builder(c: &Bld, o: &mut Obs) -> Res {
    o.nontrivial();
    let h = c.case.header();
    let mut b = HeaderBuilder {
        width: h.width,
        height: h.height,
        layers: h.layers,
        channels: h.channels,
        quality: h.quality,
        chroma_scale: h.chroma_scale,
        block_size: h.block_size,
        filter: h.filter,
        encoder: h.encoder,
        intent: h.intent,
        metadata_size: 0,
    };
    match c.which % 8 {
        0 => b.width = if c.v % 2 == 0 { 0 } else { c.v | 1 << 30 },
        1 => b.height = if c.v % 2 == 0 { 0 } else { c.v | 1 << 30 },
        2 => b.layers = 0,
        3 => b.channels = 0,
        4 => b.quality = if c.v % 2 == 0 { 0 } else { (c.v as u16).max(1025) },
        5 => b.chroma_scale = 0,
        6 => b.block_size = if c.v % 2 == 0 { c.v as u8 / 2 % 2 } else { (c.v as u8).max(31) },
        _ => b.metadata_size = c.v & !3 | c.v % 3 + 1,
    }
    match b.build() {
        Err(e @ HeaderErr::WrongValue(_)) => said(&e),
        r => Err(format!("building a header with a wrong parameter (number {}) gives {r:?}", c.which % 8)),
    }
}

// ---- programs

/// Codes of the format, by its definition.
#[derive(Default)]
struct Bits(Vec<bool>);
impl Bits {
    fn unsigned(&mut self, x: u32, pot: u32) {
        let y = x >> pot;
        if y >= 12 {
            self.0.extend([false; 12]);
            self.unsigned(x - (12 << pot), if pot < 20 { pot + 4 } else { 24 });
        } else {
            self.0.extend((0..y).map(|_| false));
            self.0.push(true);
            self.0.extend((0..pot).rev().map(|i| x >> i & 1 == 1));
        }
    }
    fn signed(&mut self, x: i32) {
        self.unsigned(x.unsigned_abs(), 2);
        if x != 0 {
            self.0.push(x > 0);
        }
    }
    fn bytes(mut self) -> Vec<u8> {
        while self.0.len() % 32 != 0 {
            self.0.push(false);
        }
        self.0.chunks(32).flat_map(|w| w.iter().fold(0u32, |a, b| a << 1 | *b as u32).to_le_bytes()).collect()
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Flaw {
    Cut(u16),
    Dest(u8, u32),
    Source(u8, u32),
    Den(u8, i32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct P {
    case: Case,
    ts: Vec<Transform>,
    flaw: Flaw,
    d: u8,
    test: bool,
}

fn program(c: &P, o: &mut Obs) -> Res {
    o.nontrivial();
    let n = c.case.n();
    let mut ts = c.ts.clone();
    for t in &mut ts {
        t.dest %= n;
        for f in &mut t.factors {
            f.0 %= n;
        }
    }
    let k = |i: u8| i as usize % ts.len();
    let missing = |v: u32| n + v as usize % 1_000_000;
    match c.flaw {
        Flaw::Cut(_) => {}
        Flaw::Dest(i, v) => {
            let k = k(i);
            ts[k].dest = missing(v);
        }
        Flaw::Source(i, v) => {
            let k = k(i);
            if ts[k].factors.is_empty() {
                ts[k].factors.push((0, 1));
            }
            let j = v as usize % ts[k].factors.len();
            ts[k].factors[j].0 = missing(v / 8);
        }
        Flaw::Den(i, v) => {
            let k = k(i);
            ts[k].den = if v > 0 { -v } else { v };
        }
    }
    let mut b = Bits::default();
    for t in &ts {
        b.signed(t.dest as i32);
        for f in &t.factors {
            b.signed(f.0 as i32);
            b.signed(f.1);
        }
        b.signed(-1);
        b.signed(t.den);
        b.signed(t.chroma as i32);
    }
    b.signed(-1);
    let mut bytes = b.bytes();
    let cut = matches!(c.flaw, Flaw::Cut(_));
    if let Flaw::Cut(at) = c.flaw {
        o.label("cut");
        bytes.truncate(at as usize % bytes.len());
    } else {
        o.label("flawed");
        bytes.extend([0x55; 64]);
    }
    let judge = |what: &str, r: Result<(), DecompressError>| match r {
        Err(DecompressError::IOErr(e)) if cut && e.kind() == ErrorKind::UnexpectedEof => Ok(()),
        Err(e @ DecompressError::Malformed) if !cut => said(&e),
        r => Err(format!("{what} a program with the flaw {:?} gives {r:?}", c.flaw)),
    };
    let mut flags = vec![false; n];
    judge("reading", ColorTransformProgram::decode(&mut &bytes[..], &mut flags).map(drop))?;
    let h = c.case.header();
    judge("decompressing", decode(&h, &bytes, c.d as usize, c.test).map(drop))
}

// ---- room

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Room {
    case: Case,
    lens: Vec<u32>,
}

fn room(c: &Room, o: &mut Obs) -> Res {
    let h = c.case.header();
    let img = c.case.image();
    let full = encode(&c.case, &h, &img)?;
    let p = c.case.program();
    let is_chroma = c.case.is_chroma();
    let mut head = 32usize;
    let mut tmp = vec![];
    p.encode(c.case.n(), &mut tmp).map_err(|e| e.to_string())?;
    head += tmp.len();
    let judge = |what: &str, len: usize, r: Result<usize, CompressError>| -> Result<bool, String> {
        match r {
            Ok(_) => Ok(false),
            Err(CompressError::Overflow) => said(&CompressError::Overflow).map(|_| true),
            Err(CompressError::IOErr(e)) if e.kind() == ErrorKind::WriteZero => said(&CompressError::IOErr(e)).map(|_| true),
            Err(e) => Err(format!("{what} into {len} bytes, of a stream of {}, gives {e:?} in place of an error for lack of room", full.len())),
        }
    };
    let mut aux = vec![0i16; img.len()];
    for (i, l) in c.lens.iter().enumerate() {
        let len = match i % 4 {
            0 => *l as usize % (full.len() + 1),
            1 => *l as usize % (head + 8).min(full.len()),
            2 => full.len() - 1 - *l as usize % full.len().min(8),
            _ => *l as usize % (2 * full.len()),
        };
        let mut buf = vec![0u8; len];
        if judge("compression", len, compress_simple(&img, &h, &p, &mut buf))? {
            o.nontrivial();
        } else if len < full.len() {
            return Err(format!("a stream of {} bytes is compressed into {len}", full.len()));
        }
        p.transform_and_to_planar(&img, &h, &mut aux);
        judge("compression of planar samples", len, compress_aux_data(&mut aux, &h, &is_chroma, &mut buf))?;
    }
    Ok(())
}

// ---- lists and work buffers

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Short {
    case: Case,
    aux: u32,
    list: u32,
    d: u8,
    test: bool,
    room: u32,
    data: Vec<u8>,
}

fn short(c: &Short, o: &mut Obs) -> Res {
    o.nontrivial();
    let h = c.case.header();
    let n = c.case.n();
    let list = if c.list % 3 == 0 { n } else { c.list as usize / 3 % n };
    let at = |full: usize| if list == n || c.aux % 2 == 0 { c.aux as usize / 2 % full } else { full };
    o.label(if list == n { "work buffer" } else { "list" });
    let mut aux = vec![0i16; at(c.case.samples())];
    let flags = vec![c.test; list];
    let mut buf = vec![0u8; c.room as usize];
    match compress_aux_data(&mut aux, &h, &flags, &mut buf) {
        Err(e @ CompressError::Malformed) => said(&e)?,
        r => return Err(format!("compression of {} of {} samples with {list} of {n} flags gives {r:?}", aux.len(), c.case.samples())),
    }
    let d = c.d as usize % 8;
    let full = h.get_downsampled_image_size(d);
    let mut aux = vec![0i16; at(full)];
    match decompress_aux_data(&c.data, &h, &flags, d, c.test, &mut aux) {
        Err(e @ DecompressError::Malformed) => said(&e),
        r => Err(format!("decompression into {} of {full} samples with {list} of {n} flags gives {r:?}", aux.len())),
    }
}

// ---- damaged image data

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Dmg {
    case: Case,
    d: u8,
    test: bool,
    /// positions and values; behind the program
    edits: Vec<(u32, u8)>,
    cut: Option<u32>,
    noise: Option<u64>,
}

fn damaged(c: &Dmg, o: &mut Obs) -> Res {
    let h = c.case.header();
    let s = encode(&c.case, &h, &c.case.image())?;
    let mut program = vec![];
    c.case.program().encode(c.case.n(), &mut program).map_err(|e| e.to_string())?;
    let head = program.len();
    let mut data = s[32..].to_vec();
    if let Some(seed) = c.noise {
        o.label("noise");
        for i in head..data.len() {
            data[i] = mix(seed ^ i as u64) as u8;
        }
    }
    let room = data.len() - head;
    for (p, v) in &c.edits {
        data[head + *p as usize % room] = *v;
    }
    if let Some(cut) = c.cut {
        data.truncate(head + cut as usize % (room + 1));
    }
    match decode(&h, &data, c.d as usize, c.test) {
        Ok(_) => o.label("decoded"),
        Err(e @ DecompressError::Underflow) => {
            o.label("rejected");
            o.nontrivial();
            said(&e)?
        }
        Err(e) => return Err(format!("damaged image data gives {e:?} in place of Underflow")),
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    let small = || gen::case(Opts { scale: 0, max_samples: 3_000, ..Default::default() });
    let medium = || gen::case(Opts { scale: 1, max_samples: 80_000, ..Default::default() });
    let field = || {
        prop_oneof![
            any::<u32>().prop_map(Field::Width),
            any::<u32>().prop_map(Field::Height),
            Just(Field::Channels),
            Just(Field::Layers),
            Just(Field::Chroma),
            Just(Field::Signed),
            Just(Field::Block),
            any::<u8>().prop_map(Field::Depth),
            any::<u8>().prop_map(Field::Intent),
            any::<u8>().prop_map(Field::Encoder),
            any::<u8>().prop_map(Field::Quantization),
            any::<u8>().prop_map(Field::Filter),
            any::<u32>().prop_map(Field::Metadata),
        ]
    };
    let edit = move || {
        prop_oneof![
            2 => any::<u8>().prop_map(Edit::Cut),
            2 => (any::<u8>(), any::<u8>()).prop_map(|(i, x)| Edit::Magic(i, x)),
            6 => field().prop_map(Edit::Field),
            1 => prop::collection::vec(any::<u8>(), 32).prop_map(Edit::Noise),
        ]
    };
    ctx.check(
        "header",
        "valid headers, cut short (I/O error, unexpected end), without the magic (wrong magic), or with one or two fields the format or this codec cannot take (wrong value); every case counts",
        100_000,
        move || (small(), edit(), prop_oneof![2 => Just(None), 1 => field().prop_map(Some)]).prop_map(|(case, edit, more)| H { case, edit, more }),
        header,
    );
    ctx.check("builder", "builders with one parameter out of range; every case counts", 40_000, move || (small(), any::<u8>(), any::<u32>()).prop_map(|(case, which, v)| Bld { case, which, v }), builder);
    ctx.check(
        "program",
        "programs written by the format's definition, then cut (I/O error, unexpected end), or with a channel that does not exist or a denominator that is not positive (malformed), read and decompressed with; every case counts",
        60_000,
        move || {
            let int = || prop_oneof![4 => -9i32..=9, 3 => -40_000i32..=40_000, 1 => any::<i32>()];
            let tr = (0usize..400, prop::collection::vec((0usize..400, int()), 0..5), prop_oneof![1i32..300, 1..=i32::MAX], any::<bool>())
                .prop_map(|(dest, factors, den, chroma)| Transform { dest, factors, den, chroma });
            let far = || prop_oneof![2 => Just(0u32), 1 => 0u32..100, 1 => any::<u32>()];
            let flaw = prop_oneof![
                any::<u16>().prop_map(Flaw::Cut),
                (any::<u8>(), far()).prop_map(|(i, v)| Flaw::Dest(i, v)),
                (any::<u8>(), far()).prop_map(|(i, v)| Flaw::Source(i, v)),
                (any::<u8>(), prop_oneof![1 => Just(0i32), 1 => -20i32..=0, 1 => -i32::MAX..=0]).prop_map(|(i, v)| Flaw::Den(i, v)),
            ];
            (small(), prop::collection::vec(tr, 1..5), flaw, 0u8..8, any::<bool>()).prop_map(|(case, ts, flaw, d, test)| P { case, ts, flaw, d, test })
        },
        program,
    );
    ctx.check(
        "room",
        "compression into buffers of all lengths: a failure is Overflow or an I/O error for lack of room; non-trivial: some buffer is too small",
        15_000,
        move || (small(), prop::collection::vec(any::<u32>(), 4..12)).prop_map(|(case, lens)| Room { case, lens }),
        room,
    );
    ctx.check(
        "short",
        "compression and decompression with a work buffer or a chroma list too short for the header, whatever the data: malformed; every case counts",
        40_000,
        move || {
            (small(), any::<u32>(), any::<u32>(), any::<u8>(), any::<bool>(), prop_oneof![0u32..200, 0u32..40_000], prop::collection::vec(any::<u8>(), 0..60))
                .prop_map(|(case, aux, list, d, test, room, data)| Short { case, aux, list, d, test, room, data })
        },
        short,
    );
    let dmg = |case: BoxedStrategy<Case>| {
        (
            case,
            0u8..5,
            any::<bool>(),
            prop::collection::vec((prop_oneof![any::<u32>(), 0u32..64], any::<u8>()), 0..6),
            prop_oneof![3 => Just(None), 1 => any::<u32>().prop_map(Some)],
            prop_oneof![6 => Just(None), 1 => any::<u64>().prop_map(Some)],
        )
            .prop_map(|(case, d, test, edits, cut, noise)| Dmg { case, d, test, edits, cut, noise })
    };
    ctx.check(
        "damaged",
        "image data with single bytes changed, replaced by noise, or cut, behind a sound program: decoded, or rejected as an underflow; non-trivial: rejected",
        30_000,
        move || dmg(small()),
        damaged,
    );
    ctx.check(
        "room_medium",
        "as room, with images of up to 80 000 samples",
        600,
        move || (medium(), prop::collection::vec(any::<u32>(), 2..5)).prop_map(|(case, lens)| Room { case, lens }),
        room,
    );
    ctx.check("damaged_medium", "as damaged, with images of up to 80 000 samples", 1_500, move || dmg(medium()), damaged);
}
