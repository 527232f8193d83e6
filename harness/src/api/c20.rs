//! Independence of layers and channels.
use super::*;
use gfwx::{compress_aux_data, decompress_aux_data};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::content::mix;
use vh::gen::{self, Opts, Prog, Transform};
use vh::model::interleaved_index;
use vh::{ensure, model, Ctx, Obs, Res};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ind {
    case: Case,
    seed: u64,
}

fn permutation(n: usize, seed: u64) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        v.swap(i, (mix(seed ^ i as u64) % (i as u64 + 1)) as usize);
    }
    v
}

/// Another split of the same number of channels.
fn layout_of(n: usize, seed: u64) -> (u16, u16) {
    let divs: Vec<usize> = (1..=n).filter(|d| n % d == 0).collect();
    let l = divs[(mix(seed ^ 99) % divs.len() as u64) as usize];
    (l as u16, (n / l) as u16)
}

fn planes_of(img: &[u8], n: usize, ch: usize, px: usize) -> Vec<Vec<u8>> {
    (0..n).map(|k| (0..px).map(|i| img[interleaved_index(k, i, ch, px)]).collect()).collect()
}

fn join(planes: &[Vec<u8>], ch: usize) -> Vec<u8> {
    let (n, px) = (planes.len(), planes[0].len());
    let mut v = vec![0u8; n * px];
    for (k, p) in planes.iter().enumerate() {
        for (i, s) in p.iter().enumerate() {
            v[interleaved_index(k, i, ch, px)] = *s;
        }
    }
    v
}

fn flags(chroma: &[bool]) -> Prog {
    Prog::Custom(chroma.iter().enumerate().filter(|(_, c)| **c).map(|(k, _)| Transform { dest: k, factors: vec![], den: 1, chroma: true }).collect())
}

fn coded(c: &Case, img: &[u8], d: usize) -> Result<Vec<Vec<u8>>, String> {
    let h = c.header();
    let s = encode(c, &h, img)?;
    let (r, out) = decode(&h, &s[HEADER..], d, false).map_err(|e| derr(&e))?;
    ensure!(r == 0, "status {r}");
    let px = model::down(c.w as usize, d) * model::down(c.h as usize, d);
    Ok(planes_of(&out, c.n(), c.channels as usize, px))
}

fn same_planes(what: &str, got: &[Vec<u8>], want: &[Vec<u8>], of: &[usize]) -> Res {
    for (j, &k) in of.iter().enumerate() {
        diff(&format!("{what}: channel {k}"), &got[j], &want[k])?;
    }
    Ok(())
}

fn alone(case: &Case, chroma: bool) -> Case {
    let mut c = case.clone();
    c.layers = 1;
    c.channels = 1;
    c.prog = flags(&[chroma]);
    c
}

fn without_program(ic: &Ind, o: &mut Obs) -> Res {
    let mut case = ic.case.clone();
    let n = case.n();
    // chroma flags only
    let chroma: Vec<bool> = (0..n).map(|k| mix(ic.seed ^ k as u64) % 3 == 0).collect();
    case.prog = if ic.seed % 2 == 0 { Prog::None } else { flags(&chroma) };
    let chroma = case.is_chroma();
    case.classify(o);
    if n > 1 && case.pixels() > 1 && !case.content.iter().all(|c| c.is_flat()) {
        o.nontrivial();
    }
    let (px, ch) = (case.pixels(), case.channels as usize);
    let img = case.image();
    let planes = planes_of(&img, n, ch, px);
    let top = case.top_step().trailing_zeros() as u64;
    let d = if ic.seed % 3 == 0 { (mix(ic.seed ^ 3) % (top + 1)) as usize } else { 0 };
    let together = coded(&case, &img, d)?;
    // each on its own
    for k in (0..n).take(24) {
        let single = coded(&alone(&case, chroma[k]), &planes[k], d)?;
        diff(&format!("channel {k} of {n} against the same channel on its own (downsampling {d})"), &together[k], &single[0])?;
    }
    // permuted, and split differently into layers
    let p = permutation(n, ic.seed);
    let mut c = case.clone();
    let (l, cc) = layout_of(n, ic.seed);
    c.layers = l;
    c.channels = cc;
    if !matches!(case.prog, Prog::None) {
        c.prog = flags(&p.iter().map(|&k| chroma[k]).collect::<Vec<_>>());
    }
    let moved: Vec<Vec<u8>> = p.iter().map(|&k| planes[k].clone()).collect();
    let got = coded(&c, &join(&moved, cc as usize), d)?;
    same_planes(&format!("permuted and arranged as {l} layers of {cc} channels"), &got, &together, &p)?;
    // other channels changed
    let keep = (mix(ic.seed ^ 8) % n as u64) as usize;
    let changed: Vec<Vec<u8>> = planes.iter().enumerate().map(|(k, v)| if k == keep { v.clone() } else { v.iter().enumerate().map(|(i, s)| s ^ mix(ic.seed ^ i as u64) as u8).collect() }).collect();
    let got = coded(&case, &join(&changed, ch), d)?;
    diff(&format!("channel {keep} after a change of the others"), &got[keep], &together[keep])
}

fn with_program(ic: &Ind, o: &mut Obs) -> Res {
    let case = &ic.case;
    case.classify(o);
    let n = case.n();
    let ts = case.transforms();
    let free: Vec<usize> = (0..n).filter(|k| ts.iter().all(|t| t.dest != *k && t.factors.iter().all(|f| f.0 != *k))).collect();
    if free.is_empty() {
        o.skip();
        return Ok(());
    }
    if !ts.is_empty() && case.pixels() > 1 {
        o.nontrivial();
    }
    let (px, ch) = (case.pixels(), case.channels as usize);
    let img = case.image();
    let planes = planes_of(&img, n, ch, px);
    let top = case.top_step().trailing_zeros() as u64;
    let d = if ic.seed % 3 == 0 { (mix(ic.seed ^ 3) % (top + 1)) as usize } else { 0 };
    let together = coded(case, &img, d)?;
    for &k in free.iter().take(12) {
        let single = coded(&alone(case, false), &planes[k], d)?;
        diff(&format!("channel {k}, which the program does not mention, against the same channel on its own (downsampling {d})"), &together[k], &single[0])?;
    }
    // the channels of the program do not see the others either
    let changed: Vec<Vec<u8>> = planes.iter().enumerate().map(|(k, v)| if free.contains(&k) { v.iter().enumerate().map(|(i, s)| s ^ mix(ic.seed ^ i as u64) as u8).collect() } else { v.clone() }).collect();
    let got = coded(case, &join(&changed, ch), d)?;
    for k in (0..n).filter(|k| !free.contains(k)) {
        diff(&format!("channel {k} of the program after a change of channels outside of it"), &got[k], &together[k])?;
    }
    Ok(())
}

/// The planar interface with any samples of 16 bits and any list of chroma channels.
fn planar(ic: &Ind, o: &mut Obs) -> Res {
    let case = &ic.case;
    case.classify(o);
    let (n, px) = (case.n(), case.pixels());
    let chroma: Vec<bool> = (0..n).map(|k| mix(ic.seed ^ k as u64) % 2 == 0).collect();
    let img = case.image();
    let amp = [1, 8, 30, 120, 256][(ic.seed >> 8) as usize % 5];
    let aux: Vec<i16> = img.iter().map(|&v| ((v as i32 - 128) * amp).clamp(-32768, 32767) as i16).collect();
    if n > 1 && px > 1 {
        o.nontrivial();
    }
    let top = case.top_step().trailing_zeros() as u64;
    let d = if ic.seed % 3 == 0 { (mix(ic.seed ^ 3) % (top + 1)) as usize } else { 0 };
    let run = |c: &Case, chroma: &[bool], aux: &[i16]| -> Result<Vec<i16>, String> {
        let h = c.header();
        let mut a = aux.to_vec();
        let mut buf = vec![0u8; c.roomy()];
        let len = compress_aux_data(&mut a, &h, chroma, &mut buf).map_err(|e| format!("compress_aux_data: {e:?}"))?;
        let mut back = vec![0i16; h.get_downsampled_image_size(d)];
        let r = decompress_aux_data(&buf[..len], &h, chroma, d, false, &mut back).map_err(|e| format!("decompress_aux_data: {e:?}"))?;
        ensure!(r == 0, "status {r}");
        Ok(back)
    };
    let together = run(case, &chroma, &aux)?;
    let pd = together.len() / n;
    for k in (0..n).take(16) {
        let single = run(&alone(case, false), &[chroma[k]], &aux[k * px..(k + 1) * px])?;
        diff16(&format!("channel {k} of {n}, amplitude {amp}, against the same channel on its own (downsampling {d})"), &together[k * pd..(k + 1) * pd], &single)?;
    }
    let p = permutation(n, ic.seed);
    let mut c = case.clone();
    let (l, cc) = layout_of(n, ic.seed);
    c.layers = l;
    c.channels = cc;
    let moved: Vec<i16> = p.iter().flat_map(|&k| aux[k * px..(k + 1) * px].iter().copied()).collect();
    let got = run(&c, &p.iter().map(|&k| chroma[k]).collect::<Vec<_>>(), &moved)?;
    for (j, &k) in p.iter().enumerate() {
        diff16(&format!("channel {k}, permuted to {j} of {l} layers of {cc} channels"), &got[j * pd..(j + 1) * pd], &together[k * pd..(k + 1) * pd])?;
    }
    Ok(())
}

fn many() -> BoxedStrategy<(u16, u16)> {
    prop_oneof![
        5 => (1u16..=4, 1u16..=5),
        1 => (1u16..=12, 1u16..=12),
        1 => (Just(1u16), 1u16..=300),
        1 => (1u16..=300, Just(1u16)),
    ]
    .boxed()
}

fn strat(o: Opts, max: usize) -> BoxedStrategy<Ind> {
    (gen::case(Opts { max_samples: max / 2, ..o }), many(), any::<u64>())
        .prop_map(move |(mut case, (l, c), seed)| {
            case.layers = l;
            case.channels = c;
            while case.samples() > max && case.n() > 2 {
                case.layers = case.layers.div_ceil(2);
                case.channels = if case.layers > 1 { case.channels } else { case.channels.div_ceil(2) };
            }
            while case.samples() > max {
                if case.w >= case.h {
                    case.w /= 2
                } else {
                    case.h /= 2
                }
            }
            Ind { case, seed }
        })
        .boxed()
}

pub fn run(ctx: &mut Ctx) {
    ctx.check(
        "flags",
        "several channels without a colour program or with one that only marks chroma channels: each channel against its coding on its own (the first 24), a random permutation in another split into layers and channels, and a change of all other channels; any downsampling; non-trivial: several channels of several pixels, not all constant",
        9_000,
        || strat(Opts { scale: 0, ..Default::default() }, 12_000),
        without_program,
    );
    ctx.check("flags_medium", "as flags, with images of up to 120 000 samples", 900, || strat(Opts { scale: 1, ..Default::default() }, 120_000), without_program);
    ctx.check("flags_large", "as flags, with images of up to 800 000 samples", 24, || strat(Opts { scale: 2, ..Default::default() }, 800_000), without_program);
    ctx.check(
        "program",
        "images with a colour program: the channels it does not mention against their coding on their own, and its channels after a change of those; non-trivial: a program that is not empty and more than one pixel",
        14_000,
        || strat(Opts { scale: 0, ..Default::default() }, 12_000),
        with_program,
    );
    ctx.check("program_medium", "as program, with images of up to 100 000 samples", 900, || strat(Opts { scale: 1, ..Default::default() }, 100_000), with_program);
    ctx.check("planar", "planar interface with signed samples of amplitudes up to 32768 and any chroma list: each channel on its own, and a permutation in another split", 9_000, || strat(Opts { scale: 0, ..Default::default() }, 8_000), planar);
    ctx.check("planar_medium", "as planar, up to 120 000 samples", 700, || strat(Opts { scale: 1, ..Default::default() }, 120_000), planar);
}
