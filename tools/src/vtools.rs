//! The command-line programs: files in, files out.
use gfwx::{compress_simple, decompress_simple, ColorTransformProgram, Header};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use vh::content::mix;
use vh::gen::{self, Case, Opts, Prog};
use vh::oracle::{self, Which};
use vh::{ensure, model, Ctx, Obs, Res};

const TIME_LIMIT: std::time::Duration = std::time::Duration::from_secs(120);

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Job {
    case: Case,
    /// the file has an alpha channel
    alpha: bool,
    /// rgb, rgba, bgr, bgra or nothing
    intent: Option<u8>,
    /// options that have the default value may be left out
    terse: bool,
    long: bool,
    bmp_in: bool,
    bmp_out: bool,
    seed: u64,
}

const INTENTS: [(&str, usize, u8); 4] = [("rgb", 3, 7), ("rgba", 4, 8), ("bgr", 3, 10), ("bgra", 4, 11)];

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        use std::sync::atomic::{AtomicUsize, Ordering};
        static N: AtomicUsize = AtomicUsize::new(0);
        let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        let d = Path::new(base).join(format!("vh-tools-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
    fn file(&self, name: &str) -> PathBuf {
        self.0.join(name)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        std::fs::remove_dir_all(&self.0).ok();
    }
}

fn tool(name: &str) -> PathBuf {
    std::env::current_exe().unwrap().with_file_name(name)
}

/// Exit status of a program; dying by a signal and going on for ever are failures.
fn run(name: &str, args: &[String]) -> Result<i32, String> {
    let mut child = Command::new(tool(name))
        .args(args)
        .env("RAYON_NUM_THREADS", "2")
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("a program to run");
    let start = std::time::Instant::now();
    let mut nap = 300;
    loop {
        match child.try_wait().expect("wait") {
            Some(s) => return s.code().ok_or_else(|| format!("{name} {args:?} is ended by a signal: {s}")),
            None if start.elapsed() > TIME_LIMIT => {
                child.kill().ok();
                child.wait().ok();
                return Err(format!("{name} {args:?} does not end"));
            }
            None => {
                std::thread::sleep(std::time::Duration::from_micros(nap));
                nap = (nap * 3 / 2).min(20_000);
            }
        }
    }
}

fn path(p: &Path) -> String {
    p.to_str().unwrap().to_string()
}

/// The pixels in the order of the intent.
fn arranged(raw: &[u8], from: usize, to: usize, reversed: bool) -> Vec<u8> {
    let mut v = Vec::with_capacity(raw.len() / from * to);
    for p in raw.chunks(from) {
        if reversed {
            v.extend([p[2], p[1], p[0]]);
        } else {
            v.extend(&p[..3]);
        }
        if to == 4 {
            v.push(if from == 4 { p[3] } else { 255 });
        }
    }
    v
}

/// `image` refuses to read larger ones
fn bmp_can(w: usize, h: usize) -> bool {
    w < 65_536 && h < 65_536
}

fn save(file: &Path, raw: &[u8], w: u32, h: u32, alpha: bool) {
    let kind = if alpha { image::RGBA(8) } else { image::RGB(8) };
    image::save_buffer(file, raw, w, h, kind).expect("input image");
}

fn option(j: &Job, short: &str, long: &str, value: String, default: &str) -> Vec<String> {
    if j.terse && value == default {
        return vec![];
    }
    if short.is_empty() || j.long {
        vec![format!("--{long}"), value]
    } else {
        vec![format!("-{short}"), value]
    }
}

/// The case as the program makes it of the options.
fn as_coded(j: &Job) -> (Case, bool) {
    let mut c = j.case.clone();
    let (channels, code, reversed) = match j.intent {
        Some(i) => (INTENTS[i as usize].1, INTENTS[i as usize].2, i >= 2),
        None if j.alpha => (4, 8, false),
        None => (3, 7, false),
    };
    c.channels = channels as u16;
    c.intent = code;
    c.layers = 1;
    c.chroma = 8;
    c.prog = Prog::None;
    (c, reversed)
}

fn pixels(j: &Job) -> (usize, Vec<u8>) {
    let n = if j.alpha { 4 } else { 3 };
    let mut c = j.case.clone();
    c.layers = 1;
    c.channels = n as u16;
    (n, c.image())
}

fn compress_args(j: &Job, input: &Path, output: &Path) -> Vec<String> {
    let c = &j.case;
    let mut a = vec![];
    a.extend(option(j, "q", "quality", c.quality.to_string(), "1024"));
    a.extend(option(j, "", "block-size", c.block.to_string(), "7"));
    a.extend(option(j, "f", "filter", ["linear", "cubic"][c.filter as usize].into(), "linear"));
    a.extend(option(j, "e", "encoder", ["turbo", "fast", "contextual"][c.encoder as usize].into(), "turbo"));
    if let Some(i) = j.intent {
        a.extend(option(j, "i", "intent", INTENTS[i as usize].0.into(), ""));
    }
    let files = vec![path(input), path(output)];
    if j.seed % 2 == 0 {
        a.extend(files);
        a
    } else {
        files.into_iter().chain(a).collect()
    }
}

fn convert(j: &Job, o: &mut Obs) -> Res {
    let (coded, reversed) = as_coded(j);
    coded.classify(o);
    let dir = Scratch::new();
    let (n, raw) = pixels(j);
    let input = dir.file(if j.bmp_in && !j.alpha && bmp_can(coded.w as usize, coded.h as usize) { "in.bmp" } else { "in.png" });
    save(&input, &raw, coded.w, coded.h, j.alpha);
    let stream = dir.file("stream.gfwx");
    let old = b"contents of before".to_vec();
    std::fs::write(&stream, &old).unwrap();
    let status = run("compress", &compress_args(j, &input, &stream))?;

    // the program has room for twice the samples
    let img = arranged(&raw, n, coded.channels as usize, reversed);
    let mut room = vec![0u8; 2 * img.len()];
    let fits = compress_simple(&img, &coded.header(), &ColorTransformProgram::new(), &mut room);
    let bytes = std::fs::read(&stream).map_err(|e| format!("reading the stream: {e}"))?;
    if fits.is_err() {
        o.label("no room");
        ensure!(status != 0, "compress reports success although the library does not compress this image into twice its size");
        ensure!(bytes == old, "compress fails and yet writes {} bytes", bytes.len());
        return Ok(());
    }
    ensure!(status == 0, "compress ends with {status} for an image that the library compresses into {:?} bytes", fits);
    let want = oracle::compress(Which::Plain, &coded, &img, coded.roomy()).map_err(|e| format!("the original encoder fails: {e}"))?;
    ensure!(bytes == want, "the file of compress ({} bytes) is not the stream of the original encoder ({} bytes)", bytes.len(), want.len());
    if coded.pixels() > 1 && !coded.content.iter().all(|c| c.is_flat()) {
        o.nontrivial();
    }

    let top = coded.top_step().trailing_zeros() as u64;
    let d = match j.seed % 3 {
        0 => (mix(j.seed ^ 3) % (top + 2)) as usize,
        _ => 0,
    };
    // the original misreads its own Turbo streams below full resolution (C03): there, the model's pixels count
    let (dw, dh) = (model::down(coded.w as usize, d), model::down(coded.h as usize, d));
    let mut out = vec![0u8; dw * dh * coded.channels as usize];
    if d == 0 {
        let r = oracle::decompress(Which::Plain, &want, 0, false, &mut out);
        ensure!(r == 0, "the original decoder gives {r}");
    } else {
        let m = model::decoded(&coded, &model::coefs(&coded, &img), d, &model::all);
        if m.overflowed {
            o.label("downsampled values over 16 bits");
            let h = Header::decode(&mut &want[..]).map_err(|e| format!("{e:?}"))?;
            decompress_simple(&want[32..], &h, d, false, &mut out).map_err(|e| format!("{e:?}"))?;
        } else {
            out = m.data;
        }
    }
    if coded.quality == 1024 && d == 0 {
        ensure!(out == img, "the original decoder does not give the pixels back");
    }
    let reversed_back = arranged(&out, coded.channels as usize, coded.channels as usize, reversed);
    let output = dir.file(if j.bmp_out && coded.channels == 3 && bmp_can(dw, dh) { "out.bmp" } else { "out.png" });
    let mut a = vec![path(&stream), path(&output)];
    a.extend(option(j, "d", "downsampling", d.to_string(), "0"));
    let status = run("decompress", &a)?;
    ensure!(status == 0, "decompress ends with {status} (downsampling {d})");
    let got = image::open(&output).map_err(|e| format!("the output cannot be read: {e}"))?;
    use image::GenericImageView;
    ensure!(got.dimensions() == (dw as u32, dh as u32), "the output has {:?} pixels and not {dw}x{dh}", got.dimensions());
    let got = got.raw_pixels();
    ensure!(got.len() == reversed_back.len(), "the output has {} samples and not {}", got.len(), reversed_back.len());
    let bad = got.iter().zip(&reversed_back).filter(|(a, b)| a != b).count();
    ensure!(bad == 0, "{bad} of {} samples of the output differ from the decoded ones (downsampling {d})", got.len());

    // comparing: equal to itself, and to the input exactly if the samples are the same
    let status = run("compare", &[path(&output), path(&output)])?;
    ensure!(status == 0, "compare finds a file different from itself");
    let status = run("compare", &[path(&input), path(&output)])?;
    ensure!((status == 0) == (raw == got), "compare ends with {status}; the samples are {}", if raw == got { "equal" } else { "different" });
    if !got.is_empty() {
        let mut other = got.clone();
        let k = (mix(j.seed) % other.len() as u64) as usize;
        other[k] ^= 1 << (j.seed >> 8 & 7);
        let third = dir.file("third.png");
        save(&third, &other, dw as u32, dh as u32, coded.channels == 4);
        let status = run("compare", &[path(&third), path(&output)])?;
        ensure!(status != 0, "compare does not see a difference in sample {k} of {}", other.len());
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Damage {
    job: Job,
    cut: Option<u32>,
    bytes: Vec<(u32, u8)>,
}

/// Streams that are cut or damaged behind their header: pixels of the library, or a failure and no image.
fn damaged(x: &Damage, o: &mut Obs) -> Res {
    let j = &x.job;
    let (coded, reversed) = as_coded(j);
    let dir = Scratch::new();
    let (n, raw) = pixels(j);
    let img = arranged(&raw, n, coded.channels as usize, reversed);
    let mut s = vec![0u8; coded.roomy()];
    let len = compress_simple(&img, &coded.header(), &ColorTransformProgram::new(), &mut s).map_err(|e| format!("{e:?}"))?;
    s.truncate(len);
    for &(at, v) in &x.bytes {
        let at = 32 + at as usize % (len - 32);
        s[at] ^= v;
    }
    if let Some(c) = x.cut {
        s.truncate(c as usize % (len + 1));
    }
    o.label_if(s.len() < 32, "cut in the header");
    o.nontrivial();
    let stream = dir.file("stream.gfwx");
    std::fs::write(&stream, &s).unwrap();
    let output = dir.file(if j.bmp_out && coded.channels == 3 && bmp_can(coded.w as usize, coded.h as usize) { "out.bmp" } else { "out.png" });
    let status = run("decompress", &[path(&stream), path(&output)])?;
    let want = if s.len() < 32 {
        Err("header".to_string())
    } else {
        let mut out = vec![0u8; coded.samples()];
        vh::run::no_panic(|| decompress_simple(&s[32..], &coded.header(), 0, false, &mut out).map_err(|e| format!("{e:?}"))).and_then(|r| r).map(|_| out)
    };
    match want {
        Err(e) => {
            ensure!(status != 0, "decompress reports success although the library fails with {e}");
            ensure!(!output.exists(), "decompress fails and yet writes an image");
        }
        Ok(out) => {
            o.label("decodes");
            ensure!(status == 0, "decompress ends with {status} although the library decodes the stream");
            let got = image::open(&output).map_err(|e| format!("the output cannot be read: {e}"))?.raw_pixels();
            let ch = coded.channels as usize;
            ensure!(got == arranged(&out, ch, ch, reversed), "the image is not what the library decodes");
            if x.bytes.is_empty() && s.len() % 4 == 0 && s.len() > 32 {
                let mut theirs = vec![0u8; coded.samples()];
                if oracle::decompress(Which::Plain, &s, 0, false, &mut theirs) >= 0 {
                    o.label("against the original decoder");
                    ensure!(got == arranged(&theirs, ch, ch, reversed), "the image of a cut stream is not what the original decoder makes of it");
                }
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Junk {
    bytes: Vec<u8>,
    name: u8,
    option: u8,
}

/// Bytes that are no image, options that do not exist: a failure, and nothing is written.
fn refused(x: &Junk, o: &mut Obs) -> Res {
    let dir = Scratch::new();
    let input = dir.file(["in.png", "in.bmp", "in.gfwx", "in"][x.name as usize % 4]);
    let mut bytes = x.bytes.clone();
    // not a stream by chance
    if bytes.starts_with(b"GFWX") {
        bytes[0] = b'g';
    }
    std::fs::write(&input, &bytes).unwrap();
    let good = dir.file("good.png");
    save(&good, &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12], 2, 2, false);
    let out = dir.file("out.png");
    o.nontrivial();
    let bad: &[&str] = match x.option % 9 {
        0 => &["-q", "0"],
        1 => &["-q", "1025"],
        2 => &["--block-size", "31"],
        3 => &["--block-size", "0"],
        4 => &["-f", "none"],
        5 => &["-e", "none"],
        6 => &["-i", "yuv"],
        7 => &["-q", "-1"],
        _ => &["--quality", "x"],
    };
    let mut a: Vec<String> = vec![path(&good), path(&out)];
    a.extend(bad.iter().map(|s| s.to_string()));
    let status = run("compress", &a)?;
    ensure!(status != 0 && !out.exists(), "compress accepts {bad:?}");
    let status = run("decompress", &[path(&input), path(&out)])?;
    ensure!(status != 0 && !out.exists(), "decompress accepts bytes that are no stream");
    let status = run("decompress", &[path(&dir.file("absent")), path(&out)])?;
    ensure!(status != 0 && !out.exists(), "decompress accepts a file that does not exist");
    let status = run("compare", &[path(&good), path(&dir.file("absent.png"))])?;
    ensure!(status != 0, "compare accepts a file that does not exist");
    Ok(())
}

fn job(scale: u32, max: usize) -> BoxedStrategy<Job> {
    let o = Opts { scale, max_samples: max, ..Opts::default() };
    (
        (gen::case(o), any::<bool>(), prop_oneof![2 => Just(None), 3 => (0u8..4).prop_map(Some)]),
        (any::<bool>(), any::<bool>(), any::<bool>(), any::<bool>(), any::<u64>()),
    )
        .prop_map(move |((mut case, alpha, intent), (terse, long, bmp_in, bmp_out, seed))| {
            while case.pixels() * 4 > max {
                if case.w >= case.h {
                    case.w = (case.w / 2).max(1)
                } else {
                    case.h = (case.h / 2).max(1)
                }
            }
            case.layers = 1;
            case.channels = 3;
            case.chroma = 8;
            case.prog = Prog::None;
            Job { case, alpha, intent, terse, long, bmp_in, bmp_out, seed }
        })
        .boxed()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    vh::run::quiet_panics();
    let mut ctx = Ctx::from_args(&args);
    assert_eq!(ctx.prop, "C24");
    ctx.check("small", "more than one pixel, an image that is not flat, and a stream that fits in twice the size", 600, || job(0, 6_000), convert);
    ctx.check("medium", "as above", 250, || job(1, 400_000), convert);
    ctx.check("damaged", "all", 400, || {
        (job(0, 6_000), proptest::option::of(any::<u32>()), prop::collection::vec((any::<u32>(), 1u8..=255), 0..4)).prop_map(|(job, cut, bytes)| Damage { job, cut, bytes })
    }, damaged);
    ctx.check("refused", "all", 60, || (prop::collection::vec(any::<u8>(), 0..80), any::<u8>(), any::<u8>()).prop_map(|(bytes, name, option)| Junk { bytes, name, option }), refused);
    std::process::exit(ctx.finish());
}
