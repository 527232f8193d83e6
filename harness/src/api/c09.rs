//! Threads and build features.
use super::c08::program_len;
use super::*;
use gfwx::{compress_aux_data, decompress_aux_data};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::OnceLock;
use vh::content::mix;
use vh::gen::{self, Opts};
use vh::run::no_panic;
use vh::{ensure, layout, model, Ctx, Obs, Res};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Job {
    case: Case,
    /// downsampling levels
    ds: Vec<u8>,
    /// cuts, in 65536ths, and the downsampling for them
    cuts: Vec<(u16, u8)>,
    /// output buffers, in 256ths of the stream
    bufs: Vec<u16>,
    /// damage: place in 65536ths, value
    damage: Vec<(u16, u8)>,
    /// runs per pool
    runs: u8,
}

/// Everything that can be observed of the calls of a job, as (what, value).
fn results(j: &Job) -> Result<Vec<(String, String)>, String> {
    let case = &j.case;
    let mut v: Vec<(String, String)> = vec![];
    let h = case.header();
    let img = case.image();
    let prog = case.program();
    let chroma = case.is_chroma();
    let top = case.top_step().trailing_zeros() as usize;
    let x = |b: &[u8]| format!("{} bytes, {:016x}", b.len(), model::digest(b));
    let y = |a: &[i16]| {
        let b: Vec<u8> = a.iter().flat_map(|s| s.to_le_bytes()).collect();
        format!("{} samples, {:016x}", a.len(), model::digest(&b))
    };
    // compression
    let s = encode(case, &h, &img)?;
    v.push(("compress_simple".into(), x(&s)));
    for &b in &j.bufs {
        let n = s.len() * b as usize / 256;
        let mut buf = vec![0x77u8; n];
        let r = compress_simple(&img, &h, &prog, &mut buf);
        v.push((format!("compress_simple into {n} bytes"), r.map_or("error".into(), |k| x(&buf[..k.min(n)]))));
    }
    let mut aux = vec![0i16; case.samples()];
    prog.transform_and_to_planar(&img, &h, &mut aux);
    v.push(("transform_and_to_planar".into(), y(&aux)));
    let mut buf = vec![0u8; case.roomy()];
    let r = compress_aux_data(&mut aux, &h, &chroma, &mut buf);
    v.push(("compress_aux_data".into(), r.map_or("error".into(), |k| x(&buf[..k]))));
    v.push(("compress_aux_data, samples".into(), y(&aux)));
    // decompression
    let p = &s[HEADER..];
    let k = program_len(case)?;
    let see = |v: &mut Vec<(String, String)>, what: &str, data: &[u8], d: usize| {
        for test in [false, true] {
            let mut out = vec![0u8; h.get_decompress_buffer_size(d)];
            let r = decompress_simple(data, &h, d, test, &mut out);
            v.push((format!("decompress_simple{}, {what} at downsampling {d}", if test { " in test mode" } else { "" }), r.map_or("error".into(), |r| format!("status {r}, {}", x(&out)))));
        }
        if data.len() >= k {
            let mut aux = vec![0i16; h.get_downsampled_image_size(d)];
            let r = decompress_aux_data(&data[k..], &h, &chroma, d, false, &mut aux);
            v.push((format!("decompress_aux_data, {what} at downsampling {d}"), r.map_or("error".into(), |r| format!("status {r}, {}", y(&aux)))));
        }
    };
    for &d in &j.ds {
        see(&mut v, "whole stream", p, d as usize % (top + 2));
    }
    let marks = layout::parse(case, p, k).map(|l| l.marks()).unwrap_or(vec![0]);
    for &(c, d) in &j.cuts {
        let n = if c % 2 == 0 { marks[c as usize / 2 % marks.len()] } else { p.len() * c as usize / 65536 };
        see(&mut v, &format!("cut at {n}"), &p[..n.min(p.len())], d as usize % (top + 2));
    }
    if !j.damage.is_empty() && !p.is_empty() {
        let mut q = p.to_vec();
        for &(at, to) in &j.damage {
            let i = at as usize * q.len() / 65536;
            q[i] = to;
        }
        see(&mut v, "damaged stream", &q, 0);
    }
    Ok(v)
}

fn guarded(j: &Job) -> Result<Vec<(String, String)>, String> {
    match no_panic(|| results(j)) {
        Ok(r) => r,
        Err(e) => Err(format!("panic: {e}")),
    }
}

const POOLS: [usize; 5] = [1, 2, 3, 8, 40];

fn pool(k: usize) -> &'static rayon::ThreadPool {
    static P: OnceLock<Vec<rayon::ThreadPool>> = OnceLock::new();
    &P.get_or_init(|| POOLS.iter().map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).stack_size(32 << 20).build().unwrap()).collect())[k % POOLS.len()]
}

/// Answers jobs from the standard input, one a line; this is what the other builds are run for.
pub fn serve() {
    let mut line = String::new();
    let mut inp = std::io::stdin().lock();
    let mut out = std::io::stdout().lock();
    let mut k = 0;
    loop {
        line.clear();
        if inp.read_line(&mut line).unwrap_or(0) == 0 {
            return;
        }
        let j: Job = serde_json::from_str(&line).expect("job");
        let r = pool(k % 4).install(|| guarded(&j));
        k += 1;
        writeln!(out, "{}", serde_json::to_string(&r).unwrap()).unwrap();
        out.flush().unwrap();
    }
}

struct Peer {
    name: &'static str,
    _child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
}

fn peers() -> Vec<Peer> {
    let mut v = vec![];
    for (name, key) in [("without rayon", "VH_BIN_NOPAR"), ("with rayon for everything", "VH_BIN_ALWAYS")] {
        let Ok(exe) = std::env::var(key) else {
            eprintln!("{key} is not set");
            std::process::exit(6);
        };
        let mut c = Command::new(exe).arg("serve").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("peer");
        let inp = c.stdin.take().unwrap();
        let out = BufReader::new(c.stdout.take().unwrap());
        v.push(Peer { name, _child: c, inp, out });
    }
    v
}

thread_local! {
    static PEERS: RefCell<Vec<Peer>> = const { RefCell::new(vec![]) };
}

type Answer = Result<Vec<(String, String)>, String>;

fn ask(p: &mut Peer, line: &str) -> Result<Answer, String> {
    writeln!(p.inp, "{line}").and_then(|_| p.inp.flush()).map_err(|e| e.to_string())?;
    let mut a = String::new();
    p.out.read_line(&mut a).map_err(|e| e.to_string())?;
    serde_json::from_str(&a).map_err(|e| format!("{e} in {a:?}"))
}

fn compare(base: &Answer, other: &Answer, who: &str) -> Res {
    match (base, other) {
        (Ok(a), Ok(b)) => {
            for ((wa, va), (wb, vb)) in a.iter().zip(b) {
                ensure!(wa == wb, "{who}: {wb} is observed in place of {wa}");
                ensure!(va == vb, "{wa}: {va} with one thread, but {vb} {who}");
            }
            ensure!(a.len() == b.len(), "{who}: {} observations in place of {}", b.len(), a.len());
            Ok(())
        }
        (Err(a), Err(b)) => {
            // both fail, which is for other properties to judge
            let _ = (a, b);
            Ok(())
        }
        (Ok(_), Err(b)) => Err(format!("{who}: {b}; succeeds with one thread")),
        (Err(a), Ok(_)) => Err(format!("with one thread: {a}; succeeds {who}")),
    }
}

fn check(j: &Job, o: &mut Obs) -> Res {
    let case = &j.case;
    case.classify(o);
    if case.pixels() > 64 * 64 || case.levels().iter().any(|l| l.blocks > 1) {
        o.nontrivial();
    }
    let base = pool(0).install(|| guarded(j));
    for k in 1..POOLS.len() {
        // the widest pool costs most of all and is seen by one case in five
        if k == 4 && mix(case.w as u64 ^ (case.h as u64) << 32) % 5 != 0 {
            continue;
        }
        for _ in 0..j.runs {
            let r = pool(k).install(|| guarded(j));
            compare(&base, &r, &format!("with {} threads", POOLS[k]))?;
        }
    }
    // the pool the library finds itself in
    compare(&base, &guarded(j), "in the pool of the caller")?;
    let line = serde_json::to_string(j).unwrap();
    PEERS.with(|p| -> Res {
        let mut p = p.borrow_mut();
        if p.is_empty() {
            *p = peers();
        }
        for q in p.iter_mut() {
            match ask(q, &line) {
                Ok(a) => compare(&base, &a, &format!("in the build {}", q.name))?,
                Err(e) => {
                    let name = q.name;
                    p.clear();
                    return Err(format!("the build {name} gives no answer: {e}"));
                }
            }
        }
        Ok(())
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Multi {
    jobs: Vec<Job>,
    /// run in one pool of two threads, in place of the default one
    narrow: bool,
}

/// Several jobs at the same time, each from a thread of its own.
fn check_concurrent(m: &Multi, o: &mut Obs) -> Res {
    for j in &m.jobs {
        j.case.classify(o);
    }
    if m.jobs.len() > 1 {
        o.nontrivial();
    }
    let base: Vec<Answer> = m.jobs.iter().map(|j| pool(0).install(|| guarded(j))).collect();
    let start = std::sync::Barrier::new(m.jobs.len());
    let all: Vec<Vec<Answer>> = std::thread::scope(|s| {
        let hs: Vec<_> = m
            .jobs
            .iter()
            .map(|j| {
                let start = &start;
                s.spawn(move || {
                    start.wait();
                    (0..1 + j.runs).map(|_| if m.narrow { pool(1).install(|| guarded(j)) } else { guarded(j) }).collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (b, rs) in base.iter().zip(&all) {
        for r in rs {
            compare(b, r, "while other calls run")?;
        }
    }
    Ok(())
}

fn strat(o: Opts, n: usize, runs: u8) -> BoxedStrategy<Job> {
    (
        gen::case(o),
        prop::collection::vec(prop_oneof![2 => Just(0u8), 1 => 0u8..20], 1..=n),
        prop::collection::vec((any::<u16>(), prop_oneof![2 => Just(0u8), 1 => 0u8..20]), 0..=n),
        prop::collection::vec(prop_oneof![1 => 0u16..260, 1 => 200u16..1500], 0..=n),
        prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec((prop_oneof![any::<u16>(), 0u16..3000], any::<u8>()), 1..4)],
        1..=runs,
    )
        .prop_map(|(case, ds, cuts, bufs, damage, runs)| Job { case, ds, cuts, bufs, damage, runs })
        .boxed()
}

pub fn run(ctx: &mut Ctx) {
    ctx.check(
        "small",
        "every observation of a case (bytes of streams, outcome in small buffers, coefficients, pixels and status of whole, cut and damaged streams at several downsamplings, in test mode and planar form) in pools of 1, 2, 3, 8 and 40 threads and in the builds without rayon and with rayon for everything; images of up to 5 000 samples; non-trivial: several blocks in some level, or over 64*64 pixels",
        6_000,
        || strat(Opts { scale: 0, max_samples: 5_000, ..Default::default() }, 3, 2),
        check,
    );
    ctx.check("medium", "as small, with up to 200 000 samples, so above some or all of the thresholds for parallel work", 1_200, || strat(Opts { scale: 1, max_samples: 200_000, ..Default::default() }, 2, 2), check);
    ctx.check(
        "concurrent",
        "2 to 4 jobs as in small (of up to 20 000 samples, or all with the same dimensions) at the same time, each from its own thread, in the default pool or a shared pool of two threads; every observation is that of the same job on its own; non-trivial: always",
        2_500,
        || {
            let job = || strat(Opts { scale: 1, max_samples: 20_000, ..Default::default() }, 1, 3);
            (prop::collection::vec(job(), 2..=4), any::<bool>(), any::<bool>())
                .prop_map(|(mut jobs, same, narrow)| {
                    if same {
                        // cases that differ in parameters and content only
                        let c = jobs[0].case.clone();
                        for j in &mut jobs[1..] {
                            j.case.w = c.w;
                            j.case.h = c.h;
                            j.case.layers = c.layers;
                            j.case.channels = c.channels;
                        }
                    }
                    Multi { jobs, narrow }
                })
                .boxed()
        },
        check_concurrent,
    );
    ctx.check("large", "as small, with up to 1.5 million samples", 40, || strat(Opts { scale: 2, max_samples: 1_500_000, ..Default::default() }, 1, 2), check);
}
