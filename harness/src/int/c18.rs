//! Iterators over chunks against an index model.
use gfwx::processing::image::Image;
use gfwx::processing::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Mutex;
use vh::{ensure, gen, Ctx, Obs, Res};

/// What the index model expects: chunks of `step`, every odd one is the middle.
fn parts(n: usize, step: usize, i: i64) -> Vec<usize> {
    if i < 0 {
        return vec![];
    }
    let a = (i as usize).saturating_mul(step);
    if a >= n {
        vec![]
    } else {
        (a..n.min(a + step)).collect()
    }
}

fn overlapping(c: &(usize, usize), o: &mut Obs) -> Res {
    let (n, step) = *c;
    if n > 3 * step {
        o.nontrivial();
    }
    o.label_if(n % step != 0, "partial last chunk");
    let middles = |n: usize| (0..).map(|k| 2 * k + 1).take_while(|i| i * step < n).count();

    let mut v: Vec<usize> = (0..n).collect();
    let got: Vec<_> = OverlappingChunksIterator::from_slice(&mut v, step).collect();
    ensure!(got.len() == middles(n), "{} single overlaps, expected {}", got.len(), middles(n));
    for (k, (l, m, r)) in got.into_iter().enumerate() {
        let i = 2 * k as i64 + 1;
        ensure!(l.to_vec() == parts(n, step, i - 1), "chunk {k}: left is {l:?}");
        ensure!(m.to_vec() == parts(n, step, i), "chunk {k}: middle is {m:?}");
        ensure!(r.to_vec() == parts(n, step, i + 1), "chunk {k}: right is {r:?}");
        for x in m.iter_mut() {
            *x += 1_000_000;
        }
    }
    for (i, x) in v.iter().enumerate() {
        let want = if (i / step) % 2 == 1 { i + 1_000_000 } else { i };
        ensure!(*x == want, "element {i} was written as {x}");
    }

    let mut v: Vec<usize> = (0..n).collect();
    let got: Vec<_> = DoubleOverlappingChunksIterator::from_slice(&mut v, step).collect();
    ensure!(got.len() == middles(n), "{} double overlaps, expected {}", got.len(), middles(n));
    for (k, d) in got.into_iter().enumerate() {
        let i = 2 * k as i64 + 1;
        ensure!(d.prev_left.to_vec() == parts(n, step, i - 3), "chunk {k}: previous left is {:?}", d.prev_left);
        ensure!(d.left.to_vec() == parts(n, step, i - 1), "chunk {k}: left is {:?}", d.left);
        ensure!(d.middle.to_vec() == parts(n, step, i), "chunk {k}: middle is {:?}", d.middle);
        ensure!(d.right.to_vec() == parts(n, step, i + 1), "chunk {k}: right is {:?}", d.right);
        ensure!(d.next_right.to_vec() == parts(n, step, i + 3), "chunk {k}: next right is {:?}", d.next_right);
        for x in d.middle.iter_mut() {
            *x += 1_000_000;
        }
    }
    for (i, x) in v.iter().enumerate() {
        let want = if (i / step) % 2 == 1 { i + 1_000_000 } else { i };
        ensure!(*x == want, "element {i} was written as {x} (double overlap)");
    }
    Ok(())
}

fn variable(c: &(usize, Vec<usize>), o: &mut Obs) -> Res {
    let (n, sizes) = c;
    let v: Vec<usize> = (0..*n).collect();
    let sum: usize = sizes.iter().sum();
    o.label(if sum > *n {
        "sizes exceed the data"
    } else if sum == *n {
        "sizes match the data"
    } else {
        "data left over"
    });
    o.label_if(sizes.contains(&0), "an empty chunk");
    if sizes.len() > 2 && *n > 2 {
        o.nontrivial();
    }
    let got: Vec<&[usize]> = VariableChunksIterator::new(&v, sizes).collect();
    let mut pos = 0;
    for (k, &s) in sizes.iter().enumerate() {
        if pos == *n {
            ensure!(got.len() == k, "{} chunks, expected {k}", got.len());
            return Ok(());
        }
        let e = (pos + s).min(*n);
        ensure!(k < got.len(), "only {} chunks", got.len());
        ensure!(got[k] == &v[pos..e], "chunk {k} of size {s} at {pos} is {:?}", got[k]);
        pos = e;
    }
    ensure!(got.len() == sizes.len(), "{} chunks for {} sizes", got.len(), sizes.len());
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct I {
    w: usize,
    h: usize,
    channels: usize,
    step: usize,
    block: u8,
}

fn image_cases() -> BoxedStrategy<I> {
    (gen::dims(0), 1usize..5, 0u32..7, 0u8..6)
        .prop_map(|((w, h), channels, s, block)| I { w: w as usize, h: h as usize, channels, step: 1 << s, block })
        .boxed()
}

fn image(c: &I, o: &mut Obs) -> Res {
    let (w, h, n) = (c.w, c.h, c.channels);
    let bs = c.step << c.block;
    let mut data: Vec<u32> = (0..(w * h * n) as u32).collect();
    let mut expected = vec![];
    for ch in 0..n {
        for y in (0..h).step_by(bs) {
            for x in (0..w).step_by(bs) {
                expected.push((ch, (x, (x + bs).min(w)), (y, (y + bs).min(h))));
            }
        }
    }
    if expected.len() > n {
        o.nontrivial();
    }
    o.label_if(expected.len() > 4 * n, "more than four blocks per channel");
    let mut touched = vec![0u8; data.len()];
    let mut k = 0;
    for mut b in Image::from_slice(&mut data, (w, h), n).into_chunks_mut(bs, c.step) {
        ensure!(k < expected.len(), "more than {} chunks", expected.len());
        let (ch, xr, yr) = expected[k];
        ensure!(b.channel == ch && b.x_range == xr && b.y_range == yr, "chunk {k} is channel {} columns {:?} rows {:?}, expected {ch} {xr:?} {yr:?}", b.channel, b.x_range, b.y_range);
        ensure!(b.step == c.step, "chunk {k} has step {}", b.step);
        for y in (yr.0..yr.1).step_by(c.step) {
            let odd = y & c.step != 0;
            for x in (xr.0..xr.1).step_by(c.step) {
                let i = ch * w * h + y * w + x;
                let writable = (y == yr.0 && x == xr.0) || odd || (x & c.step != 0);
                let first = touched[i] == 0;
                ensure!(unsafe { *b.get_unchecked(y, x) } == i as u32, "chunk {k}: reading row {y} column {x}");
                ensure!(b[(y, x)] == i as u32, "chunk {k}: indexing row {y} column {x}");
                if writable {
                    ensure!(first, "row {y} column {x} of channel {ch} is handed out twice");
                    touched[i] = 1;
                    unsafe { *b.get_unchecked_mut(y, x) = i as u32 + 7 };
                    ensure!(b[(y, x)] == i as u32 + 7, "chunk {k}: write to row {y} column {x}");
                    b[(y, x)] = i as u32;
                    touched[i] = 2;
                }
            }
        }
        k += 1;
    }
    ensure!(k == expected.len(), "{k} chunks, expected {}", expected.len());
    for (i, v) in data.iter().enumerate() {
        ensure!(*v == i as u32, "element {i} became {v}");
    }
    Ok(())
}

fn parallel(c: &(usize, bool, u64), o: &mut Obs) -> Res {
    let (n, hint, seed) = *c;
    if n > 1 {
        o.nontrivial();
    }
    let f = |x: usize| vh::content::mix(seed ^ x as u64);
    let mut got = process_maybe_parallel_map_collect(0..n, f, hint);
    let mut want: Vec<u64> = (0..n).map(f).collect();
    got.sort();
    want.sort();
    ensure!(got == want, "map over {n} items does not give each result once");
    let seen = Mutex::new(vec![0u32; n]);
    process_maybe_parallel_for_each(0..n, |i| seen.lock().unwrap()[i] += 1, hint);
    ensure!(seen.into_inner().unwrap().iter().all(|&x| x == 1), "for_each over {n} items does not visit each once");
    let mut data: Vec<u64> = vec![0; n];
    process_maybe_parallel_for_each(data.iter_mut().enumerate(), |(i, d)| *d += f(i), hint);
    ensure!((0..n).all(|i| data[i] == f(i)), "for_each over {n} mutable items");
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    let len = || prop_oneof![8 => 0usize..60, 2 => 0usize..2000, 1 => vh::gen::dict(5000).prop_map(|v| v as usize)];
    let step = || prop_oneof![4 => 1usize..10, 1 => 1usize..80, 1 => (0u32..8).prop_map(|k| 1usize << k), 1 => 1usize..3000, 1 => vh::gen::dict(5000).prop_map(|v| v as usize)];
    let all: Vec<(usize, usize)> = (0usize..=48).flat_map(|n| (1usize..=50).map(move |s| (n, s))).collect();
    ctx.fixed("overlapping_all", "every length up to 48 with every step up to 50", all, overlapping);
    ctx.check("overlapping", "random lengths and steps; both overlapping iterators against the index model, writing through every middle; non-trivial: more than three chunks", 60_000, move || (len(), step()), overlapping);
    ctx.check("variable", "random data lengths and lists of chunk sizes, empty and excessive ones too; non-trivial: more than two chunks and elements", 300_000, || {
        (0usize..120, prop::collection::vec(prop_oneof![1 => Just(0usize), 5 => 0usize..20, 1 => 0usize..200], 0..20))
    }, variable);
    ctx.check("image", "random image sizes, channels, steps and block sizes; every position of every chunk read and every writable one written; non-trivial: several chunks per channel", 60_000, image_cases, image);
    ctx.check("parallel", "random numbers of items, with and without the parallel hint; non-trivial: more than one item", 20_000, || (prop_oneof![4 => 0usize..20, 4 => 0usize..3000, 1 => vh::gen::dict(20_000).prop_map(|v| v as usize)], any::<bool>(), any::<u64>()), parallel);
}
