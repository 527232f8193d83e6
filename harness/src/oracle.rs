//! The reference C++ codec.
use crate::gen::Case;

extern "C" {
    fn ref_compress(img: *const u8, p: *const i32, prog: *const i32, out: *mut u8, n: usize) -> i64;
    fn ref_decompress(data: *const u8, n: usize, d: i32, test: i32, img: *mut u8) -> i64;
    fn refdiv_compress(img: *const u8, p: *const i32, prog: *const i32, out: *mut u8, n: usize) -> i64;
    fn refdiv_decompress(data: *const u8, n: usize, d: i32, test: i32, img: *mut u8) -> i64;
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Which {
    /// exactly reference_app/gfwx.hpp
    Plain,
    /// with truncating division for the denominators 2, 4 and 8
    Div,
}

fn program_ints(case: &Case) -> Option<Vec<i32>> {
    let t = case.transforms();
    if t.is_empty() {
        return None;
    }
    let mut v = vec![];
    for x in &t {
        v.push(x.dest as i32);
        for f in &x.factors {
            v.push(f.0 as i32);
            v.push(f.1);
        }
        v.push(-1);
        v.push(x.den);
        v.push(x.chroma as i32);
    }
    v.push(-1);
    Some(v)
}

pub fn compress(which: Which, case: &Case, img: &[u8], out_len: usize) -> Result<Vec<u8>, i64> {
    let p = [
        case.w as i32,
        case.h as i32,
        case.layers as i32,
        case.channels as i32,
        case.quality as i32,
        case.chroma as i32,
        case.block as i32,
        case.filter as i32,
        case.encoder as i32,
        case.intent as i32,
    ];
    let prog = program_ints(case);
    let pp = prog.as_ref().map_or(std::ptr::null(), |v| v.as_ptr());
    assert_eq!(img.len(), case.samples());
    let mut out = vec![0u8; out_len];
    let n = unsafe {
        match which {
            Which::Plain => ref_compress(img.as_ptr(), p.as_ptr(), pp, out.as_mut_ptr(), out_len),
            Which::Div => refdiv_compress(img.as_ptr(), p.as_ptr(), pp, out.as_mut_ptr(), out_len),
        }
    };
    if n < 0 {
        return Err(n);
    }
    out.truncate(n as usize);
    Ok(out)
}

/// `data` is a stream with its header, made by a correct encoder, possibly cut; `img` has the size the header implies.
pub fn decompress(which: Which, data: &[u8], d: usize, test: bool, img: &mut [u8]) -> i64 {
    unsafe {
        match which {
            Which::Plain => ref_decompress(data.as_ptr(), data.len(), d as i32, test as i32, img.as_mut_ptr()),
            Which::Div => refdiv_decompress(data.as_ptr(), data.len(), d as i32, test as i32, img.as_mut_ptr()),
        }
    }
}
