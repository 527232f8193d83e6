pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c17;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c23;

use gfwx::{compress_simple, decompress_simple, DecompressError, Header};
use vh::gen::Case;

pub const HEADER: usize = 32;

pub fn derr(e: &DecompressError) -> String {
    format!("{e:?}")
}

/// compress_simple into a buffer with plenty of room.
pub fn encode(case: &Case, header: &Header, img: &[u8]) -> Result<Vec<u8>, String> {
    let mut buf = vec![0xA5u8; case.roomy()];
    let n = compress_simple(img, header, &case.program(), &mut buf).map_err(|e| format!("compression failed with {e:?} in a buffer of {} bytes", case.roomy()))?;
    if n > buf.len() {
        return Err(format!("compress_simple returned {n} for a buffer of {}", buf.len()));
    }
    buf.truncate(n);
    Ok(buf)
}

/// decompress_simple of what follows the header.
pub fn decode(header: &Header, data: &[u8], d: usize, test: bool) -> Result<(usize, Vec<u8>), DecompressError> {
    let mut out = vec![0xC3u8; header.get_decompress_buffer_size(d)];
    let r = decompress_simple(data, header, d, test, &mut out)?;
    Ok((r, out))
}

/// First difference of two sample arrays, described.
pub fn diff(what: &str, a: &[u8], b: &[u8]) -> Result<(), String> {
    if a.len() != b.len() {
        return Err(format!("{what}: {} samples against {}", a.len(), b.len()));
    }
    match a.iter().zip(b).position(|(x, y)| x != y) {
        None => Ok(()),
        Some(i) => {
            let n = a.iter().zip(b).filter(|(x, y)| x != y).count();
            Err(format!("{what}: {n} of {} samples differ, the first at {i}: got {} but expected {}", a.len(), a[i], b[i]))
        }
    }
}

pub fn diff16(what: &str, a: &[i16], b: &[i16]) -> Result<(), String> {
    if a.len() != b.len() {
        return Err(format!("{what}: {} samples against {}", a.len(), b.len()));
    }
    match a.iter().zip(b).position(|(x, y)| x != y) {
        None => Ok(()),
        Some(i) => Err(format!("{what}: sample {i} of {}: got {} but expected {}", a.len(), a[i], b[i])),
    }
}
