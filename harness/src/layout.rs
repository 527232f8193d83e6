//! Where things are in a stream of the library: the colour program, and the size tables and blocks of each level.
use crate::gen::Case;

#[derive(Clone, Debug)]
pub struct LevelPos {
    pub step: usize,
    /// block side in samples of the full image
    pub bs: usize,
    pub bx: usize,
    pub by: usize,
    /// byte offset of the size table in the payload (what follows the header)
    pub table: usize,
    pub first: usize,
    /// sizes of the blocks in bytes
    pub sizes: Vec<usize>,
    pub end: usize,
}

#[derive(Clone, Debug)]
pub struct Layout {
    /// length of the colour program
    pub prog: usize,
    pub levels: Vec<LevelPos>,
}

/// `payload`: a complete stream without its header. The length of the colour program follows from the rest.
pub fn parse(case: &Case, payload: &[u8], prog: usize) -> Result<Layout, String> {
    let mut off = prog;
    let mut levels = vec![];
    for l in case.levels() {
        let table = off;
        let first = table + 4 * l.blocks;
        if first > payload.len() {
            return Err(format!("the size table of step {} ends at {first}, the stream at {}", l.step, payload.len()));
        }
        let sizes: Vec<usize> =
            payload[table..first].chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap()) as usize * 4).collect();
        let end = first + sizes.iter().sum::<usize>();
        if end > payload.len() {
            return Err(format!("the blocks of step {} end at {end}, the stream at {}", l.step, payload.len()));
        }
        levels.push(LevelPos { step: l.step, bs: l.bs, bx: l.bx, by: l.by, table, first, sizes, end });
        off = end;
    }
    if off != payload.len() {
        return Err(format!("the blocks end at {off}, the stream at {}", payload.len()));
    }
    Ok(Layout { prog, levels })
}

impl Layout {
    /// End of what decoding at `d` needs.
    pub fn needed(&self, d: usize) -> usize {
        self.levels.iter().filter(|l| l.step >> d >= 1).last().map_or(self.prog, |l| l.end)
    }
    /// Length that makes the size table of each level readable, and the end of each level: where behaviour changes.
    pub fn marks(&self) -> Vec<usize> {
        let mut v = vec![self.prog];
        for l in &self.levels {
            v.push(l.first);
            let mut e = l.first;
            for s in l.sizes.iter().take(40) {
                e += s;
                v.push(e);
            }
            v.push(l.end);
        }
        v
    }
    /// For every level whether its table was readable in the first `len` bytes and which of its blocks are complete.
    pub fn present(&self, len: usize, d: usize) -> Vec<Vec<bool>> {
        let mut out = vec![];
        let mut go = true;
        for l in &self.levels {
            if l.step >> d == 0 {
                out.push(vec![false; l.sizes.len()]);
                continue;
            }
            if !go || len <= l.first {
                go = false;
                out.push(vec![false; l.sizes.len()]);
                continue;
            }
            let mut e = l.first;
            out.push(
                l.sizes
                    .iter()
                    .map(|s| {
                        e += s;
                        e <= len
                    })
                    .collect(),
            );
            if l.end > len {
                go = false;
            }
        }
        out
    }
    pub fn complete(&self, len: usize, d: usize) -> bool {
        len >= self.needed(d)
    }
    /// The point of interest the format's decoder reports for a cut, None where it has to guess.
    pub fn point(&self, len: usize, d: usize) -> Option<usize> {
        let mut p = None;
        for l in &self.levels {
            if l.step >> d == 0 {
                break;
            }
            if len <= l.first {
                // enough for the size table and the first word after it
                p = p.map(|p: usize| p.max(l.first + 4));
                break;
            }
            p = Some(l.end + if l.step >> d > 1 { 16 * l.sizes.len() } else { 0 });
            if l.end > len {
                break;
            }
        }
        p
    }
    /// Index of the level and block that hold the coefficient of channel `k` at (x, y).
    pub fn home(&self, k: usize, x: usize, y: usize) -> (usize, usize) {
        let li = match crate::model::M::level_of(x, y) {
            None => 0,
            Some(s) => {
                // a coefficient above the top step belongs to the top level
                self.levels.iter().position(|l| l.step == s).unwrap_or(0)
            }
        };
        let l = &self.levels[li];
        (li, k * l.bx * l.by + (y / l.bs) * l.bx + x / l.bs)
    }
}
