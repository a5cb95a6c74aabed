//! Independent implementation of the LevelDB log format, for oracles.
pub const BLOCK: usize = 32768;
pub const HDR: usize = 7;

fn table() -> &'static [u32; 256] {
    use std::sync::OnceLock;
    static T: OnceLock<[u32; 256]> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = [0u32; 256];
        for (i, e) in t.iter_mut().enumerate() {
            let mut c = i as u32;
            for _ in 0..8 {
                c = if c & 1 != 0 { (c >> 1) ^ 0x82F6_3B78 } else { c >> 1 };
            }
            *e = c;
        }
        t
    })
}

pub fn warm() {
    table();
}

/// CRC-32C (Castagnoli), bit by bit from its polynomial.
pub fn crc32c(parts: &[&[u8]]) -> u32 {
    let t = table();
    let mut c = !0u32;
    for p in parts {
        for b in *p {
            c = t[((c ^ *b as u32) & 0xff) as usize] ^ (c >> 8);
        }
    }
    !c
}

pub fn mask(c: u32) -> u32 {
    c.rotate_right(15).wrapping_add(0xa282_ead8)
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub start: usize,
    pub end: usize,
    pub data: Vec<u8>,
    pub frags: usize,
}

#[derive(Clone, Debug, Default)]
pub struct Layout {
    pub recs: Vec<Rec>,
    /// (header offset, payload length, type)
    pub phys: Vec<(usize, usize, u8)>,
    /// offsets of block trailers
    pub trailers: Vec<(usize, usize)>,
}

/// Decode a complete, undamaged log.
pub fn decode(b: &[u8]) -> Result<Layout, String> {
    let mut l = Layout::default();
    let mut cur: Option<Rec> = None;
    let mut p = 0;
    while p < b.len() {
        let left = BLOCK - p % BLOCK;
        if left < HDR {
            let n = left.min(b.len() - p);
            if b[p..p + n].iter().any(|x| *x != 0) {
                return Err(format!("block trailer at {} is not zero", p));
            }
            l.trailers.push((p, n));
            p += n;
            continue;
        }
        if p + HDR > b.len() {
            return Err(format!("header at {} cut off", p));
        }
        let crc = u32::from_le_bytes([b[p], b[p + 1], b[p + 2], b[p + 3]]);
        let len = b[p + 4] as usize | (b[p + 5] as usize) << 8;
        let ty = b[p + 6];
        if HDR + len > left {
            return Err(format!("physical record at {} of length {} leaves its block", p, len));
        }
        if p + HDR + len > b.len() {
            return Err(format!("physical record at {} of length {} cut off", p, len));
        }
        let data = &b[p + HDR..p + HDR + len];
        if mask(crc32c(&[&[ty], data])) != crc {
            return Err(format!("checksum of the physical record at {} is not the masked CRC-32C", p));
        }
        match (ty, cur.is_some()) {
            (1, false) => l.recs.push(Rec { start: p, end: p + HDR + len, data: data.to_vec(), frags: 1 }),
            (2, false) => cur = Some(Rec { start: p, end: 0, data: data.to_vec(), frags: 1 }),
            (3, true) | (4, true) => {
                let c = cur.as_mut().unwrap();
                c.data.extend_from_slice(data);
                c.frags += 1;
                if ty == 4 {
                    c.end = p + HDR + len;
                    l.recs.push(cur.take().unwrap());
                }
            }
            _ => return Err(format!("physical record of type {} at {} out of place", ty, p)),
        }
        l.phys.push((p, len, ty));
        p += HDR + len;
    }
    if cur.is_some() {
        return Err("last record has no end".into());
    }
    Ok(l)
}

/// One FULL physical record, to hide inside payloads.
pub fn encode_full(data: &[u8]) -> Vec<u8> {
    let mut v = mask(crc32c(&[&[1], data])).to_le_bytes().to_vec();
    v.push(data.len() as u8);
    v.push((data.len() >> 8) as u8);
    v.push(1);
    v.extend_from_slice(data);
    v
}

/// A checksum carried on over further bytes.
pub fn crc_extend(crc: u32, data: &[u8]) -> u32 {
    let t = table();
    !data.iter().fold(!crc, |c, b| t[((c ^ *b as u32) & 0xff) as usize] ^ (c >> 8))
}
