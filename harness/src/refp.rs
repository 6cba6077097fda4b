//! A reader for MQTT 5 frames written from the specification alone.
use crate::api::*;

/// Bytes of one frame.
#[derive(Clone, Copy)]
pub struct B {
    pub p: *const u8,
    pub n: usize,
}
impl B {
    #[inline(always)]
    pub fn at(&self, i: usize) -> u8 {
        unsafe { *self.p.add(i) }
    }
    #[inline(always)]
    pub fn u16(&self, i: usize) -> u16 {
        (self.at(i) as u16) << 8 | self.at(i + 1) as u16
    }
    #[inline(always)]
    pub fn u32(&self, i: usize) -> u32 {
        (self.u16(i) as u32) << 16 | self.u16(i + 2) as u32
    }
}

#[derive(Clone, Copy, Default)]
pub struct Item {
    pub id: u8,
    pub num: u64,
    pub off: usize,
    pub len: usize,
    pub off2: usize,
    pub len2: usize,
}

#[derive(Default)]
pub struct Rf {
    pub ty: u8,
    pub fl: u8,
    pub pkid: u16,
    pub code: u8,
    /// connect: flags; connack: acknowledge flags
    pub a: u8,
    pub keep: u16,
    pub p1: Vec<Item>,
    pub p2: Vec<Item>,
    pub s: Vec<(usize, usize)>,
    pub o: Vec<u8>,
    /// payload, or the position and number of reason codes
    pub rest: (usize, usize),
    /// first byte after the last field
    pub end: usize,
    pub minimal: bool,
}

/// value, bytes used
pub fn varint(b: &B, pos: usize, end: usize) -> Option<(usize, usize)> {
    let mut v = 0usize;
    let mut k = 0usize;
    while k < 4 {
        if pos + k >= end {
            return None;
        }
        let x = b.at(pos + k) as usize;
        v += (x % 128) << (7 * k);
        k += 1;
        if x < 128 {
            return Some((v, k));
        }
    }
    None
}
pub fn varint_len(v: usize) -> usize {
    if v < 128 {
        1
    } else if v < 16384 {
        2
    } else if v < 2097152 {
        3
    } else {
        4
    }
}

/// 1 byte, 2 two bytes, 4 four bytes, 5 variable byte integer, 6 string, 7 binary, 8 string pair
pub fn kind(id: u8) -> u8 {
    match id {
        1 | 23 | 25 | 36 | 37 | 40 | 41 | 42 => 1,
        19 | 33 | 34 | 35 => 2,
        2 | 17 | 24 | 39 => 4,
        11 => 5,
        3 | 8 | 18 | 21 | 26 | 28 | 31 => 6,
        9 | 22 => 7,
        38 => 8,
        _ => 0,
    }
}
/// MQTT 5 table 2-4; 0 stands for the will properties.
pub fn allowed(ty: u8) -> &'static [u8] {
    match ty {
        0 => &[24, 1, 2, 3, 8, 9, 38],
        1 => &[17, 33, 39, 34, 25, 23, 38, 21, 22],
        2 => &[17, 33, 36, 37, 39, 18, 34, 31, 38, 40, 41, 42, 19, 26, 28, 21, 22],
        3 => &[1, 2, 35, 8, 9, 38, 11, 3],
        4 | 5 | 6 | 7 | 9 | 11 => &[31, 38],
        8 => &[11, 38],
        10 => &[38],
        14 => &[17, 31, 38, 28],
        _ => &[],
    }
}
fn field(b: &B, pos: usize, end: usize) -> Option<(usize, usize)> {
    if pos + 2 > end {
        return None;
    }
    let n = b.u16(pos) as usize;
    if pos + 2 + n > end {
        return None;
    }
    Some((pos + 2, n))
}
/// items, first byte after the section, whether its length was minimal
pub fn props(b: &B, ty: u8, pos: usize, end: usize, out: &mut Vec<Item>) -> Option<(usize, bool)> {
    let (n, k) = varint(b, pos, end)?;
    let mut pos = pos + k;
    let pe = pos + n;
    if pe > end {
        return None;
    }
    let ok = allowed(ty);
    let mut min = k == varint_len(n);
    while pos < pe {
        let id = b.at(pos);
        pos += 1;
        let mut it = Item { id, ..Default::default() };
        if !ok.contains(&id) {
            return None;
        }
        match kind(id) {
            1 => {
                if pos + 1 > pe {
                    return None;
                }
                it.num = b.at(pos) as u64;
                pos += 1;
            }
            2 => {
                if pos + 2 > pe {
                    return None;
                }
                it.num = b.u16(pos) as u64;
                pos += 2;
            }
            4 => {
                if pos + 4 > pe {
                    return None;
                }
                it.num = b.u32(pos) as u64;
                pos += 4;
            }
            5 => {
                let (v, k) = varint(b, pos, pe)?;
                it.num = v as u64;
                min &= k == varint_len(v);
                pos += k;
            }
            6 | 7 => {
                let (o, n) = field(b, pos, pe)?;
                it.off = o;
                it.len = n;
                pos = o + n;
            }
            _ => {
                let (o, n) = field(b, pos, pe)?;
                it.off = o;
                it.len = n;
                let (o, n) = field(b, o + n, pe)?;
                it.off2 = o;
                it.len2 = n;
                pos = o + n;
            }
        }
        out.push(it);
    }
    Some((pos, min))
}

/// Whether the byte is a reason code MQTT 5 assigns in this packet.
pub fn code_ok(ty: u8, c: u8) -> bool {
    let t: &[u8] = match ty {
        2 => &[
            0x00, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8a, 0x8c, 0x90, 0x95, 0x97, 0x99,
            0x9a, 0x9b, 0x9c, 0x9d, 0x9f,
        ],
        4 | 5 => &[0x00, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99],
        6 | 7 => &[0x00, 0x92],
        9 => &[0x00, 0x01, 0x02, 0x80, 0x83, 0x87, 0x8f, 0x91, 0x97, 0x9e, 0xa1, 0xa2],
        11 => &[0x00, 0x11, 0x80, 0x83, 0x87, 0x8f, 0x91],
        14 => &[
            0x00, 0x04, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8b, 0x8d, 0x8e, 0x8f, 0x90, 0x93, 0x94, 0x95, 0x96,
            0x97, 0x98, 0x99, 0x9a, 0x9b, 0x9c, 0x9d, 0x9e, 0x9f, 0xa0, 0xa1, 0xa2,
        ],
        _ => &[],
    };
    let mut ok = false;
    for x in t {
        ok |= *x == c;
    }
    ok
}

/// One complete frame; None when it breaks MQTT 5 in a way the decoder must
/// notice. Tolerated: bytes after the last field, reserved flag bits, lengths
/// that are not minimal, repeated properties, an unsubscribe without filters.
pub fn frame(b: &B) -> Option<Rf> {
    let mut r = Rf::default();
    if b.n < 2 {
        return None;
    }
    let b1 = b.at(0);
    r.ty = b1 >> 4;
    r.fl = b1 & 15;
    let (rem, k) = varint(b, 1, b.n)?;
    r.minimal = k == varint_len(rem);
    let pos = 1 + k;
    let end = pos + rem;
    if end != b.n {
        return None;
    }
    body(b, pos, rem, &mut r)?;
    Some(r)
}

pub fn body(b: &B, start: usize, rem: usize, r: &mut Rf) -> Option<()> {
    let end = start + rem;
    let mut pos = start;
    let ty = r.ty;
    r.p1 = Vec::with_capacity(40);
    r.p2 = Vec::with_capacity(16);
    r.s = Vec::with_capacity(16);
    r.o = Vec::with_capacity(16);
    match ty {
        1 => {
            let (o, n) = field(b, pos, end)?;
            if n != 4 || b.at(o) != b'M' || b.at(o + 1) != b'Q' || b.at(o + 2) != b'T' || b.at(o + 3) != b'T' {
                return None;
            }
            pos = o + n;
            if pos + 4 > end {
                return None;
            }
            if b.at(pos) != 5 {
                return None;
            }
            r.a = b.at(pos + 1);
            r.keep = b.u16(pos + 2);
            let (q, m) = props(b, 1, pos + 4, end, &mut r.p1)?;
            r.minimal &= m;
            let f = field(b, q, end)?;
            r.s.push(f);
            pos = f.0 + f.1;
            if r.a & 4 != 0 {
                if r.a & 0x18 == 0x18 {
                    return None;
                }
                let (q, m) = props(b, 0, pos, end, &mut r.p2)?;
                r.minimal &= m;
                let f = field(b, q, end)?;
                r.s.push(f);
                let f = field(b, f.0 + f.1, end)?;
                r.s.push(f);
                pos = f.0 + f.1;
            } else if r.a & 0x38 != 0 {
                return None;
            }
            if r.a & 0x80 != 0 {
                let f = field(b, pos, end)?;
                r.s.push(f);
                pos = f.0 + f.1;
            }
            if r.a & 0x40 != 0 {
                let f = field(b, pos, end)?;
                r.s.push(f);
                pos = f.0 + f.1;
            }
        }
        2 => {
            if pos + 2 > end {
                return None;
            }
            r.a = b.at(pos);
            r.code = b.at(pos + 1);
            if !code_ok(2, r.code) {
                return None;
            }
            let (q, m) = props(b, 2, pos + 2, end, &mut r.p1)?;
            r.minimal &= m;
            pos = q;
        }
        3 => {
            let q = (r.fl >> 1) & 3;
            if q == 3 {
                return None;
            }
            let f = field(b, pos, end)?;
            r.s.push(f);
            pos = f.0 + f.1;
            if q != 0 {
                if pos + 2 > end {
                    return None;
                }
                r.pkid = b.u16(pos);
                if r.pkid == 0 {
                    return None;
                }
                pos += 2;
            }
            let (q, m) = props(b, 3, pos, end, &mut r.p1)?;
            r.minimal &= m;
            r.rest = (q, end - q);
            pos = end;
        }
        4 | 5 | 6 | 7 => {
            if rem < 2 {
                return None;
            }
            r.pkid = b.u16(pos);
            pos += 2;
            if rem >= 3 {
                r.code = b.at(pos);
                pos += 1;
                if !code_ok(ty, r.code) {
                    return None;
                }
            }
            if rem >= 4 {
                let (q, m) = props(b, ty, pos, end, &mut r.p1)?;
                r.minimal &= m;
                pos = q;
            }
        }
        8 | 10 => {
            if rem < 2 {
                return None;
            }
            r.pkid = b.u16(pos);
            let (q, m) = props(b, ty, pos + 2, end, &mut r.p1)?;
            r.minimal &= m;
            pos = q;
            if ty == 8 && pos >= end {
                return None;
            }
            while pos < end {
                let f = field(b, pos, end)?;
                r.s.push(f);
                pos = f.0 + f.1;
                if ty == 8 {
                    if pos >= end {
                        return None;
                    }
                    let o = b.at(pos);
                    pos += 1;
                    if o & 3 == 3 || (o >> 4) & 3 == 3 {
                        return None;
                    }
                    r.o.push(o);
                }
            }
        }
        9 | 11 => {
            if rem < 2 {
                return None;
            }
            r.pkid = b.u16(pos);
            let (q, m) = props(b, ty, pos + 2, end, &mut r.p1)?;
            r.minimal &= m;
            if q >= end {
                return None;
            }
            r.rest = (q, end - q);
            pos = q;
            while pos < end {
                if !code_ok(ty, b.at(pos)) {
                    return None;
                }
                pos += 1;
            }
        }
        12 | 13 => {}
        14 => {
            if r.fl != 0 {
                return None;
            }
            if rem >= 1 {
                r.code = b.at(pos);
                pos += 1;
                if !code_ok(14, r.code) {
                    return None;
                }
            }
            if rem >= 2 {
                let (q, m) = props(b, 14, pos, end, &mut r.p1)?;
                r.minimal &= m;
                pos = q;
            }
        }
        _ => return None,
    }
    r.end = pos;
    Some(())
}

/// The frame has nothing the specification forbids (used for encoder output).
pub fn strict(b: &B, r: &Rf) -> bool {
    let fl_ok = match r.ty {
        3 => !((r.fl >> 1) & 3 == 0 && r.fl & 8 != 0) || true,
        6 | 8 | 10 => r.fl == 2,
        _ => r.fl == 0,
    };
    let a_ok = match r.ty {
        1 => r.a & 1 == 0,
        2 => r.a & 0xfe == 0,
        _ => true,
    };
    let mut o_ok = true;
    for o in &r.o {
        o_ok &= o & 0xc0 == 0;
    }
    let whole = match r.ty {
        9 | 11 => true,
        _ => r.end == b.n,
    };
    fl_ok && a_ok && o_ok && whole && r.minimal && (r.ty < 12 || r.ty > 13 || b.n == 2)
}

/// Assert that two stretches hold the same bytes.
pub fn same(b: &B, off: usize, len: usize, x: &[u8], m: &str) {
    ck(len == x.len(), m);
    ck(bytes_eq(unsafe { b.p.add(off) }, x.as_ptr(), len), m);
}

/// Lengths of lists: around the powers of two and what one length byte can hold.
pub const LOTS: &[u64] = &[3, 5, 8, 9, 16, 17, 18, 32, 33, 64, 100, 127, 128, 129, 255, 256, 257, 300];
