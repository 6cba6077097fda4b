//! Specification-conforming frames with symbolic content, and raw symbolic bytes.
use crate::api::*;
use crate::refp::*;

/// An append-only area the size of which may be symbolic.
pub struct W {
    pub p: *mut u8,
    pub n: usize,
    pub cap: usize,
    pub smax: u64,
    pub text: u8,
    /// this text field (from 1; none: 0) holds any bytes; `valid` tells whether they are well-formed
    pub wild: usize,
    pub long: bool,
    pub strs: usize,
    pub valid: bool,
    /// every field is exactly smax bytes long
    pub fixed: bool,
    /// values are constants, fields `smax` letters
    pub plain: bool,
    /// this many of everything that repeats; 0: one or two
    pub lots: usize,
    /// where lengths are
    pub lens: Vec<usize>,
}
impl W {
    pub fn new(cap: usize) -> W {
        let mut v: Vec<u8> = Vec::with_capacity(cap);
        let p = v.as_mut_ptr();
        std::mem::forget(v);
        W { p, n: 0, cap, smax: 65535, text: 254, wild: 0, long: false, strs: 0, valid: true, fixed: false, plain: false, lots: 0, lens: Vec::new() }
    }
    #[inline(always)]
    pub fn u8(&mut self, x: u8) {
        unsafe { *self.p.add(self.n) = x }
        self.n += 1;
    }
    pub fn u16(&mut self, x: u16) {
        self.u8((x >> 8) as u8);
        self.u8(x as u8);
    }
    pub fn u32(&mut self, x: u32) {
        self.u16((x >> 16) as u16);
        self.u16(x as u16);
    }
    pub fn varint(&mut self, mut x: usize) {
        loop {
            self.lens.push(self.n);
            let b = (x & 127) as u8;
            x >>= 7;
            if x == 0 {
                self.u8(b);
                return;
            }
            self.u8(b | 128);
        }
    }
    pub fn v8(&self, x: u8) -> u8 {
        if self.plain || self.lots > 0 {
            x
        } else {
            any_u8()
        }
    }
    pub fn v16(&self) -> u16 {
        if self.plain {
            0x0102
        } else {
            any_u16()
        }
    }
    pub fn any(&mut self, n: usize, maxbyte: u8) {
        fill(unsafe { self.p.add(self.n) }, n, maxbyte);
        self.n += n;
    }
    /// length-prefixed content of any length up to the bound
    pub fn field(&mut self, maxbyte: u8) {
        let n = if self.fixed { self.smax } else { range(1, self.smax) };
        self.lens.push(self.n);
        self.lens.push(self.n + 1);
        self.u16(n as u16);
        if self.plain {
            for i in 0..n {
                self.u8(b'a' + i as u8);
            }
            return;
        }
        self.any(n as usize, maxbyte);
    }
    pub fn str(&mut self) {
        let t = self.text;
        self.strs += 1;
        if self.wild > 0 && self.strs != self.wild {
            self.u16(1);
            self.u8(b'a');
        } else if self.wild > 0 {
            if self.long {
                // long ASCII, one byte of which is not text
                let n = range(1, 65535) as usize;
                self.u16(n as u16);
                let p = unsafe { self.p.add(self.n) };
                self.any(n, 127);
                spoil(p, n, range(0, n as u64 - 1) as usize);
                self.valid = false;
                return;
            }
            let n = choose(self.smax + 1) as usize;
            self.u16(n as u16);
            let b = B { p: unsafe { self.p.add(self.n) }, n };
            self.any(n, 255);
            self.valid &= utf8_ok(&b);
        } else if t == 255 {
            let n = range(1, self.smax);
            self.u16(n as u16);
            let at = self.n;
            self.any(n as usize, t);
            let s = unsafe { std::slice::from_raw_parts(self.p.add(at), n as usize) };
            assume(std::str::from_utf8(s).is_ok());
        } else {
            self.field(t);
        }
    }
    pub fn put(&mut self, s: &[u8]) {
        unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), self.p.add(self.n), s.len()) }
        self.n += s.len();
    }
    pub fn put_w(&mut self, o: &W) {
        unsafe { std::ptr::copy_nonoverlapping(o.p, self.p.add(self.n), o.n) }
        for i in o.lens.iter() {
            self.lens.push(self.n + *i);
        }
        self.n += o.n;
    }
    pub fn b(&self) -> B {
        B { p: self.p, n: self.n }
    }
    pub fn slice(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.p, self.n) }
    }
    /// one property with any value
    pub fn prop(&mut self, id: u8) {
        self.u8(id);
        match kind(id) {
            1 => self.u8(self.v8(1)),
            2 => self.u16(self.v16()),
            4 => self.u32(if self.plain { 0x01020304 } else { any_u32() }),
            5 => {
                let v = if self.plain {
                    300
                } else if self.lots > 0 {
                    range(128, 16383) as usize
                } else { range(0, 268_435_455) as usize };
                self.varint(v);
            }
            6 => self.str(),
            7 => self.field(255),
            _ => {
                self.str();
                self.str();
            }
        }
    }
    fn several(&self) -> usize {
        if self.lots > 0 {
            self.lots
        } else {
            1 + choose(2) as usize
        }
    }
    /// with long lists: only what repeats, many times, in front of or behind one other property
    fn order(&self, ty: u8, pairs: u8) -> Vec<u8> {
        if self.lots == 0 {
            return order(ty, pairs);
        }
        let al = allowed(ty);
        let mut v = Vec::with_capacity(self.lots + 2);
        let k = choose(if ty == 3 { 4 } else { 3 });
        if k == 0 {
            return v;
        }
        let x = if k == 3 { 11 } else { 38 };
        let one = if al[0] == x { al[al.len() - 1] } else { al[0] };
        if k == 1 && one != x {
            v.push(one);
        }
        for _ in 0..self.lots {
            v.push(x);
        }
        if k == 2 && one != x {
            v.push(one);
        }
        v
    }
    /// a section holding these properties in this order
    pub fn section(&mut self, ids: &[u8]) {
        let mut s = W::new(self.cap);
        s.smax = self.smax;
        s.text = self.text;
        s.wild = self.wild;
        s.long = self.long;
        s.strs = self.strs;
        s.fixed = self.fixed;
        s.plain = self.plain;
        s.lots = self.lots;
        for id in ids {
            s.prop(*id);
        }
        self.valid &= s.valid;
        self.strs = s.strs;
        self.varint(s.n);
        self.put_w(&s);
    }
}

/// Property orders: none; each alone; each ordered pair (a repeatable one also twice); all, in the
/// table's order, reversed and rotated by one. `pairs`: 0 without the pairs, 1 everything, 2 only the first
/// two groups.
pub fn order(ty: u8, pairs: u8) -> Vec<u8> {
    let al = allowed(ty);
    let n = al.len() as u64;
    let np = if pairs == 1 { n * n } else { 0 };
    let total = if pairs == 2 { 1 + n } else { 1 + n + 3 + np };
    let k = choose(total);
    let mut v = Vec::with_capacity(al.len() + 1);
    if k == 0 {
        return v;
    }
    if k <= n {
        v.push(al[(k - 1) as usize]);
        return v;
    }
    let k = k - 1 - n;
    match k {
        0 => v.extend_from_slice(al),
        1 => {
            for i in 0..al.len() {
                v.push(al[al.len() - 1 - i]);
            }
        }
        2 => {
            for i in 0..al.len() {
                v.push(al[(i + 1) % al.len()]);
            }
        }
        _ => {
            let (i, j) = ((k - 3) / n, (k - 3) % n);
            let (x, y) = (al[i as usize], al[j as usize]);
            if x == y && x != 38 && !(x == 11 && ty == 3) {
                end();
            }
            v.push(x);
            v.push(y);
        }
    }
    v
}

/// Body of a conforming frame. Returns the first byte.
pub fn body(w: &mut W, ty: u8, pairs: u8) -> u8 {
    match ty {
        1 => {
            w.put(b"\0\x04MQTT\x05");
            let which = choose(2);
            let p1 = if which == 0 { w.order(1, pairs) } else { Vec::new() };
            let will = which == 1 || choose(2) == 1;
            let p2 = if which == 1 { w.order(0, pairs) } else { Vec::new() };
            let user = choose(2) as u8;
            let pass = choose(2) as u8;
            let clean = w.v8(0);
            assume(clean < 2);
            let mut fl = clean << 1 | user << 7 | pass << 6;
            if will {
                let q = w.v8(0);
                assume(q < 3);
                let r = w.v8(0);
                assume(r < 2);
                fl |= 4 | q << 3 | r << 5;
            }
            w.u8(fl);
            w.u16(w.v16());
            w.section(&p1);
            w.str();
            if will {
                w.section(&p2);
                // the library takes the will topic as bytes
                w.field(254);
                w.field(255);
            }
            if user == 1 {
                w.str();
            }
            if pass == 1 {
                w.str();
            }
            0x10
        }
        2 => {
            let a = w.v8(0);
            assume(a < 2);
            w.u8(a);
            let c = w.v8(0);
            assume(code_ok(2, c));
            w.u8(c);
            let o = w.order(2, pairs);
            w.section(&o);
            0x20
        }
        3 => {
            let o = w.order(3, pairs);
            let q = choose(3) as u8;
            w.str();
            if q > 0 {
                let id = w.v16();
                assume(id != 0);
                w.u16(id);
            }
            w.section(&o);
            let n = if w.plain {
                0
            } else if w.fixed {
                w.smax
            } else {
                range(0, w.smax)
            };
            if w.plain {
                w.u8(b'p');
            } else {
                w.any(n as usize, 255);
            }
            let f = w.v8(0);
            assume(f & 0xf6 == 0);
            0x30 | q << 1 | f
        }
        4 | 5 | 6 | 7 => {
            w.u16(w.v16());
            let form = choose(3);
            if form > 0 {
                let c = w.v8(0);
                assume(code_ok(ty, c));
                w.u8(c);
            }
            if form > 1 {
                let o = w.order(ty, pairs);
                w.section(&o);
            }
            ty << 4 | if ty == 6 { 2 } else { 0 }
        }
        8 => {
            w.u16(w.v16());
            let o = w.order(8, pairs);
            w.section(&o);
            let n = w.several();
            for i in 0..n {
                w.str();
                if w.lots > 0 {
                    w.u8((i % 3) as u8 | (i / 3 % 3 << 4) as u8 | any_u8() & 0xc);
                    continue;
                }
                let o = w.v8(0);
                assume(o & 0xc0 == 0 && o & 3 != 3 && o & 0x30 != 0x30);
                w.u8(o);
            }
            0x82
        }
        9 | 11 => {
            w.u16(w.v16());
            let o = w.order(ty, pairs);
            w.section(&o);
            let n = w.several();
            let mut k = 0u8;
            for _ in 0..n {
                if w.lots > 0 {
                    while !code_ok(ty, k) {
                        k = k.wrapping_add(1);
                    }
                    w.u8(k);
                    k = k.wrapping_add(1);
                    continue;
                }
                let c = w.v8(0);
                assume(code_ok(ty, c));
                w.u8(c);
            }
            ty << 4
        }
        10 => {
            w.u16(w.v16());
            let o = w.order(10, pairs);
            w.section(&o);
            let n = w.several();
            for _ in 0..n {
                w.str();
            }
            0xa2
        }
        12 | 13 => ty << 4,
        _ => {
            let form = choose(3);
            if form > 0 {
                let c = w.v8(0);
                assume(code_ok(14, c));
                w.u8(c);
            }
            if form > 1 {
                let o = w.order(14, pairs);
                w.section(&o);
            }
            0xe0
        }
    }
}

/// Header with the length of the body, then the body.
pub fn framed(b1: u8, body: &W) -> W {
    let mut f = W::new(body.cap + 8);
    f.u8(b1);
    f.varint(body.n);
    f.put_w(body);
    f
}

/// Conforming frames with long lists of one-byte texts.
pub fn lists(ty: u8) -> W {
    let mut w = W::new(1 << 16);
    w.smax = 1;
    w.fixed = true;
    w.lots = LOTS[choose(LOTS.len() as u64) as usize] as usize;
    let b1 = body(&mut w, ty, 0);
    framed(b1, &w)
}

/// Well-formed UTF-8 (Unicode table 3-7).
pub fn utf8_ok(b: &B) -> bool {
    // from the back: ok[i] says that the bytes from i on are well-formed. The length is concrete.
    let n = b.n;
    let mut ok = [false; 24];
    ok[n] = true;
    let mut i = n;
    while i > 0 {
        i -= 1;
        let x = |k: usize| b.at(i + k) as u32;
        let cont = |k: usize| x(k) & 0xc0 == 0x80;
        let mut r = (x(0) < 0x80) & ok[i + 1];
        if i + 2 <= n {
            let c = (x(0) & 0x1f) << 6 | x(1) & 0x3f;
            r |= (x(0) & 0xe0 == 0xc0) & cont(1) & (c >= 0x80) & ok[i + 2];
        }
        if i + 3 <= n {
            let c = (x(0) & 0x0f) << 12 | (x(1) & 0x3f) << 6 | x(2) & 0x3f;
            r |= (x(0) & 0xf0 == 0xe0) & cont(1) & cont(2) & (c >= 0x800) & ((c < 0xd800) | (c > 0xdfff)) & ok[i + 3];
        }
        if i + 4 <= n {
            let c = (x(0) & 0x07) << 18 | (x(1) & 0x3f) << 12 | (x(2) & 0x3f) << 6 | x(3) & 0x3f;
            r |= (x(0) & 0xf8 == 0xf0) & cont(1) & cont(2) & cont(3) & (c >= 0x10000) & (c <= 0x10ffff) & ok[i + 4];
        }
        ok[i] = r;
    }
    ok[0]
}

/// A conforming frame one byte of which, anywhere in it, is replaced by any value. Variant 0: no, one
/// and all properties, constant content; 1: pairs of properties; 2: no or one, any content; 3: any text
/// at that; 4: constant content and two wrong bytes.
pub fn flipped(ty: u8, variant: u64) -> W {
    let mut w = W::new(4096);
    w.smax = 2;
    w.fixed = true;
    w.plain = variant < 2 || variant == 4;
    if variant == 3 {
        w.text = 255;
    }
    let pairs = match variant {
        0 => 0,
        1 => 1,
        _ => 2,
    };
    let b1 = body(&mut w, ty, pairs);
    let f = framed(b1, &w);
    let at = choose(f.n as u64) as usize;
    flip(&f, at);
    if variant == 4 {
        let at2 = choose(f.n as u64) as usize;
        assume(at2 > at);
        flip(&f, at2);
    }
    f
}
fn flip(f: &W, at: usize) {
    // a length decides what lies where
    let x = if f.lens.contains(&at) { choose(256) as u8 } else { any_u8() };
    unsafe { *f.p.add(at) = x }
}

/// The body of a connect with any protocol name, level and flags, and what they are.
pub struct Greeting {
    pub w: W,
    pub mqtt: bool,
    pub level: u8,
    pub fl: u8,
    pub empty: bool,
    pub will_ok: bool,
}
/// Variant 0: a name of four bytes; 1: of up to six; 2: of any up to 65535, beginning with MQTT.
pub fn greeting(variant: u64) -> Greeting {
    let mut w = W::new(8 << 20);
    w.smax = 60;
    let nl = match variant {
        0 => 4,
        1 => range(0, 6) as usize,
        _ => range(5, 65535) as usize,
    };
    w.u16(nl as u16);
    let at = w.n;
    if variant == 2 {
        w.put(b"MQTT");
        w.any(nl - 4, 127);
    } else {
        w.any(nl, 127);
    }
    let name = B { p: unsafe { w.p.add(at) }, n: nl };
    let mqtt = nl == 4 && name.at(0) == b'M' && name.at(1) == b'Q' && name.at(2) == b'T' && name.at(3) == b'T';
    let level = any_u8();
    w.u8(level);
    let fl = any_u8();
    w.u8(fl);
    w.u16(any_u16());
    w.section(if choose(2) == 0 { &[] } else { &[33, 38] });
    let empty = choose(2) == 1;
    let part = |w: &mut W| {
        if empty {
            w.u16(0);
        } else {
            w.str();
        }
    };
    part(&mut w);
    if fl & 4 != 0 {
        w.section(if choose(2) == 0 { &[] } else { &[24, 3] });
        w.field(254);
        w.field(255);
    }
    if fl & 0x80 != 0 {
        part(&mut w);
    }
    if fl & 0x40 != 0 {
        w.str();
    }
    let will_ok = if fl & 4 != 0 { fl & 0x18 != 0x18 } else { fl & 0x38 == 0 };
    Greeting { w, mqtt, level, fl, empty, will_ok }
}
