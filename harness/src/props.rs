use crate::api::*;
use crate::frames::*;
use crate::model::*;
use crate::refp;
use crate::refp::{allowed, code_ok, kind, props, same, strict, varint, varint_len, Item, Rf, B, LOTS};
use crate::strs::*;
use bytes::{BufMut, Bytes, BytesMut};
use mqtt_bytes_v5::*;

const BIG: usize = 8 << 20;

// A job's parameter: bits 0-3 packet type, bits 4-7 variant, from bit 8 a bound.
fn ty() -> u64 {
    param() & 15
}
fn variant() -> u64 {
    param() >> 4 & 15
}
fn bound() -> usize {
    (param() >> 8) as usize
}

/// Families of packet values. 0: each optional member alone, none and all, empty strings and empty
/// property sets included; 1: every pair of members and every one missing; 2: short text with any
/// Unicode content; 3: every subset of members (short strings); 4: no and all members, short.
fn family(v: u64) -> (G, Shape) {
    let mut g = G::new(65535);
    let mut s = Shape { sub: Sub::Single, hollow: true, list: 2, empties: true, twos: true };
    match v {
        0 => {}
        1 => {
            s = Shape { sub: Sub::Pairs, hollow: false, list: 1, empties: false, twos: false };
        }
        2 => {
            g.text = 255;
            g.smax = 4;
            g.pay = 4;
            s = Shape { sub: Sub::Single, hollow: false, list: 1, empties: false, twos: false };
        }
        3 => {
            g.smax = 40;
            g.pay = 40;
            s = Shape { sub: Sub::Full, hollow: false, list: 1, empties: false, twos: false };
        }
        4 => {
            g.smax = 40;
            g.pay = 40;
            s = Shape { sub: Sub::Single, hollow: false, list: 1, empties: false, twos: false };
        }
        5 => {
            // three of everything that repeats
            g.smax = 300;
            g.many = 3;
            s = Shape { sub: Sub::Single, hollow: false, list: 4, empties: false, twos: false };
        }
        7 => {
            // long lists of one-byte texts
            g.smax = 1;
            g.pay = 1;
            g.empty = LEN1;
            g.lots = LOTS[choose(LOTS.len() as u64) as usize];
            g.many = g.lots;
            cycle();
            s = Shape { sub: Sub::Ends, hollow: false, list: 1, empties: false, twos: false };
        }
        _ => {
            g.smax = 8;
            g.pay = 8;
            s = Shape { sub: Sub::Whole, hollow: false, list: 1, empties: false, twos: false };
        }
    }
    (g, s)
}

fn ours(b: &[u8]) -> B {
    B { p: b.as_ptr(), n: b.len() }
}
fn input(s: &[u8]) -> BytesMut {
    let mut b = BytesMut::with_capacity(s.len());
    b.extend_from_slice(s);
    b
}
fn eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && bytes_eq(a.as_ptr(), b.as_ptr(), a.len())
}
fn insufficient(r: &Result<Packet, Error>) -> bool {
    matches!(r, Err(Error::InsufficientBytes(_)))
}
/// n symbolic bytes
fn raw(n: usize, cap: usize) -> BytesMut {
    let mut b = BytesMut::with_capacity(cap);
    fill(b.as_mut_ptr(), n, 255);
    unsafe { b.set_len(n) }
    b
}

// ---------------------------------------------------------------- C01

#[no_mangle]
pub extern "C" fn c01_roundtrip() {
    let (mut g, s) = family(variant());
    let p = packet(&mut g, ty(), &s);
    let mut buf = BytesMut::with_capacity(BIG);
    let w = p.write(&mut buf);
    ck(w.is_ok(), "a well-formed packet cannot be encoded");
    let r = Packet::read(&mut buf, None);
    match r {
        Ok(q) => {
            ck(buf.is_empty(), "decoding left bytes of the packet behind");
            ck(q == canon(p), "the decoded packet differs from the encoded one");
            cover(1);
        }
        Err(_) => ck(false, "the encoded packet cannot be decoded"),
    }
}

// ---------------------------------------------------------------- C02

#[no_mangle]
pub extern "C" fn c02_sizes() {
    let (mut g, s) = family(variant());
    let p = packet(&mut g, ty(), &s);
    let mut buf = BytesMut::with_capacity(BIG);
    let before = range(0, 3) as usize;
    fill(buf.as_mut_ptr(), before, 255);
    unsafe { buf.set_len(before) }
    match p.write(&mut buf) {
        Ok(n) => {
            ck(buf.len() == before + n, "write returned another number than it appended");
            if let Some(k) = own_size(&p) {
                ck(k == n, "size() differs from the encoded size");
                cover(2);
            }
            let b = B { p: unsafe { buf.as_ptr().add(before) }, n };
            match varint(&b, 1, n) {
                Some((rem, k)) => ck(1 + k + rem == n, "the header announces another length"),
                None => ck(false, "no remaining length in the header"),
            }
            cover(1);
        }
        Err(_) => ck(false, "a well-formed packet cannot be encoded"),
    }
}

// ---------------------------------------------------------------- C08

#[no_mangle]
pub extern "C" fn c08_wire() {
    let (mut g, s) = family(variant());
    let p = packet(&mut g, ty(), &s);
    let mut buf = BytesMut::with_capacity(BIG);
    let w = p.write(&mut buf);
    ck(w.is_ok(), "a well-formed packet cannot be encoded");
    let b = ours(&buf);
    match refp::frame(&b) {
        Some(r) => {
            ck(strict(&b, &r), "the encoding breaks MQTT 5");
            agree(&p, &r, &b);
            cover(1);
        }
        None => ck(false, "the encoding is not an MQTT 5 packet"),
    }
}

// ---------------------------------------------------------------- C09

fn conforming(pairs: u8, smax: u64, text: u8) -> W {
    let mut w = W::new(BIG);
    w.smax = smax;
    w.text = text;
    let b1 = body(&mut w, ty() as u8, pairs);
    framed(b1, &w)
}
fn frame_family() -> W {
    match variant() {
        0 => conforming(0, 65535, 254),
        1 => conforming(1, 65535, 254),
        2 => conforming(0, 4, 255),
        7 => lists(ty() as u8),
        _ => conforming(0, 40, 254),
    }
}

#[no_mangle]
pub extern "C" fn c09_read() {
    let f = frame_family();
    let b = f.b();
    let mut buf = input(f.slice());
    match Packet::read(&mut buf, None) {
        Ok(p) => {
            ck(buf.is_empty(), "decoding left bytes of the packet behind");
            match refp::frame(&b) {
                Some(r) => {
                    agree(&p, &r, &b);
                    cover(1);
                }
                None => ck(false, "reference reader refuses a conforming frame"),
            }
        }
        Err(_) => ck(false, "a conforming frame cannot be decoded"),
    }
}

// ---------------------------------------------------------------- C03

/// Any bytes of any length up to the bound, first nibble by the parameter, any size limit.
#[no_mangle]
pub extern "C" fn c03_bytes() {
    let n = range(0, bound() as u64) as usize;
    let mut buf = raw(n, bound());
    if n > 0 {
        assume((buf[0] >> 4) as u64 == ty());
    }
    let max = if variant() == 0 { None } else { Some(any_u64() as usize) };
    let r = Packet::read(&mut buf, max);
    cover(1 + r.is_ok() as u64);
}
/// One complete frame of any content with at most `bound` bytes after the fixed header.
#[no_mangle]
pub extern "C" fn c03_frame() {
    let n = bound();
    let mut buf = raw(n + 2, n + 2);
    buf[0] = (ty() as u8) << 4 | any_u8() & 15;
    buf[1] = n as u8;
    let r = Packet::read(&mut buf, None);
    cover(1 + r.is_ok() as u64);
}
#[no_mangle]
pub extern "C" fn c03_flip() {
    let f = flipped(ty() as u8, variant());
    let mut buf = input(f.slice());
    let r = Packet::read(&mut buf, None);
    cover(1 + r.is_ok() as u64);
}

// ---------------------------------------------------------------- C04

/// What the framing rules say about the first bytes of a buffer.
enum Need {
    /// at least one and at most this many more bytes
    More(usize),
    Bad,
    Frame(usize),
}
fn framing(b: &B) -> Need {
    if b.n < 2 {
        return Need::More(2 - b.n);
    }
    let mut v = 0usize;
    let mut k = 0usize;
    while k < 4 {
        if 1 + k >= b.n {
            return Need::More(1);
        }
        let x = b.at(1 + k) as usize;
        v += (x % 128) << (7 * k);
        k += 1;
        if x < 128 {
            let t = 1 + k + v;
            return if b.n < t { Need::More(t - b.n) } else { Need::Frame(t) };
        }
    }
    Need::Bad
}
fn check_framing(buf: &mut BytesMut, b: &B, alone: bool) {
    let old = unsafe { std::slice::from_raw_parts(b.p, b.n) };
    let need = framing(b);
    let r = Packet::read(buf, None);
    match need {
        Need::More(m) => {
            match &r {
                Err(Error::InsufficientBytes(k)) => {
                    ck(*k >= 1, "asks for zero more bytes");
                    ck(*k <= m, "asks for more bytes than are missing");
                }
                _ => ck(false, "an incomplete frame is not answered with a request for more bytes"),
            }
            ck(eq(buf, old), "an incomplete frame was changed");
            cover(1);
        }
        Need::Bad => {
            ck(r.is_err(), "an over-long length is accepted");
            ck(!insufficient(&r), "asks for more bytes after an impossible length");
            cover(2);
        }
        Need::Frame(t) => {
            ck(!insufficient(&r), "asks for more bytes although the frame is complete");
            ck(eq(buf, &old[t..]), "consumed something else than the frame");
            if alone {
                let mut one = BytesMut::with_capacity(t);
                one.extend_from_slice(&old[..t]);
                let r1 = Packet::read(&mut one, None);
                ck(one.is_empty(), "consumed something else than the frame");
                ck(r1 == r, "the result depends on bytes after the frame");
            }
            cover(3);
        }
    }
}
#[no_mangle]
pub extern "C" fn c04_bytes() {
    let n = range(0, bound() as u64) as usize;
    let mut buf = raw(n, bound());
    if n > 0 {
        assume((buf[0] >> 4) as u64 == ty());
    }
    let mut k = W::new(bound());
    k.put(&buf);
    check_framing(&mut buf, &k.b(), variant() == 0);
}
/// A conforming frame of which any prefix has arrived, or which other bytes follow.
#[no_mangle]
pub extern "C" fn c04_frames() {
    let mut w = W::new(BIG);
    w.smax = if variant() == 0 { 65535 } else { 40 };
    let b1 = body(&mut w, ty() as u8, 0);
    let f = framed(b1, &w);
    let mut s = W::new(BIG + 100_000);
    if choose(2) == 0 {
        let n = range(0, f.n as u64) as usize;
        s.put(&f.slice()[..n]);
    } else {
        s.put_w(&f);
        let n = range(1, 70_000) as usize;
        s.any(n, 255);
    }
    let mut buf = input(s.slice());
    check_framing(&mut buf, &s.b(), variant() != 0);
}

// ---------------------------------------------------------------- C05

/// Any header, any limit, any amount of data.
#[no_mangle]
pub extern "C" fn c05_header() {
    let cap = 80_000;
    let mut w = W::new(cap);
    w.u8((ty() as u8) << 4 | any_u8() & 15);
    let k = 1 + choose(4);
    let mut rem = 0usize;
    for i in 0..k {
        let x = any_u8();
        assume(if i + 1 == k { x < 128 } else { x >= 128 });
        rem += (x as usize % 128) << (7 * i);
        w.u8(x);
    }
    let head = w.n;
    let m = range(0, 70_000) as usize;
    // over the limit any amount may follow; below it the frame is not complete
    let max = any_u64() as usize;
    if rem <= max {
        assume(m < rem);
    }
    w.any(m, 255);
    let mut buf = input(w.slice());
    let r = Packet::read(&mut buf, Some(max));
    ck(eq(&buf, w.slice()), "the input was changed");
    if rem > max {
        ck(
            r == Err(Error::PayloadSizeLimitExceeded { pkt_size: rem, max }),
            "a frame above the limit is not refused",
        );
        cover(1);
    } else {
        match r {
            Err(Error::InsufficientBytes(x)) => ck(x >= 1 && x <= head + rem - w.n, "wrong number of missing bytes"),
            _ => ck(false, "a frame within the limit is not awaited"),
        }
        cover(2);
    }
}
/// Complete frames and cut ones: with a limit that does not exclude them nothing changes.
#[no_mangle]
pub extern "C" fn c05_frames() {
    let f = frame_family();
    let max = any_u64() as usize;
    let b = f.b();
    let (rem, k) = match varint(&b, 1, f.n) {
        Some(x) => x,
        None => return,
    };
    let n = if choose(2) == 0 { f.n } else { range(1 + k as u64, f.n as u64) as usize };
    let s = &f.slice()[..n];
    let mut b1 = input(s);
    let r1 = Packet::read(&mut b1, Some(max));
    if rem > max {
        ck(
            r1 == Err(Error::PayloadSizeLimitExceeded { pkt_size: rem, max }),
            "a frame above the limit is not refused",
        );
        ck(eq(&b1, s), "a refused frame was consumed");
        cover(1);
    } else {
        let mut b2 = input(s);
        let r2 = Packet::read(&mut b2, None);
        ck(r1 == r2, "a limit that is kept changes the result");
        ck(eq(&b1, &b2), "a limit that is kept changes what is consumed");
        cover(2);
    }
}

// ---------------------------------------------------------------- C06, C20

/// The same packet into an empty buffer and behind other data.
#[no_mangle]
pub extern "C" fn c06_append() {
    let (mut g, s) = family(if variant() < 2 { 6 } else { variant() });
    if variant() == 0 {
        g.smax = 70_000;
        g.pay = 70_000;
    }
    if variant() == 1 {
        g.hostile = true;
        g.smax = 70_000;
        g.pay = 100;
    }
    let mut one = BytesMut::with_capacity(BIG);
    let mut two = BytesMut::with_capacity(BIG + 100_000);
    let k = range(0, 70_000) as usize;
    fill(two.as_mut_ptr(), k, 255);
    unsafe { two.set_len(k) }
    let mut keep = W::new(100_000);
    keep.put(&two);
    let p = packet(&mut g, ty(), &s);
    let r1 = p.write(&mut one);
    let r2 = p.write(&mut two);
    ck(r1 == r2, "the result depends on what the buffer held");
    ck(two.len() >= k && eq(&two[..k], keep.slice()), "bytes already in the buffer changed");
    if r1.is_ok() {
        ck(eq(&two[k..], &one), "the appended bytes depend on what the buffer held");
        cover(1);
    } else {
        ck(two.len() == k, "a failed write left bytes behind");
        cover(2);
    }
}
/// Buffers in every state a queue gets into: no room, split off, shared, partly consumed.
#[no_mangle]
pub extern "C" fn c06_states() {
    let mut g = G::new(8);
    g.pay = 8;
    let s = Shape { sub: Sub::Whole, hollow: false, list: 1, empties: false, twos: false };
    let state = choose(6);
    // concrete lengths: reallocation copies
    g.empty = LEN3;
    let p = packet(&mut g, ty(), &s);
    let mut one = BytesMut::with_capacity(4096);
    let r1 = p.write(&mut one);
    let mut two = BytesMut::with_capacity(64);
    fill(two.as_mut_ptr(), 7, 255);
    unsafe { two.set_len(7) }
    let mut other = BytesMut::new();
    let mut fr = Bytes::new();
    match state {
        0 => {
            two = BytesMut::new();
        }
        1 => {}
        2 => {
            other = two.split_to(3);
        }
        3 => {
            other = two.split_off(5);
        }
        4 => {
            fr = two.split_to(4).freeze();
        }
        _ => {
            bytes::Buf::advance(&mut two, 2);
        }
    }
    let k = two.len();
    let mut keep = W::new(64);
    keep.put(&two);
    let mut keep2 = W::new(64);
    keep2.put(&other);
    keep2.put(&fr);
    let r2 = p.write(&mut two);
    ck(r1 == r2, "the result depends on the state of the buffer");
    ck(two.len() >= k && eq(&two[..k], keep.slice()), "bytes already in the buffer changed");
    ck(eq(&two[k..], &one), "the appended bytes depend on the state of the buffer");
    let mut now = W::new(64);
    now.put(&other);
    now.put(&fr);
    ck(eq(keep2.slice(), now.slice()), "bytes split off the buffer changed");
    cover(1);
}

// ---------------------------------------------------------------- C07

/// Payloads of any length: the remaining length over its whole range and beyond.
#[no_mangle]
pub extern "C" fn c07_remaining() {
    let mut g = G::new(20);
    g.pay = 300_000_000;
    g.empty = if choose(2) == 0 { NONE } else { ALL };
    let qos = choose(2);
    let topic = g.str();
    let payload = g.payload();
    let n = payload.len();
    let p = Publish {
        dup: false,
        qos: if qos == 0 { QoS::AtMostOnce } else { QoS::AtLeastOnce },
        retain: false,
        pkid: qos as u16,
        topic,
        payload,
        properties: None,
    };
    let rem = 2 + by(&p.topic).len() + 2 * qos as usize + 1 + n;
    let p = Packet::Publish(p);
    let mut buf = BytesMut::with_capacity(310_000_000);
    let w = p.write(&mut buf);
    if rem > 268_435_455 {
        ck(w.is_err(), "a packet above the maximum length is encoded");
        ck(buf.is_empty(), "a failed write left bytes behind");
        cover(1);
        return;
    }
    ck(w == Ok(1 + varint_len(rem) + rem), "wrong size or error");
    let b = ours(&buf);
    ck(varint(&b, 1, b.n) == Some((rem, varint_len(rem))), "remaining length is not exact or not minimal");
    match Packet::read(&mut buf, Some(rem)) {
        Ok(q) => ck(q == p, "the decoded packet differs from the encoded one"),
        Err(_) => ck(false, "the encoded packet cannot be decoded"),
    }
    ck(buf.is_empty(), "decoding left bytes of the packet behind");
    cover(1 + varint_len(rem) as u64);
}
/// Property sections of any length up to 131 kB (variant 0) or around two megabytes (variant 1).
#[no_mangle]
pub extern "C" fn c07_section() {
    let mut g = G::new(65535);
    let mut v = Vec::with_capacity(20);
    if variant() == 1 {
        let big = mk(vec![b'x'; 65535]);
        for _ in 0..15 {
            v.push((big.clone(), big.clone()));
        }
        let k = mk(vec![b'x'; 65500]);
        v.push((k.clone(), k));
    }
    g.empty = ANY;
    let k = g.str();
    v.push((k, g.str()));
    let p = with_users(ty(), v);
    let mut buf = BytesMut::with_capacity(BIG);
    let w = p.write(&mut buf);
    ck(w.is_ok(), "a well-formed packet cannot be encoded");
    let b = ours(&buf);
    match refp::frame(&b) {
        Some(r) => {
            ck(strict(&b, &r), "a length is not minimal");
            agree(&p, &r, &b);
        }
        None => ck(false, "a property length is wrong"),
    }
    match Packet::read(&mut buf, None) {
        Ok(q) => ck(q == p, "the decoded packet differs from the encoded one"),
        Err(_) => ck(false, "the encoded packet cannot be decoded"),
    }
    cover(1);
}
/// Any five bytes as remaining length.
#[no_mangle]
pub extern "C" fn c07_decode() {
    let mut w = W::new(16);
    w.u8((ty() as u8) << 4);
    w.any(5, 255);
    let b = w.b();
    let mut buf = input(w.slice());
    let r = Packet::read(&mut buf, Some(0));
    match varint(&b, 1, 6) {
        Some((0, _)) => cover(1),
        Some((v, k)) => {
            ck(r == Err(Error::PayloadSizeLimitExceeded { pkt_size: v, max: 0 }), "remaining length read wrongly");
            cover(1 + k as u64);
        }
        None => {
            ck(r.is_err() && !insufficient(&r), "a fifth length byte is accepted");
            let mut buf = input(w.slice());
            let r = Packet::read(&mut buf, None);
            ck(r.is_err() && !insufficient(&r), "a fifth length byte is accepted");
            cover(6);
        }
    }
}
/// Subscription identifiers: every value written, every byte sequence read.
#[no_mangle]
pub extern "C" fn c07_subid() {
    let id = any_u64() as usize;
    let pb = ty() == 3;
    let p = if pb {
        let mut q = PublishProperties::default();
        q.subscription_identifiers.push(7);
        q.subscription_identifiers.push(id);
        let mut x = Publish::default();
        x.topic = mk(vec![b't']);
        x.properties = Some(q);
        Packet::Publish(x)
    } else {
        let mut x = Subscribe::default();
        x.pkid = 1;
        x.filters.push(Filter { path: mk(vec![b't']), ..Default::default() });
        x.properties = Some(SubscribeProperties { id: Some(id), user_properties: Vec::new() });
        Packet::Subscribe(x)
    };
    let mut buf = BytesMut::with_capacity(256);
    let w = p.write(&mut buf);
    if id > 268_435_455 {
        ck(w.is_err(), "a subscription identifier beyond the range is encoded");
        ck(buf.is_empty(), "a failed write left bytes behind");
        cover(1);
        return;
    }
    ck(w.is_ok(), "a subscription identifier within the range is refused");
    let b = ours(&buf);
    match refp::frame(&b) {
        Some(r) => {
            ck(strict(&b, &r), "not minimal");
            agree(&p, &r, &b);
        }
        None => ck(false, "the encoding is not an MQTT 5 packet"),
    }
    match Packet::read(&mut buf, None) {
        Ok(q) => ck(q == p, "the decoded packet differs from the encoded one"),
        Err(_) => ck(false, "the encoded packet cannot be decoded"),
    }
    cover(1 + varint_len(id) as u64);
}
/// Frames in which a property length or subscription identifier is any four or five bytes.
#[no_mangle]
pub extern "C" fn c07_inner() {
    let t = ty() as u8;
    let mut w = W::new(64);
    let b1 = prefix(&mut w, t);
    let which = variant();
    if which == 0 {
        // property length: any bytes, then an identifier-free rest
        w.any(5, 255);
    } else {
        // section with one subscription identifier of any bytes
        w.u8(6);
        w.u8(11);
        w.any(5, 255);
        if t == 8 {
            w.put(b"\0\x01t\0");
        }
    }
    let f = framed(b1, &w);
    differential(&f);
}

// ---------------------------------------------------------------- C10

/// A reason byte of any value in a frame that is otherwise in order.
#[no_mangle]
pub extern "C" fn c10_read() {
    let t = ty() as u8;
    let c = any_u8();
    let mut w = W::new(4096);
    w.smax = 20;
    let mut b1 = t << 4;
    match t {
        2 => {
            let a = any_u8();
            assume(a < 2);
            w.u8(a);
            w.u8(c);
            some_props(&mut w, t);
        }
        14 => {
            w.u8(c);
            if choose(2) == 1 {
                some_props(&mut w, t);
            }
        }
        9 | 11 => {
            w.u16(any_u16());
            some_props(&mut w, t);
            let n = 1 + choose(3);
            let at = choose(n);
            for i in 0..n {
                w.u8(if i == at { c } else { 0 });
            }
        }
        _ => {
            w.u16(any_u16());
            w.u8(c);
            if choose(2) == 1 {
                some_props(&mut w, t);
            }
            if t == 6 {
                b1 |= 2;
            }
        }
    }
    let f = framed(b1, &w);
    let b = f.b();
    let mut buf = input(f.slice());
    match Packet::read(&mut buf, None) {
        Ok(p) => {
            ck(code_ok(t, c), "a reason code MQTT 5 does not assign is accepted");
            match refp::frame(&b) {
                Some(r) => agree(&p, &r, &b),
                None => ck(false, "reference reader refuses a conforming frame"),
            }
            cover(1);
        }
        Err(_) => {
            ck(!code_ok(t, c), "a reason code MQTT 5 assigns is refused");
            cover(2);
        }
    }
}
fn some_props(w: &mut W, t: u8) {
    match choose(3) {
        0 => w.section(&[]),
        1 => w.section(&[38]),
        _ => w.section(&allowed(t)[..1]),
    }
}
/// Each expressible reason, with and without properties.
#[no_mangle]
pub extern "C" fn c10_write() {
    let mut g = G::new(20);
    let s = Shape { sub: Sub::Single, hollow: true, list: 3, empties: false, twos: false };
    let p = packet(&mut g, ty(), &s);
    let mut buf = BytesMut::with_capacity(4096);
    let w = p.write(&mut buf);
    ck(w.is_ok(), "a well-formed packet cannot be encoded");
    let b = ours(&buf);
    match refp::frame(&b) {
        Some(r) => agree(&p, &r, &b),
        None => ck(false, "a reason code MQTT 5 does not assign is written"),
    }
    match Packet::read(&mut buf, None) {
        Ok(q) => ck(q == canon(p), "the decoded packet differs from the encoded one"),
        Err(_) => ck(false, "the encoded packet cannot be decoded"),
    }
    cover(1);
}

// ---------------------------------------------------------------- C11

/// Conforming frames but for the text in them, which is any bytes.
#[no_mangle]
pub extern "C" fn c11_text() {
    let t = ty() as u8;
    let long = variant() >= 2;
    let mut w = W::new(if long { BIG } else { 4096 });
    w.smax = bound() as u64;
    w.long = long;
    // which of the text fields holds any bytes; the others are short and fine
    w.wild = 1 + choose(30) as usize;
    w.fixed = true;
    let b1 = body(&mut w, t, if variant() & 1 == 0 { 2 } else { 0 });
    assume(w.strs >= w.wild);
    let f = framed(b1, &w);
    let b = f.b();
    let mut buf = input(f.slice());
    match Packet::read(&mut buf, None) {
        Ok(p) => {
            ck(w.valid || !TEXT, "ill-formed text is accepted");
            match refp::frame(&b) {
                Some(r) => agree(&p, &r, &b),
                None => ck(false, "reference reader refuses a conforming frame"),
            }
            cover(1);
        }
        Err(_) => {
            ck(!w.valid && TEXT, "well-formed text is refused");
            cover(2);
        }
    }
}

/// What the executor takes std::str::from_utf8 to be; native replays compare it with the real one.
#[no_mangle]
pub extern "C" fn c11_model() {
    let n = choose(bound() as u64 + 1) as usize;
    let v = raw(n, 64);
    let ok = utf8_ok(&ours(&v));
    match std::str::from_utf8(&v) {
        Ok(_) => {
            ck(ok, "from_utf8 accepts ill-formed text");
            cover(1);
        }
        Err(e) => {
            ck(!ok, "from_utf8 refuses well-formed text");
            cover(2);
            cover(10 + 8 * concrete(e.valid_up_to() as u64) + concrete(e.error_len().unwrap_or(7) as u64));
        }
    }
}

// ---------------------------------------------------------------- C12, C16, C20

/// Fields on both sides of the limit; nothing else forbidden.
#[no_mangle]
pub extern "C" fn c12_long() {
    let (mut g, s) = family(variant());
    g.smax = 70_000;
    g.pay = 70_000;
    let p = packet(&mut g, ty(), &s);
    let mut buf = BytesMut::with_capacity(BIG);
    let w = p.write(&mut buf);
    let t = too_long(&p);
    match w {
        Ok(_) => {
            ck(!t, "a field that does not fit is encoded");
            let b = ours(&buf);
            match refp::frame(&b) {
                Some(r) => agree(&p, &r, &b),
                None => ck(false, "the encoding is not an MQTT 5 packet"),
            }
            cover(1);
        }
        Err(_) => {
            ck(t, "fields that fit are refused");
            cover(2);
        }
    }
}
/// Anything the types can hold, into a buffer that holds something.
#[no_mangle]
pub extern "C" fn c16_hostile() {
    let (mut g, s) = family(variant());
    g.hostile = true;
    g.smax = 70_000;
    g.pay = 300_000_000;
    let p = packet(&mut g, ty(), &s);
    let mut buf = BytesMut::with_capacity(310_000_000);
    let k = range(0, 5) as usize;
    fill(buf.as_mut_ptr(), k, 255);
    unsafe { buf.set_len(k) }
    let w = p.write(&mut buf);
    cover(1 + w.is_ok() as u64);
}
/// As before; a refused packet leaves the buffer as it was.
#[no_mangle]
pub extern "C" fn c20_trace() {
    let (mut g, s) = family(variant());
    g.hostile = true;
    g.smax = 70_000;
    g.pay = 300_000_000;
    let p = packet(&mut g, ty(), &s);
    let mut buf = BytesMut::with_capacity(310_000_000);
    let k = range(0, 70_000) as usize;
    fill(buf.as_mut_ptr(), k, 255);
    unsafe { buf.set_len(k) }
    let mut keep = W::new(100_000);
    keep.put(&buf);
    match p.write(&mut buf) {
        Ok(_) => cover(1),
        Err(_) => {
            ck(eq(&buf, keep.slice()), "a failed write changed the buffer");
            cover(2);
        }
    }
}

// ---------------------------------------------------------------- C13

/// What precedes the property section in a frame of this type. 0 means the will properties.
fn prefix(w: &mut W, t: u8) -> u8 {
    match t {
        0 => {
            w.put(b"\0\x04MQTT\x05\x04\0\x0a\0\0\0");
            0x10
        }
        1 => {
            w.put(b"\0\x04MQTT\x05\0\0\x0a");
            0x10
        }
        2 => {
            w.put(b"\0\0");
            0x20
        }
        3 => {
            w.put(b"\0\x01t");
            0x30
        }
        4 | 5 | 7 => {
            w.put(b"\0\x01\0");
            t << 4
        }
        6 => {
            w.put(b"\0\x01\0");
            0x62
        }
        9 | 11 => {
            w.put(b"\0\x01");
            t << 4
        }
        8 | 10 => {
            w.put(b"\0\x01");
            t << 4 | 2
        }
        _ => {
            w.put(b"\0");
            0xe0
        }
    }
}
/// Accepted exactly as the reference reader understands it, or refused.
fn differential(f: &W) {
    let b = match framing(&f.b()) {
        Need::Frame(t) => B { p: f.p, n: t },
        _ => return,
    };
    let mut buf = input(f.slice());
    let r = Packet::read(&mut buf, None);
    ck(!insufficient(&r), "asks for more bytes although the frame is complete");
    match r {
        Ok(p) => {
            match refp::frame(&b) {
                Some(r) => agree(&p, &r, &b),
                None => ck(false, "a malformed frame is accepted"),
            }
            cover(1);
        }
        Err(_) => cover(2),
    }
}
/// A property section of any length byte and content, and any bytes after it.
#[no_mangle]
pub extern "C" fn c13_section() {
    let t = ty() as u8;
    let mut w = W::new(256);
    let b1 = prefix(&mut w, t);
    w.any(bound(), 255);
    let f = framed(b1, &w);
    differential(&f);
}
/// One allowed or forbidden property alone or behind another, announced length any, followed by
/// what the frame still needs.
#[no_mangle]
pub extern "C" fn c13_item() {
    let t = ty() as u8;
    let mut s = W::new(4096);
    s.smax = 4;
    let id = any_u8();
    let known = kind(id) != 0;
    if choose(2) == 1 {
        s.prop(38);
    }
    if known {
        // any property of the protocol, in turn
        let k = choose(43);
        assume(id as u64 == k);
        s.prop(k as u8);
    } else {
        s.u8(id);
        s.any(3, 255);
    }
    let mut w = W::new(8192);
    let b1 = prefix(&mut w, t);
    let n = if choose(2) == 0 {
        s.n
    } else {
        // codes that are read from the section's tail multiply
        range(if t == 9 || t == 11 { s.n as u64 - 2 } else { 0 }, 127) as usize
    };
    w.varint(n);
    w.put_w(&s);
    // rest: payload, filters, codes, client identifier, will, ...
    let rest = choose(3);
    match rest {
        0 => {}
        1 => match t {
            8 => w.put(b"\0\x01t\0"),
            10 | 1 => w.put(b"\0\x01t"),
            0 => w.put(b"\0\x01t\0\x01m"),
            _ => w.put(b"\0"),
        },
        _ => w.any(if t == 9 || t == 11 { 1 } else { 3 }, 255),
    }
    let f = framed(b1, &w);
    let a = allowed(t).contains(&id);
    let b = f.b();
    let mut buf = input(f.slice());
    let r = Packet::read(&mut buf, None);
    ck(!insufficient(&r), "asks for more bytes although the frame is complete");
    match r {
        Ok(p) => {
            ck(a || n == 0 || n < s.n, "a property that is not allowed here is accepted");
            match refp::frame(&b) {
                Some(r) => agree(&p, &r, &b),
                None => ck(false, "a malformed frame is accepted"),
            }
            cover(1);
        }
        Err(_) => cover(2),
    }
}

/// Frames with one wrong byte.
#[no_mangle]
pub extern "C" fn c13_flip() {
    let f = flipped(ty() as u8, variant());
    differential(&f);
}

// ---------------------------------------------------------------- C14

/// Publish: every flag nibble, every identifier.
#[no_mangle]
pub extern "C" fn c14_publish() {
    let fl = any_u8();
    assume(fl < 16);
    let q = fl >> 1 & 3;
    let id = any_u16();
    let mut w = W::new(BIG);
    w.smax = 300;
    w.str();
    if q != 0 {
        w.u16(id);
    }
    some_props(&mut w, 3);
    let n = range(0, 300) as usize;
    w.any(n, 255);
    let f = framed(0x30 | fl, &w);
    let b = f.b();
    let mut buf = input(f.slice());
    match Packet::read(&mut buf, None) {
        Ok(p) => {
            ck(q != 3, "QoS 3 is accepted");
            ck(q == 0 || id != 0, "packet identifier zero is accepted");
            if let Packet::Publish(x) = &p {
                ck(q != 0 || x.pkid == 0, "a QoS 0 publish has a packet identifier");
            }
            match refp::frame(&b) {
                Some(r) => agree(&p, &r, &b),
                None => ck(false, "reference reader refuses a conforming frame"),
            }
            cover(1 + concrete(q as u64));
        }
        Err(_) => {
            ck(q == 3 || q != 0 && id == 0, "a conforming publish is refused");
            cover(5);
        }
    }
}
/// Encoding a publish with any identifier.
#[no_mangle]
pub extern "C" fn c14_write() {
    let mut g = G::new(300);
    g.hostile = true;
    let s = Shape { sub: Sub::Nil, hollow: true, list: 1, empties: false, twos: false };
    let p = packet(&mut g, 3, &s);
    let mut buf = BytesMut::with_capacity(4096);
    let w = p.write(&mut buf);
    if let Packet::Publish(x) = &p {
        let bad = x.qos != QoS::AtMostOnce && x.pkid == 0;
        ck(w.is_err() == bad, "packet identifier zero is written, or another one refused");
    }
    if w.is_ok() {
        let b = ours(&buf);
        match refp::frame(&b) {
            Some(r) => agree(&p, &r, &b),
            None => ck(false, "the encoding is not an MQTT 5 packet"),
        }
        match Packet::read(&mut buf, None) {
            Ok(q) => ck(q == canon(p), "the decoded packet differs from the encoded one"),
            Err(_) => ck(false, "the encoded packet cannot be decoded"),
        }
        cover(1);
    } else {
        cover(2);
    }
}
/// Subscribe with any options bytes.
#[no_mangle]
pub extern "C" fn c14_options() {
    let mut w = W::new(BIG);
    w.smax = 300;
    w.u16(any_u16());
    some_props(&mut w, 8);
    let n = 1 + choose(3);
    let at = choose(n);
    let o = any_u8();
    for i in 0..n {
        w.str();
        w.u8(if i == at { o } else { 1 });
    }
    let f = framed(0x82, &w);
    let b = f.b();
    let mut buf = input(f.slice());
    match Packet::read(&mut buf, None) {
        Ok(p) => {
            ck(o & 3 != 3, "QoS 3 is accepted");
            match refp::frame(&b) {
                Some(r) => agree(&p, &r, &b),
                None => ck(false, "invalid subscription options are accepted"),
            }
            cover(1);
        }
        Err(_) => {
            ck(o & 3 == 3 || o & 0x30 == 0x30 || o & 0xc0 != 0, "valid subscription options are refused");
            cover(2);
        }
    }
}

// ---------------------------------------------------------------- C15

/// Any protocol name of up to six bytes, any level, any flags, then what the flags announce.
#[no_mangle]
pub extern "C" fn c15_connect() {
    let Greeting { w, mqtt, level, fl, empty, will_ok } = greeting(variant());
    let f = framed(0x10, &w);
    let b = f.b();
    let mut buf = input(f.slice());
    match Packet::read(&mut buf, None) {
        Ok(p) => {
            ck(mqtt, "another protocol name is accepted");
            ck(level == 5, "another protocol level is accepted");
            if let Packet::Connect(_, wl, l) = &p {
                ck(wl.is_some() == (fl & 4 != 0), "will not as announced by the flags");
                ck(l.is_some() || fl & 0xc0 == 0 || (empty && fl & 0x40 == 0), "login lost");
                ck(l.is_none() || fl & 0xc0 != 0, "login not announced by the flags");
            }
            match refp::frame(&b) {
                Some(r) => agree(&p, &r, &b),
                None => ck(false, "an invalid connect is accepted"),
            }
            cover(1);
        }
        Err(_) => {
            ck(!(mqtt && level == 5 && will_ok && fl & 1 == 0), "a conforming connect is refused");
            cover(2);
        }
    }
}

// ---------------------------------------------------------------- C17

fn relay(buf: &mut BytesMut) {
    if let Ok(p) = Packet::read(buf, None) {
        let mut out = BytesMut::with_capacity(BIG);
        let w = p.write(&mut out);
        ck(w.is_ok(), "an accepted packet cannot be encoded");
        match Packet::read(&mut out, None) {
            Ok(q) => ck(canon(q) == canon(p), "relaying changes the packet"),
            Err(_) => ck(false, "the relayed packet cannot be decoded"),
        }
        ck(out.is_empty(), "relaying leaves bytes behind");
        cover(1);
    } else {
        cover(2);
    }
}
#[no_mangle]
pub extern "C" fn c17_bytes() {
    let n = bound();
    let mut buf = raw(n + 2, n + 2);
    buf[0] = (ty() as u8) << 4 | any_u8() & 15;
    buf[1] = n as u8;
    relay(&mut buf);
}
/// Any property section behind the fixed fields.
#[no_mangle]
pub extern "C" fn c17_section() {
    let t = ty() as u8;
    let mut w = W::new(256);
    let b1 = prefix(&mut w, t);
    w.any(bound(), 255);
    let f = framed(b1, &w);
    let mut buf = input(f.slice());
    relay(&mut buf);
}
/// Frames with one wrong byte.
#[no_mangle]
pub extern "C" fn c17_flip() {
    let f = flipped(ty() as u8, variant());
    let mut buf = input(f.slice());
    relay(&mut buf);
}
/// Conforming frames and tolerated ones: repeated properties, bytes after the last field, lengths
/// that are not minimal, reserved bits.
#[no_mangle]
pub extern "C" fn c17_frames() {
    let t = ty() as u8;
    if variant() == 7 {
        let f = lists(t);
        let mut buf = input(f.slice());
        relay(&mut buf);
        return;
    }
    let mut w = W::new(BIG);
    w.smax = if variant() == 2 { 4 } else { 65535 };
    if variant() == 2 {
        w.text = 255;
    }
    let b1;
    if variant() == 1 && t != 12 && t != 13 {
        // the same property twice, or two different ones
        let mut s = W::new(BIG);
        let al = allowed(t);
        let i = choose(al.len() as u64) as usize;
        s.prop(al[i]);
        s.prop(al[i]);
        if choose(2) == 1 {
            s.prop(al[(i + 1) % al.len()]);
        }
        b1 = prefix(&mut w, t);
        w.varint(s.n);
        w.put_w(&s);
        match t {
            0 => w.put(b"\0\x01t\0\x01m"),
            1 => w.put(b"\0\x01c"),
            8 => w.put(b"\0\x01t\x01"),
            10 => w.put(b"\0\x01t"),
            9 | 11 => w.put(b"\0"),
            _ => {}
        }
    } else {
        b1 = body(&mut w, t, 0);
    }
    if t != 9 && t != 11 && t != 8 && t != 10 && t != 3 {
        let n = range(0, 5) as usize;
        w.any(n, 255);
    }
    let f = if choose(2) == 0 {
        framed(b1, &w)
    } else {
        let mut f = W::new(BIG);
        f.u8(b1);
        assume(w.n < 1 << 21);
        f.u8((w.n & 127) as u8 | 128);
        f.u8((w.n >> 7 & 127) as u8 | 128);
        f.u8((w.n >> 14 & 127) as u8 | 128);
        f.u8(0);
        f.put_w(&w);
        f
    };
    let mut buf = input(f.slice());
    relay(&mut buf);
}

// ---------------------------------------------------------------- C19

/// Two packets back to back, delivered in three pieces cut anywhere.
#[no_mangle]
pub extern "C" fn c19_stream() {
    // 0: families of packets, one cut; 1: two cuts, packets with all optional members, 2: without;
    // 3, 4: packets of any size, with and without optional members, cut behind one of the first eight bytes
    let (mut g, mut s) = family(if variant() == 0 { 4 } else { 6 });
    if variant() == 2 || variant() == 4 {
        s.sub = Sub::Nil;
    }
    if variant() >= 3 {
        g.smax = 65535;
        g.pay = 65535;
    }
    let t2 = param() >> 8 & 15;
    tame();
    let p1 = packet(&mut g, ty(), &s);
    let s2 = Shape { sub: Sub::Nil, hollow: false, list: 1, empties: false, twos: false };
    let p2 = packet(&mut g, t2, &s2);
    let mut out = BytesMut::with_capacity(BIG);
    ck(p1.write(&mut out).is_ok() && p2.write(&mut out).is_ok(), "a well-formed packet cannot be encoded");
    let n = out.len() as u64;
    let c1 = if variant() < 3 { range(0, n) } else { 1 + choose(8) };
    assume(c1 <= n);
    let c2 = if variant() == 1 || variant() == 2 { range(c1, n) } else { c1 };
    let mut rx = input(&out);
    let base = rx.as_ptr();
    unsafe { rx.set_len(0) }
    let mut got = 0;
    let want = [canon(p1), canon(p2)];
    let cuts = [0, c1 as usize, c2 as usize, n as usize];
    let mut i = 0;
    while i < 3 {
        // received in place where the buffer has the room, as a socket would
        let (from, to) = (cuts[i], cuts[i + 1]);
        let have = rx.len();
        if unsafe { rx.as_ptr().add(have) == base.add(from) } && rx.capacity() - have >= to - from {
            unsafe { rx.set_len(have + (to - from)) }
        } else {
            rx.extend_from_slice(&out[from..to]);
        }
        loop {
            match Packet::read(&mut rx, None) {
                Ok(p) => {
                    ck(got < 2, "more packets than were sent");
                    ck(p == want[got], "another packet than was sent");
                    got += 1;
                }
                Err(Error::InsufficientBytes(_)) => break,
                Err(_) => {
                    ck(false, "a conforming stream is refused");
                    return;
                }
            }
        }
        i += 1;
    }
    ck(got == 2 && rx.is_empty(), "packets or bytes are lost");
    cover(1);
}
/// Every byte on its own.
#[no_mangle]
pub extern "C" fn c19_bytewise() {
    let mut g = G::new(3);
    g.pay = 3;
    g.empty = LEN3;
    let s = Shape { sub: Sub::Single, hollow: false, list: 1, empties: false, twos: false };
    let s2 = Shape { sub: Sub::Nil, hollow: false, list: 1, empties: false, twos: false };
    let p1 = packet(&mut g, ty(), &s);
    let p2 = packet(&mut g, 3, &s2);
    let mut out = BytesMut::with_capacity(4096);
    ck(p1.write(&mut out).is_ok() && p2.write(&mut out).is_ok(), "a well-formed packet cannot be encoded");
    let mut rx = BytesMut::with_capacity(4096);
    let mut got = 0;
    let want = [canon(p1), canon(p2)];
    let n = out.len();
    let mut i = 0;
    while i < n {
        rx.extend_from_slice(&out[i..i + 1]);
        i += 1;
        match Packet::read(&mut rx, Some(1 << 20)) {
            Ok(p) => {
                ck(got < 2, "more packets than were sent");
                ck(p == want[got], "another packet than was sent");
                got += 1;
                ck(rx.is_empty(), "bytes are left behind");
            }
            Err(Error::InsufficientBytes(k)) => ck(k <= n - i, "asks for more than the stream has"),
            Err(_) => ck(false, "a conforming stream is refused"),
        }
    }
    ck(got == 2 && rx.is_empty(), "packets or bytes are lost");
    cover(1);
}

// ---------------------------------------------------------------- C21

/// Conforming frames whose header announces fewer bytes; the rest of the frame follows.
#[no_mangle]
pub extern "C" fn c21_cut() {
    let mut w = W::new(BIG);
    w.smax = if variant() == 1 { 4 } else { 65535 };
    let b1 = body(&mut w, ty() as u8, if variant() == 0 { 2 } else { 0 });
    let c = range(0, w.n as u64) as usize;
    assume(c < w.n || w.n == 0);
    let mut f = W::new(BIG);
    f.u8(b1);
    f.varint(c);
    let total = f.n + c;
    f.put_w(&w);
    let b = B { p: f.p, n: total };
    let mut buf = input(f.slice());
    let r = Packet::read(&mut buf, None);
    ck(!insufficient(&r), "asks for more bytes although the frame is complete");
    ck(eq(&buf, &f.slice()[total..]), "consumed something else than the frame");
    match r {
        Ok(p) => {
            match refp::frame(&b) {
                Some(r) => agree(&p, &r, &b),
                None => ck(false, "a frame too short for its fields is accepted"),
            }
            cover(1);
        }
        Err(_) => cover(2),
    }
}
/// Any short body: accepted only if complete.
#[no_mangle]
pub extern "C" fn c21_short() {
    let n = choose(bound() as u64 + 1) as usize;
    let mut f = W::new(64);
    f.u8((ty() as u8) << 4 | any_u8() & 15);
    f.u8(n as u8);
    f.any(n, 255);
    differential(&f);
}

// ---------------------------------------------------------------- C22

/// The per-type decoder a caller of `check` would use.
fn by_type(f: FixedHeader, s: &[u8]) -> Result<Packet, Error> {
    let b = input(s).freeze();
    Ok(match f.packet_type()? {
        PacketType::Connect => {
            let (c, w, l) = Connect::read(f, b)?;
            Packet::Connect(c, w, l)
        }
        PacketType::ConnAck => Packet::ConnAck(ConnAck::read(f, b)?),
        PacketType::Publish => Packet::Publish(Publish::read(f, b)?),
        PacketType::PubAck => Packet::PubAck(PubAck::read(f, b)?),
        PacketType::PubRec => Packet::PubRec(PubRec::read(f, b)?),
        PacketType::PubRel => Packet::PubRel(PubRel::read(f, b)?),
        PacketType::PubComp => Packet::PubComp(PubComp::read(f, b)?),
        PacketType::Subscribe => Packet::Subscribe(Subscribe::read(f, b)?),
        PacketType::SubAck => Packet::SubAck(SubAck::read(f, b)?),
        PacketType::Unsubscribe => Packet::Unsubscribe(Unsubscribe::read(f, b)?),
        PacketType::UnsubAck => Packet::UnsubAck(UnsubAck::read(f, b)?),
        PacketType::PingReq => Packet::PingReq(PingReq),
        PacketType::PingResp => Packet::PingResp(PingResp),
        PacketType::Disconnect => Packet::Disconnect(Disconnect::read(f, b)?),
    })
}
fn number(t: PacketType) -> u64 {
    match t {
        PacketType::Connect => 1,
        PacketType::ConnAck => 2,
        PacketType::Publish => 3,
        PacketType::PubAck => 4,
        PacketType::PubRec => 5,
        PacketType::PubRel => 6,
        PacketType::PubComp => 7,
        PacketType::Subscribe => 8,
        PacketType::SubAck => 9,
        PacketType::Unsubscribe => 10,
        PacketType::UnsubAck => 11,
        PacketType::PingReq => 12,
        PacketType::PingResp => 13,
        PacketType::Disconnect => 14,
    }
}
/// `check` and the decoder of the type against `Packet::read`.
fn separately(s: &[u8]) {
    let mut b = input(s);
    let whole = Packet::read(&mut b, None);
    match check(s.iter(), None) {
        Ok(h) => {
            let n = h.frame_length();
            ck(n >= 2 && n <= s.len(), "check reports a frame that is not there");
            ck(eq(&b, &s[n..]), "check reports another frame length than is consumed");
            match h.packet_type() {
                Ok(t) => ck(number(t) == (s[0] >> 4) as u64, "check reports another packet type"),
                Err(e) => ck(s[0] >> 4 == 0 || s[0] >> 4 == 15, if e == Error::PacketIdZero { "wrong error" } else { "a packet type is not known" }),
            }
            let part = by_type(h, &s[..n]);
            match (&whole, &part) {
                (Ok(x), Ok(y)) => {
                    ck(x == y, "the decoder of the type finds another packet");
                    cover(1);
                }
                (Err(_), Err(_)) => cover(2),
                _ => {
                    // a ping has no decoder of its own
                    ck(s[0] >> 4 == 12 || s[0] >> 4 == 13, "the decoder of the type and Packet::read disagree on a frame")
                }
            }
        }
        Err(e) => {
            ck(whole == Err(e), "check and Packet::read fail differently");
            ck(eq(&b, s), "the input was changed");
            cover(3);
        }
    }
}
/// Conforming frames.
#[no_mangle]
pub extern "C" fn c22_read() {
    let f = frame_family();
    separately(f.slice());
}
/// Conforming frames with one byte changed.
#[no_mangle]
pub extern "C" fn c22_flip() {
    let f = flipped(ty() as u8, variant());
    separately(f.slice());
}
/// Any bytes, any limit.
#[no_mangle]
pub extern "C" fn c22_check() {
    let n = range(0, bound() as u64) as usize;
    let v = raw(n, bound());
    if n > 0 {
        assume((v[0] >> 4) as u64 == ty());
    }
    let max = any_u64() as usize;
    let h = check(v.iter(), Some(max));
    let mut b = input(&v);
    let r = Packet::read(&mut b, Some(max));
    match h {
        Ok(h) => {
            ck(h.frame_length() <= n, "check reports a frame that is not there");
            ck(eq(&b, &v[h.frame_length()..]), "check reports another frame length than is consumed");
            cover(1);
        }
        Err(e) => {
            ck(r == Err(e), "check and Packet::read fail differently");
            ck(eq(&b, &v), "the input was changed");
            cover(2);
        }
    }
}
/// The encoder of the type against `Packet::write`.
#[no_mangle]
pub extern "C" fn c22_write() {
    let (mut g, s) = family(variant());
    tame();
    g.hostile = true;
    g.smax = 70_000;
    g.pay = 70_000;
    let p = packet(&mut g, ty(), &s);
    let mut one = BytesMut::with_capacity(BIG);
    let mut two = BytesMut::with_capacity(BIG);
    let r = p.write(&mut one);
    let t = match &p {
        Packet::Connect(c, w, l) => c.write(w, l, &mut two),
        Packet::ConnAck(x) => x.write(&mut two),
        Packet::Publish(x) => x.write(&mut two),
        Packet::PubAck(x) => x.write(&mut two),
        Packet::PubRec(x) => x.write(&mut two),
        Packet::PubRel(x) => x.write(&mut two),
        Packet::PubComp(x) => x.write(&mut two),
        Packet::Subscribe(x) => x.write(&mut two),
        Packet::SubAck(x) => x.write(&mut two),
        Packet::Unsubscribe(x) => x.write(&mut two),
        Packet::UnsubAck(x) => x.write(&mut two),
        Packet::PingReq(_) => PingReq::write(&mut two),
        Packet::PingResp(_) => PingResp::write(&mut two),
        Packet::Disconnect(x) => x.write(&mut two),
    };
    match (r, t) {
        (Ok(n), Ok(m)) => {
            ck(n == m, "the encoder of the type reports another count");
            ck(eq(&one, &two), "the encoder of the type writes other bytes");
            cover(1);
        }
        (Err(_), Err(_)) => cover(2),
        _ => ck(false, "the encoder of the type and Packet::write disagree on a packet"),
    }
}

// ---------------------------------------------------------------- C23

/// Constructors against struct literals.
#[no_mangle]
pub extern "C" fn c23_new() {
    let mut g = G::new(65535);
    g.empty = ANY;
    let s = Shape { sub: Sub::Single, hollow: true, list: 1, empties: false, twos: false };
    let (pkid, q) = (any_u16(), any_qos());
    macro_rules! props {
        () => {{
            let p = optional(&mut g, &s);
            (p.clone(), p)
        }};
    }
    let text = g.str();
    match ty() {
        1 => {
            let other = g.str();
            ck(
                Login::new(text.clone(), other.clone()) == Login { username: text, password: other },
                "Login::new builds something else",
            );
            ck(ConnectProperties::new() == Props::gen(&mut g, 0), "ConnectProperties::new is not empty");
        }
        2 => ck(ConnAckProperties::new() == Props::gen(&mut g, 0), "ConnAckProperties::new is not empty"),
        3 => {
            let (properties, p) = props!();
            let payload = g.payload();
            let x = Publish::new(text.clone(), q, payload.clone(), p);
            let y = Publish { dup: false, qos: q, retain: false, topic: text, pkid: 0, payload, properties };
            ck(x == y, "Publish::new builds something else");
        }
        4 => {
            let (properties, p) = props!();
            let y = PubAck { pkid, reason: PubAckReason::Success, properties };
            ck(PubAck::new(pkid, p) == y, "PubAck::new builds something else");
        }
        5 => {
            let (properties, p) = props!();
            let y = PubRec { pkid, reason: PubRecReason::Success, properties };
            ck(PubRec::new(pkid, p) == y, "PubRec::new builds something else");
        }
        6 => {
            let (properties, p) = props!();
            let y = PubRel { pkid, reason: PubRelReason::Success, properties };
            ck(PubRel::new(pkid, p) == y, "PubRel::new builds something else");
        }
        7 => {
            let (properties, p) = props!();
            let y = PubComp { pkid, reason: PubCompReason::Success, properties };
            ck(PubComp::new(pkid, p) == y, "PubComp::new builds something else");
        }
        8 => {
            let f = |path| Filter {
                path,
                qos: q,
                nolocal: false,
                preserve_retain: false,
                retain_forward_rule: RetainForwardRule::OnEverySubscribe,
            };
            ck(Filter::new(text.clone(), q) == f(text.clone()), "Filter::new builds something else");
            let (properties, p) = props!();
            if choose(2) == 0 {
                let y = Subscribe { pkid: 0, filters: vec![f(text.clone())], properties };
                ck(Subscribe::new(f(text), p) == y, "Subscribe::new builds something else");
            } else {
                let other = g.str();
                let n = choose(3);
                let mut v = Vec::new();
                if n > 0 {
                    v.push(f(text));
                }
                if n > 1 {
                    v.push(f(other));
                }
                let y = Subscribe { pkid: 0, filters: v.clone(), properties };
                ck(Subscribe::new_many(v, p) == y, "Subscribe::new_many builds something else");
            }
        }
        10 => {
            let (properties, p) = props!();
            let y = Unsubscribe { pkid: 0, filters: vec![text.clone()], properties };
            ck(Unsubscribe::new(text, p) == y, "Unsubscribe::new builds something else");
        }
        14 => {
            let r = g_disc();
            let y = Disconnect { reason_code: r, properties: None };
            ck(Disconnect::new(r) == y, "Disconnect::new builds something else");
        }
        // the small public functions
        _ => {
            let n = any_u8();
            match qos(n) {
                Some(q) => ck(q as u8 == n && n < 3, "another QoS"),
                None => ck(n >= 3, "a QoS is not known"),
            }
            ck(by(&mqtt_string_new("caf\u{e9}/\u{1f600}")) == "caf\u{e9}/\u{1f600}".as_bytes(), "mqtt_string_new changes the text");
            ck(by(&mqtt_string_new("")).is_empty(), "mqtt_string_new changes the text");
            let (k, rem) = (range(1, 4) as usize, range(0, 268_435_455) as usize);
            let h = FixedHeader::new(n, k, rem);
            ck(h.frame_length() == 1 + k + rem, "FixedHeader::frame_length is wrong");
            match h.packet_type() {
                Ok(t) => ck(number(t) == (n >> 4) as u64, "another packet type"),
                Err(e) => ck((n < 16 || n >= 240) && e == Error::InvalidPacketType(n >> 4), "a packet type is not known"),
            }
        }
    }
    cover(1);
}

// ---------------------------------------------------------------- C24

/// Decode and compare what was allocated for it with what had arrived.
fn frugal(buf: &mut BytesMut) {
    let n = buf.len() as u64;
    let before = heap();
    let r = Packet::read(buf, None);
    let used = heap() - before;
    ck(used <= 64 * n + 4096, "decoding allocates far more than has arrived");
    cover(match r {
        Ok(_) => 1,
        Err(Error::InsufficientBytes(_)) => 3,
        Err(_) => 2,
    });
}
/// Conforming frames.
#[no_mangle]
pub extern "C" fn c24_frames() {
    let f = frame_family();
    let mut b = input(f.slice());
    frugal(&mut b);
}
/// Conforming frames with one byte changed.
#[no_mangle]
pub extern "C" fn c24_flip() {
    let f = flipped(ty() as u8, variant());
    let mut b = input(f.slice());
    frugal(&mut b);
}
/// Any property length in a frame that has next to nothing in it.
#[no_mangle]
pub extern "C" fn c24_inner() {
    let t = ty() as u8;
    let mut w = W::new(64);
    let b1 = prefix(&mut w, t);
    w.any(4 + variant() as usize, 255);
    let f = framed(b1, &w);
    let mut b = input(f.slice());
    frugal(&mut b);
}
/// Any header, and any part of what it announces.
#[no_mangle]
pub extern "C" fn c24_header() {
    let mut w = W::new(80_000);
    w.u8((ty() as u8) << 4 | any_u8() & 15);
    let k = 1 + choose(4);
    let mut rem = 0usize;
    for i in 0..k {
        let x = any_u8();
        assume(if i + 1 == k { x < 128 } else { x >= 128 });
        rem += (x as usize % 128) << (7 * i);
        w.u8(x);
    }
    let m = range(0, 70_000) as usize;
    assume(m < rem);
    w.any(m, 255);
    let mut b = input(w.slice());
    frugal(&mut b);
}

// ---------------------------------------------------------------- C25

/// Some byte from `from` on is (at least) this.
fn occurs(b: &B, from: usize, x: u8, or_more: bool) -> bool {
    let mut r = false;
    for i in from..b.n {
        r |= (b.at(i) == x) | (or_more & (b.at(i) > x));
    }
    r
}
fn among(l: &[u8], x: u8) -> bool {
    let mut r = false;
    for y in l {
        r |= *y == x;
    }
    r
}
/// What a decoding error says about a complete frame is so.
fn truth(b: &B, e: &Error) {
    let t = b.at(0) >> 4;
    let (rem, k) = match varint(b, 1, b.n) {
        Some(x) => x,
        None => return,
    };
    let at = 1 + k;
    let has = |i: usize| at + i < b.n;
    match *e {
        Error::InvalidPacketType(n) => ck(n == t && (t == 0 || t == 15), "a known packet type is called invalid"),
        Error::PayloadRequired => ck(rem == 0 && t != 12 && t != 13 && t != 14, "a payload that is there is missed"),
        Error::InvalidProtocol => {
            let right = has(5) && b.u16(at) == 4 && b.at(at + 2) == b'M' && b.at(at + 3) == b'Q' && b.at(at + 4) == b'T' && b.at(at + 5) == b'T';
            ck(t == 1 && !right, "the right protocol is called invalid")
        }
        Error::InvalidProtocolLevel(l) => ck(t == 1 && has(6) && l != 5 && b.at(at + 6) == l, "another protocol level is reported"),
        Error::IncorrectPacketFormat => ck(t == 1 && has(7) && b.at(at + 7) & 4 == 0 && b.at(at + 7) & 0x38 != 0, "flags that are right are refused"),
        Error::InvalidQoS(q) => {
            let fl = b.at(0);
            let there = match t {
                1 => has(7) && b.at(at + 7) & 0x18 == 0x18,
                3 => fl & 6 == 6,
                8 => {
                    let mut r = false;
                    for i in at..b.n {
                        r |= b.at(i) & 3 == 3;
                    }
                    r
                }
                _ => false,
            };
            ck(q == 3 && there, "a QoS that is valid, or not there, is refused")
        }
        Error::InvalidRetainForwardRule(r) => {
            let mut there = false;
            for i in at..b.n {
                there |= b.at(i) & 0x30 == 0x30;
            }
            ck(t == 8 && r == 3 && there, "a retain rule that is valid, or not there, is refused")
        }
        Error::PacketIdZero => {
            let n = if has(1) { b.u16(at) as usize } else { 0 };
            let z = has(n + 3) && b.u16(at + 2 + n) == 0;
            ck(t == 3 && b.at(0) & 6 != 0 && z, "an identifier that is not zero is called zero")
        }
        Error::EmptySubscription => {
            let mut v = Vec::with_capacity(40);
            let none = match props(b, 8, at + 2, b.n, &mut v) {
                Some((q, _)) => q == b.n,
                None => false,
            };
            ck(t == 8 && none, "filters that are there are missed")
        }
        Error::InvalidPropertyType(p) => {
            let good = match t {
                1 => among(allowed(1), p) & among(allowed(0), p),
                _ => among(allowed(t), p),
            };
            ck(!good & occurs(b, at, p, false), "a property that may be there, or is not, is refused")
        }
        Error::InvalidConnectReturnCode(c) => {
            let i = match t {
                2 => 1,
                14 => 0,
                _ => 2,
            };
            ck(has(i) && (b.at(at + i) == c) & !code_ok(t, c), "another reason code is reported")
        }
        Error::InvalidSubscribeReasonCode(c) => {
            ck((t == 9 || t == 11) & !code_ok(t, c) & occurs(b, at, c, false), "another reason code is reported")
        }
        Error::TopicNotUtf8 => ck(occurs(b, at, 0x80, true), "text that is ASCII is called not UTF-8"),
        Error::BoundaryCrossed(n) => {
            let mut there = false;
            for i in at..b.n - 1 {
                there |= (b.u16(i) as usize == n) & (i + 2 + n > b.n);
            }
            ck(there, "a boundary is called crossed that is not")
        }
        Error::MalformedRemainingLength => {
            let mut there = false;
            for i in at..b.n {
                there |= i + 3 < b.n && b.at(i) & b.at(i + 1) & b.at(i + 2) & b.at(i + 3) & 0x80 != 0;
            }
            ck(there, "a length that is right is called malformed")
        }
        Error::InsufficientBytes(_) => ck(false, "bytes are asked for although the frame is complete"),
        Error::PayloadSizeLimitExceeded { .. } => ck(false, "a limit that was not set is exceeded"),
        Error::PayloadTooLong | Error::BinaryDataTooLong => ck(false, "an encoding error when decoding"),
        _ => {}
    }
}
/// No two properties of a kind that must not be repeated.
fn single(v: &[Item], t: u8) -> bool {
    let mut r = true;
    for i in 0..v.len() {
        for j in 0..i {
            r &= v[i].id != v[j].id || v[i].id == 38 || (v[i].id == 11 && t == 3);
        }
    }
    r
}
/// Refused: the error is true, and what MQTT 5 allows is not refused.
fn refusal(f: &W) {
    let b = match framing(&f.b()) {
        Need::Frame(t) => B { p: f.p, n: t },
        Need::Bad => {
            let mut buf = input(f.slice());
            ck(Packet::read(&mut buf, None) == Err(Error::MalformedRemainingLength), "a malformed length is not reported");
            return;
        }
        _ => return,
    };
    let mut buf = input(f.slice());
    match Packet::read(&mut buf, None) {
        Ok(_) => cover(1),
        Err(e) => {
            truth(&b, &e);
            cover(2);
        }
    }
}
/// Conforming frames with one byte changed.
#[no_mangle]
pub extern "C" fn c25_flip() {
    let f = flipped(ty() as u8, variant());
    refusal(&f);
}
/// Any short body.
#[no_mangle]
pub extern "C" fn c25_short() {
    let n = choose(bound() as u64 + 1) as usize;
    let mut f = W::new(64);
    f.u8((ty() as u8) << 4 | any_u8() & 15);
    f.u8(n as u8);
    f.any(n, 255);
    refusal(&f);
}
/// Anything in front of and in a property section.
#[no_mangle]
pub extern "C" fn c25_section() {
    let t = ty() as u8;
    let mut w = W::new(256);
    let b1 = prefix(&mut w, t);
    w.any(bound(), 255);
    let f = framed(b1, &w);
    refusal(&f);
}
/// Connects of any name, level and flags: only those can be wrong.
#[no_mangle]
pub extern "C" fn c25_connect() {
    let Greeting { w, .. } = greeting(variant());
    let f = framed(0x10, &w);
    let b = f.b();
    let mut buf = input(f.slice());
    match Packet::read(&mut buf, None) {
        Ok(_) => cover(1),
        Err(e) => {
            match e {
                Error::InvalidProtocol | Error::InvalidProtocolLevel(_) | Error::IncorrectPacketFormat | Error::InvalidQoS(3) => truth(&b, &e),
                // a reserved flag
                _ => ck(b.at(b.n - w.n + 2 + b.u16(b.n - w.n) as usize + 1) & 1 != 0, "the error does not name what is wrong with the connect"),
            }
            cover(2);
        }
    }
}
/// What an encoding error says about the packet is so.
#[no_mangle]
pub extern "C" fn c25_write() {
    let (mut g, s) = family(variant());
    g.hostile = true;
    g.smax = 70_000;
    g.pay = 300_000_000;
    let p = packet(&mut g, ty(), &s);
    let mut buf = BytesMut::with_capacity(310_000_000);
    match p.write(&mut buf) {
        Ok(_) => cover(1),
        Err(e) => {
            match e {
                Error::BinaryDataTooLong => ck(too_long(&p), "fields that fit are called too long"),
                Error::PayloadTooLong => {
                    let id = |x: usize| x > 268_435_455;
                    let big = match &p {
                        Packet::Publish(x) => {
                            let many = match &x.properties {
                                Some(q) => q.subscription_identifiers.iter().any(|i| id(*i)),
                                None => false,
                            };
                            x.payload.len() > 267_000_000 || many
                        }
                        Packet::Subscribe(x) => match &x.properties {
                            Some(q) => q.id.map_or(false, id),
                            None => false,
                        },
                        _ => false,
                    };
                    ck(big, "what fits is called too long")
                }
                Error::PacketIdZero => match &p {
                    Packet::Publish(x) => ck(x.qos != QoS::AtMostOnce && x.pkid == 0, "an identifier that is not zero is called zero"),
                    _ => ck(false, "an identifier that is not zero is called zero"),
                },
                Error::InvalidConnectReturnCode(n) => {
                    let m = match &p {
                        Packet::ConnAck(x) => match x.code {
                            ConnectReturnCode::RefusedProtocolVersion => 1,
                            ConnectReturnCode::BadClientId => 2,
                            ConnectReturnCode::ServiceUnavailable => 3,
                            _ => 0,
                        },
                        _ => 0,
                    };
                    ck(m != 0 && m == n, "a return code MQTT 5 has is called invalid")
                }
                Error::InsufficientBytes(_) | Error::TopicNotUtf8 | Error::BoundaryCrossed(_) | Error::MalformedRemainingLength
                | Error::PayloadSizeLimitExceeded { .. } => ck(false, "a decoding error when encoding"),
                _ => {}
            }
            cover(2);
        }
    }
}

// ---------------------------------------------------------------- C09 again

/// Refused only if MQTT 5 does not allow it.
fn welcome(f: &W) {
    let b = match framing(&f.b()) {
        Need::Frame(t) => B { p: f.p, n: t },
        _ => return,
    };
    let mut buf = input(f.slice());
    match Packet::read(&mut buf, None) {
        Ok(_) => cover(1),
        Err(_) => {
            if let Some(r) = refp::frame(&b) {
                // fewer than 24 bytes each
                let mut text = true;
                let mut long = false;
                let mut utf8 = |o: usize, n: usize| {
                    let n = concrete(n as u64) as usize;
                    if n > 23 {
                        long = true;
                    } else {
                        text &= utf8_ok(&B { p: unsafe { b.p.add(o) }, n });
                    }
                };
                for i in r.p1.iter().chain(r.p2.iter()) {
                    if kind(i.id) == 6 || kind(i.id) == 8 {
                        utf8(i.off, i.len);
                    }
                    if kind(i.id) == 8 {
                        utf8(i.off2, i.len2);
                    }
                }
                let will = r.ty == 1 && r.a & 4 != 0;
                for i in 0..r.s.len() {
                    if !(will && i == 2) {
                        utf8(r.s[i].0, r.s[i].1);
                    }
                }
                let one = match r.ty {
                    1 => single(&r.p1, 1) & single(&r.p2, 0),
                    t => single(&r.p1, t),
                };
                let some = r.ty != 10 || !r.s.is_empty();
                ck(long || !(strict(&b, &r) && one && some && text), "a conforming frame cannot be decoded");
            }
            cover(2);
        }
    }
}
/// Conforming frames with one byte changed.
#[no_mangle]
pub extern "C" fn c09_flip() {
    let f = flipped(ty() as u8, variant());
    welcome(&f);
}
/// Any short body.
#[no_mangle]
pub extern "C" fn c09_short() {
    let n = choose(bound() as u64 + 1) as usize;
    let mut f = W::new(64);
    f.u8((ty() as u8) << 4 | any_u8() & 15);
    f.u8(n as u8);
    f.any(n, 255);
    welcome(&f);
}

macro_rules! jobs {
    ($($n:ident),* $(,)?) => {
        pub const JOBS: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n)),*];
    };
}
jobs!(
    c01_roundtrip, c02_sizes, c08_wire, c09_read, c03_bytes, c03_frame, c03_flip, c04_bytes, c04_frames,
    c05_header, c05_frames, c06_append, c06_states, c07_remaining, c07_section, c07_decode, c07_subid, c07_inner,
    c10_read, c10_write, c11_text, c11_model, c12_long, c16_hostile, c20_trace, c13_section, c13_item, c14_publish, c14_write,
    c14_options, c15_connect, c17_bytes, c17_section, c17_frames, c17_flip, c13_flip, c19_stream, c19_bytewise, c21_cut,
    c21_short, c22_read, c22_flip, c22_check, c22_write, c23_new, c24_frames, c24_flip, c24_inner, c24_header,
    c25_flip, c25_short, c25_section, c25_connect, c25_write, c09_flip, c09_short,
);
