//! The same packet and the same frame under two configurations.
use crate::api::*;
use crate::frames::*;
use crate::refp;
use crate::refp::B;
use crate::{a, b};
use bytes::BytesMut;

const BIG: usize = 8 << 20;
const TEXT: bool = b::strs::TEXT;

fn ty() -> u64 {
    param() & 15
}
fn variant() -> u64 {
    param() >> 4 & 15
}
fn bound() -> usize {
    (param() >> 8) as usize
}
fn input(s: &[u8]) -> BytesMut {
    let mut b = BytesMut::with_capacity(s.len());
    b.extend_from_slice(s);
    b
}
fn eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && bytes_eq(a.as_ptr(), b.as_ptr(), a.len())
}
fn same(x: &a::mq::Packet, y: &b::mq::Packet) {
    let (x, y) = (a::model::flat(x), b::model::flat(y));
    ck(x.len() == y.len(), "the configurations decode to packets of different shape");
    let mut i = 0;
    while i < x.len() && i < y.len() {
        match (&x[i], &y[i]) {
            (a::model::Atom::N(x), b::model::Atom::N(y)) => ck(x == y, "the configurations decode to different values"),
            (a::model::Atom::S(p, n), b::model::Atom::S(q, m)) => {
                ck(n == m && bytes_eq(*p, *q, *n), "the configurations decode to different content")
            }
            _ => ck(false, "the configurations decode to packets of different shape"),
        }
        i += 1;
    }
}

macro_rules! family {
    ($m:ident) => {{
        let mut g = $m::model::G::new(65535);
        let mut s = $m::model::Shape { sub: $m::model::Sub::Single, hollow: true, list: 2, empties: true, twos: false };
        if variant() < 4 {
            $m::model::tame();
        }
        match variant() & 7 {
            0 => {}
            4 => s = $m::model::Shape { sub: $m::model::Sub::Nil, hollow: true, list: 2, empties: true, twos: false },
            5 => {
                g.many = 2;
                s = $m::model::Shape { sub: $m::model::Sub::Single, hollow: true, list: 3, empties: false, twos: false };
            }
            7 => {
                g.smax = 1;
                g.pay = 1;
                g.empty = $m::model::LEN1;
                g.lots = refp::LOTS[choose(refp::LOTS.len() as u64) as usize];
                g.many = g.lots;
                $m::model::cycle();
                s = $m::model::Shape { sub: $m::model::Sub::Ends, hollow: false, list: 1, empties: false, twos: false };
            }
            1 => s = $m::model::Shape { sub: $m::model::Sub::Pairs, hollow: false, list: 1, empties: false, twos: false },
            2 => {
                g.hostile = true;
                g.smax = 70_000;
                g.pay = 70_000;
                s = $m::model::Shape { sub: $m::model::Sub::Single, hollow: false, list: 1, empties: false, twos: false };
            }
            _ => {
                g.smax = 40;
                g.pay = 40;
                s = $m::model::Shape { sub: $m::model::Sub::Full, hollow: false, list: 1, empties: false, twos: false };
            }
        }
        $m::model::packet(&mut g, ty(), &s)
    }};
}

/// The same packet, built in both.
#[no_mangle]
pub extern "C" fn c18_write() {
    record();
    let x = family!(a);
    play();
    let y = family!(b);
    plain();
    let mut one = BytesMut::with_capacity(BIG);
    let mut two = BytesMut::with_capacity(BIG);
    let (r, s) = (x.write(&mut one), y.write(&mut two));
    ck(r.is_ok() == s.is_ok(), "one configuration encodes what the other refuses");
    ck(eq(&one, &two), "the configurations encode to different bytes");
    cover(1 + r.is_ok() as u64);
}

/// Decode the same bytes in both. `ok`: all text is well-formed.
fn both(s: &[u8], ok: bool) {
    let (mut one, mut two) = (input(s), input(s));
    let (r, t) = (a::mq::Packet::read(&mut one, None), b::mq::Packet::read(&mut two, None));
    match (&r, &t) {
        (Ok(x), Ok(y)) => {
            same(x, y);
            ck(one.len() == two.len(), "the configurations consume different amounts");
            cover(1);
        }
        (Err(_), Err(_)) => cover(2),
        (Ok(_), Err(_)) => ck(false, "a frame the default configuration accepts is refused"),
        (Err(_), Ok(_)) => {
            ck(!TEXT && !ok, "a frame the default configuration refuses is accepted");
            cover(3);
        }
    }
}

/// Conforming frames.
#[no_mangle]
pub extern "C" fn c18_read() {
    if variant() == 7 {
        both(lists(ty() as u8).slice(), true);
        return;
    }
    let mut w = W::new(BIG);
    match variant() {
        2 => {
            w.text = 255;
            w.smax = 4;
        }
        3 => w.smax = 40,
        _ => {}
    }
    let b1 = body(&mut w, ty() as u8, if variant() == 1 { 1 } else { 0 });
    let f = framed(b1, &w);
    both(f.slice(), true);
}
/// Conforming frames but for one text field of any bytes.
#[no_mangle]
pub extern "C" fn c18_text() {
    let long = variant() >= 2;
    let mut w = W::new(if long { BIG } else { 4096 });
    w.smax = bound() as u64;
    w.long = long;
    w.wild = 1 + choose(30) as usize;
    w.fixed = true;
    let b1 = body(&mut w, ty() as u8, if variant() & 1 == 0 { 2 } else { 0 });
    assume(w.strs >= w.wild);
    let f = framed(b1, &w);
    both(f.slice(), w.valid);
}
fn ascii(b: &B) -> bool {
    let mut a = true;
    let mut i = 0;
    while i < b.n {
        a &= b.at(i) < 128;
        i += 1;
    }
    a
}
/// Conforming frames one byte of which is replaced.
#[no_mangle]
pub extern "C" fn c18_flip() {
    let f = flipped(ty() as u8, variant());
    both(f.slice(), ascii(&f.b()));
}
/// Connects with any name, level and flags.
#[no_mangle]
pub extern "C" fn c18_connect() {
    let g = greeting(variant());
    let f = framed(0x10, &g.w);
    both(f.slice(), true);
}
/// Complete frames of that many bytes of anything.
#[no_mangle]
pub extern "C" fn c18_bytes() {
    let n = bound();
    let mut v = Vec::with_capacity(n + 2);
    v.push((ty() as u8) << 4 | any_u8() & 15);
    v.push(n as u8);
    fill(unsafe { v.as_mut_ptr().add(2) }, n, 255);
    unsafe { v.set_len(n + 2) };
    // what the binary configuration accepts beyond the others has ill-formed text in it
    let b = B { p: unsafe { v.as_ptr().add(2) }, n };
    both(&v, ascii(&b));
}

pub type Job = (&'static str, extern "C" fn());
pub static JOBS: &[Job] = &[("c18_write", c18_write), ("c18_read", c18_read), ("c18_text", c18_text), ("c18_bytes", c18_bytes),
    ("c18_flip", c18_flip), ("c18_connect", c18_connect)];
