//! Hash-consed bit-vector terms with interval information, path-sensitive
//! simplification, and concrete evaluation under a model.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut v = 0u64;
            for (i, x) in c.iter().enumerate() {
                v |= (*x as u64) << (8 * i);
            }
            self.write_u64(v);
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u16(&mut self, v: u16) {
        self.write_u64(v as u64)
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64);
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct E(pub u32);

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Const(u128),
    Var(u32),
    /// array read: array id, 64-bit index, 8-bit result
    Sel(u32, E),
    /// const + sum(coef * term), modulo 2^w
    Lin(u128, Rc<[(E, u128)]>),
    /// concatenation, most significant piece first
    Cat(Rc<[E]>),
    Ext(E, u16, u16),
    SExt(E),
    And(E, E),
    Or(E, E),
    Xor(E, E),
    Shl(E, E),
    LShr(E, E),
    AShr(E, E),
    Mul(E, E),
    UDiv(E, E),
    URem(E, E),
    SDiv(E, E),
    SRem(E, E),
    Ite(E, E, E),
    Eq(E, E),
    Ult(E, E),
}

pub struct Node {
    pub k: K,
    pub w: u16,
    pub lo: u128,
    pub hi: u128,
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub w: u16,
}
#[derive(Clone, Debug)]
pub struct ArrInfo {
    pub name: String,
    pub max: u8,
    /// the first so many bytes together are well-formed UTF-8
    pub text: Option<E>,
    /// text but for the byte at this index, which is 0xff; the other bytes are those of that array
    pub spoilt: Option<(E, u32)>,
}

/// Facts valid on the current path.
#[derive(Clone, Default)]
pub struct Facts {
    pub rng: FxMap<E, (u128, u128)>,
    pub cond: FxMap<E, bool>,
    /// linear forms known to be >= 0
    pub rel: Vec<Form>,
    /// atoms known to equal a linear form over other atoms
    pub sub: FxMap<E, Form>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Form {
    pub c: i128,
    pub t: Vec<(E, i128)>,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: FxMap<(K, u16), E>,
    pub vars: Vec<VarInfo>,
    pub arrs: Vec<ArrInfo>,
    pub facts: *const Facts,
}

static mut CTX: *mut Ctx = std::ptr::null_mut();

const NODES_MAX: usize = 40 << 20;

pub fn init() {
    unsafe {
        CTX = Box::into_raw(Box::new(Ctx {
            // never reallocated: references into it are handed out
            nodes: Vec::with_capacity(NODES_MAX),
            map: Default::default(),
            vars: Vec::with_capacity(1 << 20),
            arrs: Vec::with_capacity(1 << 20),
            facts: Box::into_raw(Box::new(Facts::default())),
        }));
    }
}
#[inline(always)]
pub fn cx() -> &'static mut Ctx {
    unsafe { &mut *CTX }
}
#[inline(always)]
pub fn set_facts(f: *const Facts) {
    cx().facts = f;
}
#[inline(always)]
pub fn facts() -> &'static Facts {
    unsafe { &*cx().facts }
}

#[inline(always)]
pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline(always)]
pub fn w(e: E) -> u16 {
    cx().nodes[e.0 as usize].w
}
#[inline(always)]
pub fn kind(e: E) -> &'static K {
    &cx().nodes[e.0 as usize].k
}
#[inline(always)]
pub fn cval(e: E) -> Option<u128> {
    match kind(e) {
        K::Const(v) => Some(*v),
        _ => None,
    }
}
pub fn is_true(e: E) -> bool {
    cval(e) == Some(1)
}
pub fn is_false(e: E) -> bool {
    cval(e) == Some(0)
}
pub fn sgn(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}
fn bitlen(v: u128) -> u16 {
    (128 - v.leading_zeros()) as u16
}

fn intern(k: K, w: u16, lo: u128, hi: u128) -> E {
    let c = cx();
    if let Some(e) = c.map.get(&(k.clone(), w)) {
        return *e;
    }
    let e = E(c.nodes.len() as u32);
    assert!(c.nodes.len() < NODES_MAX, "too many terms");
    c.nodes.push(Node { k: k.clone(), w, lo, hi });
    c.map.insert((k, w), e);
    e
}

pub fn con(v: u128, w: u16) -> E {
    assert!(w > 0 && w <= 128, "width {w}");
    let v = v & mask(w);
    intern(K::Const(v), w, v, v)
}
pub fn c64(v: u64) -> E {
    con(v as u128, 64)
}
pub fn tru() -> E {
    con(1, 1)
}
pub fn fls() -> E {
    con(0, 1)
}
pub fn boolc(b: bool) -> E {
    con(b as u128, 1)
}

pub fn var(name: &str, w: u16) -> E {
    let id = cx().vars.len() as u32;
    assert!(cx().vars.len() < 1 << 20);
    cx().vars.push(VarInfo { name: name.to_string(), w });
    intern(K::Var(id), w, 0, mask(w))
}
pub fn array(name: &str, max: u8) -> u32 {
    let id = cx().arrs.len() as u32;
    assert!(cx().arrs.len() < 1 << 20);
    cx().arrs.push(ArrInfo { name: name.to_string(), max, text: None, spoilt: None });
    id
}
pub fn sel(a: u32, idx: E) -> E {
    if let Some((pos, of)) = cx().arrs[a as usize].spoilt {
        return ite(eq(idx, pos), con(0xff, 8), sel(of, idx));
    }
    let m = cx().arrs[a as usize].max;
    let e = intern(K::Sel(a, idx), 8, 0, m as u128);
    norm(e)
}

/// Replace by a constant when the path fixes the value.
fn norm(e: E) -> E {
    if !facts().rng.is_empty() {
        if let Some((l, h)) = facts().rng.get(&e) {
            if l == h {
                return con(*l, w(e));
            }
        }
    }
    e
}

// ---------------------------------------------------------------- intervals

/// Path-sensitive unsigned interval.
pub fn rng(e: E) -> (u128, u128) {
    rng_d(e, 0)
}
fn rng_d(e: E, d: u32) -> (u128, u128) {
    let n = &cx().nodes[e.0 as usize];
    let (mut lo, mut hi) = (n.lo, n.hi);
    if lo == hi || d > 6 {
        return (lo, hi);
    }
    if n.w == 1 {
        if let Some(v) = known(e) {
            return (v as u128, v as u128);
        }
    }
    if let Some((l, h)) = facts().rng.get(&e) {
        lo = lo.max(*l);
        hi = hi.min(*h);
    }
    match &n.k {
        K::Lin(..) if n.w <= 64 => {
            let (c, t) = lin_parts(e);
            let mut f = Form { c: sgn(c, n.w), t: vec![] };
            // integer reading with signed coefficients
            for (x, k) in t.iter() {
                f.t.push((*x, sgn(*k, n.w)));
            }
            let (l, h) = form_rng_d(&f, d + 1);
            if l >= 0 && h <= mask(n.w) as i128 {
                lo = lo.max(l as u128);
                hi = hi.min(h as u128);
            }
        }
        K::Cat(p) => {
            if let Some(0) = cval(p[0]) {
                if p.len() == 2 {
                    let (l, h) = rng_d(p[1], d + 1);
                    lo = lo.max(l);
                    hi = hi.min(h);
                } else if p.len() <= 6 {
                    let (mut l, mut h) = (0u128, 0u128);
                    for x in p.iter() {
                        let (a, b) = rng_d(*x, d + 2);
                        l = (l << w(*x)) | a;
                        h = (h << w(*x)) | b;
                    }
                    lo = lo.max(l);
                    hi = hi.min(h);
                }
            } else if p.len() == 2 {
                let (a, b) = rng_d(p[0], d + 2);
                let (c, dd) = rng_d(p[1], d + 2);
                let s = w(p[1]);
                lo = lo.max((a << s) | c);
                hi = hi.min((b << s) | dd);
            }
        }
        K::Ext(x, h, l) => {
            let (a, b) = rng_d(*x, d + 1);
            if b <= mask(h + 1) {
                lo = lo.max(a >> l);
                hi = hi.min(b >> l);
            }
        }
        K::Ite(_, a, b) => {
            let (l1, h1) = rng_d(*a, d + 2);
            let (l2, h2) = rng_d(*b, d + 2);
            lo = lo.max(l1.min(l2));
            hi = hi.min(h1.max(h2));
        }
        K::UDiv(a, b) => {
            if let Some(c) = cval(*b) {
                if c > 0 {
                    let (l, h) = rng_d(*a, d + 1);
                    lo = lo.max(l / c);
                    hi = hi.min(h / c);
                }
            }
        }
        _ => {}
    }
    if lo > hi {
        // contradictory facts: an infeasible path; keep it harmless
        return (hi, hi);
    }
    (lo, hi)
}

fn lin_parts(e: E) -> (u128, Rc<[(E, u128)]>) {
    match kind(e) {
        K::Const(v) => (*v, Rc::from(vec![])),
        K::Lin(c, t) => (*c, t.clone()),
        _ => (0, Rc::from(vec![(e, 1u128)])),
    }
}

// ------------------------------------------------------------------- forms

pub fn form_rng(f: &Form) -> (i128, i128) {
    form_rng_d(f, 0)
}
fn form_rng_d(f: &Form, d: u32) -> (i128, i128) {
    let (mut l, mut h) = (f.c, f.c);
    for (x, k) in &f.t {
        let (a, b) = rng_d(*x, d + 1);
        let b = b.min(1u128 << 100) as i128;
        let a = a.min(1u128 << 100) as i128;
        let (p, q) = match (a.checked_mul(*k), b.checked_mul(*k)) {
            (Some(p), Some(q)) => (p, q),
            _ => return (i128::MIN / 4, i128::MAX / 4),
        };
        l = l.saturating_add(p.min(q));
        h = h.saturating_add(p.max(q));
    }
    (l, h)
}
pub fn form_add(f: &mut Form, g: &Form, k: i128) {
    f.c = f.c.wrapping_add(g.c.wrapping_mul(k));
    for (x, c) in &g.t {
        let c = c.wrapping_mul(k);
        if let Some(p) = f.t.iter_mut().find(|p| p.0 == *x) {
            p.1 = p.1.wrapping_add(c);
        } else {
            f.t.push((*x, c));
        }
    }
    f.t.retain(|p| p.1 != 0);
}

/// The value of e as an exact integer linear form over atoms.
pub fn form(e: E) -> Form {
    form_d(e, 0)
}
fn atom(e: E) -> Form {
    if !facts().sub.is_empty() {
        if let Some(f) = facts().sub.get(&e) {
            return f.clone();
        }
    }
    Form { c: 0, t: vec![(e, 1)] }
}
fn form_d(e: E, d: u32) -> Form {
    let wd = w(e);
    if wd > 64 || d > 8 {
        return atom(e);
    }
    let (l, h) = rng_d(e, 2);
    if l == h {
        return Form { c: l as i128, t: vec![] };
    }
    match kind(e) {
        K::Const(v) => Form { c: *v as i128, t: vec![] },
        K::Cat(p) => {
            let mut f = Form { c: 0, t: vec![] };
            let n = p.len();
            if n > 2 && !(n == 3 && cval(p[0]).is_some()) {
                return atom(e);
            }
            let mut sh = 0;
            for x in p.iter().rev() {
                let g = form_d(*x, d + 1);
                form_add(&mut f, &g, 1i128 << sh);
                sh += w(*x);
            }
            f
        }
        K::Ext(x, h, 0) => {
            if rng(*x).1 <= mask(h + 1) {
                return form_d(*x, d + 1);
            }
            if facts().rel.is_empty() || w(*x) > 64 || !matches!(kind(*x), K::Lin(..)) {
                return atom(e);
            }
            let f = form_d(*x, d + 1);
            let mut g = Form { c: mask(h + 1) as i128, t: vec![] };
            form_add(&mut g, &f, -1);
            if nonneg(&g) && nonneg(&f) {
                f
            } else {
                atom(e)
            }
        }
        K::Lin(c, t) => {
            let mut f = Form { c: sgn(*c, wd), t: vec![] };
            for (x, k) in t.iter() {
                let g = form_d(*x, d + 1);
                form_add(&mut f, &g, sgn(*k, wd));
            }
            let (l, h) = form_rng(&f);
            if l >= 0 && h <= mask(wd) as i128 {
                return f;
            }
            let m = mask(wd) as i128;
            if (l >= 0 || nonneg(&f)) && (h <= m || {
                let mut g = Form { c: m, t: vec![] };
                form_add(&mut g, &f, -1);
                nonneg(&g)
            }) {
                return f;
            }
            // a wrapped constant such as 2^64-k is read as -k above; retry as positive
            if sgn(*c, wd) < 0 {
                f.c = f.c.wrapping_add(m + 1);
                let (l, h) = form_rng(&f);
                if l >= 0 && h <= m {
                    return f;
                }
            }
            atom(e)
        }
        _ => atom(e),
    }
}
pub fn nonneg(f: &Form) -> bool {
    if form_rng(f).0 >= 0 {
        return true;
    }
    if f.t.is_empty() {
        return false;
    }
    let rel = &facts().rel;
    for r in rel.iter().rev() {
        let mut g = f.clone();
        // subtract the known non-negative form
        if !r.t.iter().any(|x| f.t.iter().any(|y| y.0 == x.0)) {
            continue;
        }
        form_add(&mut g, r, -1);
        if form_rng(&g).0 >= 0 {
            return true;
        }
        if g.t.len() < f.t.len() || g.t.len() <= 3 {
            for r2 in rel.iter().rev() {
                if !r2.t.iter().any(|x| g.t.iter().any(|y| y.0 == x.0)) {
                    continue;
                }
                let mut g2 = g.clone();
                form_add(&mut g2, r2, -1);
                if form_rng(&g2).0 >= 0 {
                    return true;
                }
            }
        }
    }
    false
}

// ---------------------------------------------------------------- builders

fn mk_lin(wd: u16, c: u128, mut t: Vec<(E, u128)>) -> E {
    let m = mask(wd);
    let c = c & m;
    t.retain(|x| x.1 & m != 0);
    if t.is_empty() {
        return con(c, wd);
    }
    if c == 0 && t.len() == 1 && t[0].1 == 1 {
        return t[0].0;
    }
    t.sort();
    // static interval
    let (mut l, mut h) = (sgn(c, wd), sgn(c, wd));
    let mut ok = wd <= 64;
    if ok {
        for (x, k) in &t {
            let n = &cx().nodes[x.0 as usize];
            let k = sgn(*k, wd);
            let (a, b) = (n.lo as i128, n.hi as i128);
            match (a.checked_mul(k), b.checked_mul(k)) {
                (Some(p), Some(q)) => {
                    l = l.saturating_add(p.min(q));
                    h = h.saturating_add(p.max(q));
                }
                _ => {
                    ok = false;
                    break;
                }
            }
        }
        if ok && l < 0 {
            // constants like 2^64-k read as unsigned
            l += m as i128 + 1;
            h += m as i128 + 1;
            if sgn(c, wd) >= 0 || l < 0 {
                ok = false;
            }
        }
    }
    let (lo, hi) = if ok && l >= 0 && h <= m as i128 { (l as u128, h as u128) } else { (0, m) };
    intern(K::Lin(c, Rc::from(t)), wd, lo, hi)
}

fn zmask(e: E) -> u128 {
    // bits that may be one
    match kind(e) {
        K::Const(v) => *v,
        K::Cat(p) => {
            let mut m = 0u128;
            for x in p.iter() {
                m = (m << w(*x)) | zmask(*x);
            }
            m
        }
        _ => {
            let (_, h) = rng(e);
            mask(bitlen(h))
        }
    }
}

pub fn add(a: E, b: E) -> E {
    let wd = w(a);
    debug_assert_eq!(wd, w(b));
    match (cval(a), cval(b)) {
        (Some(x), Some(y)) => return con(x.wrapping_add(y), wd),
        (Some(0), _) => return b,
        (_, Some(0)) => return a,
        _ => {}
    }
    if wd == 1 {
        return xor(a, b);
    }
    if cval(a).is_none() && cval(b).is_none() {
        let shifted = |e: E| match kind(e) {
            K::Cat(p) => matches!(kind(p[p.len() - 1]), K::Const(0)),
            _ => false,
        };
        if (shifted(a) || shifted(b)) && zmask(a) & zmask(b) == 0 {
            return or(a, b);
        }
    }
    if let Some(e) = ite_bin(a, b, add) {
        return e;
    }
    let (c1, t1) = lin_parts(a);
    let (c2, t2) = lin_parts(b);
    let mut t: Vec<(E, u128)> = t1.to_vec();
    for (x, k) in t2.iter() {
        if let Some(p) = t.iter_mut().find(|p| p.0 == *x) {
            p.1 = p.1.wrapping_add(*k) & mask(wd);
        } else {
            t.push((*x, *k));
        }
    }
    mk_lin(wd, c1.wrapping_add(c2), t)
}
pub fn neg(a: E) -> E {
    mulc(a, mask(w(a)))
}
pub fn sub(a: E, b: E) -> E {
    let wd = w(a);
    if a == b {
        return con(0, wd);
    }
    if wd == 1 {
        return xor(a, b);
    }
    if let (Some(x), Some(y)) = (cval(a), cval(b)) {
        return con(x.wrapping_sub(y), wd);
    }
    if let Some(e) = ite_bin(a, b, sub) {
        return e;
    }
    let nb = neg(b);
    let (c1, t1) = lin_parts(a);
    let (c2, t2) = lin_parts(nb);
    let mut t: Vec<(E, u128)> = t1.to_vec();
    for (x, k) in t2.iter() {
        if let Some(p) = t.iter_mut().find(|p| p.0 == *x) {
            p.1 = p.1.wrapping_add(*k) & mask(wd);
        } else {
            t.push((*x, *k));
        }
    }
    mk_lin(wd, c1.wrapping_add(c2), t)
}
fn mulc(a: E, k: u128) -> E {
    let wd = w(a);
    let k = k & mask(wd);
    if k == 0 {
        return con(0, wd);
    }
    if k == 1 {
        return a;
    }
    if let Some(v) = cval(a) {
        return con(v.wrapping_mul(k), wd);
    }
    let (c, t) = lin_parts(a);
    let t = t.iter().map(|(x, q)| (*x, q.wrapping_mul(k) & mask(wd))).collect();
    mk_lin(wd, c.wrapping_mul(k), t)
}
pub fn mul(a: E, b: E) -> E {
    let wd = w(a);
    if let Some(k) = cval(b) {
        if k.is_power_of_two() && !matches!(kind(a), K::Lin(..)) {
            return shl(a, con(k.trailing_zeros() as u128, wd));
        }
        if let Some(e) = ite_bin(a, b, mul) {
            return e;
        }
        return mulc(a, k);
    }
    if cval(a).is_some() {
        return mul(b, a);
    }
    let (a, b) = if a < b { (a, b) } else { (b, a) };
    let (h1, h2) = (rng_static_hi(a), rng_static_hi(b));
    let hi = h1.checked_mul(h2).filter(|h| *h <= mask(wd)).unwrap_or(mask(wd));
    intern(K::Mul(a, b), wd, 0, hi)
}

/// Distribute a binary operation with a constant over an if-then-else with
/// constant leaves (bounded depth).
fn ite_const_leaves(e: E, d: u32) -> bool {
    match kind(e) {
        K::Const(_) => true,
        K::Ite(_, a, b) => d < 40 && ite_const_leaves(*a, d + 1) && ite_const_leaves(*b, d + 1),
        _ => false,
    }
}
fn ite_bin(a: E, b: E, f: fn(E, E) -> E) -> Option<E> {
    match (kind(a), kind(b)) {
        (K::Ite(c, x, y), K::Const(_)) if ite_const_leaves(a, 0) => Some(ite(*c, f(*x, b), f(*y, b))),
        (K::Const(_), K::Ite(c, x, y)) if ite_const_leaves(b, 0) => Some(ite(*c, f(a, *x), f(a, *y))),
        _ => None,
    }
}

pub fn cat2(a: E, b: E) -> E {
    cat(vec![a, b])
}
pub fn cat(ps: Vec<E>) -> E {
    let mut v: Vec<E> = Vec::with_capacity(ps.len());
    let mut total = 0u16;
    for p in ps {
        total += w(p);
        match kind(p) {
            K::Cat(q) => {
                for x in q.iter() {
                    push_piece(&mut v, *x);
                }
            }
            _ => push_piece(&mut v, p),
        }
    }
    if v.len() == 1 {
        return v[0];
    }
    // known leading bits put back before a slice
    if let (2, Some(c), K::Ext(x, h, 0)) = (v.len(), cval(v[0]), kind(v[1])) {
        let (a, b) = rng(*x);
        if c != 0 && *h < 120 && w(*x) <= 64 && a >> (h + 1) == c && b >> (h + 1) == c {
            if total >= w(*x) {
                return zext(*x, total);
            }
        }
    }
    // zero-extension of a slice that loses nothing, or of a linear term
    if v.len() == 2 && cval(v[0]) == Some(0) {
        if let K::Ext(x, h, 0) = kind(v[1]) {
            let wx = w(*x);
            if rng(*x).1 <= mask(h + 1) {
                if total == wx {
                    return *x;
                }
                if total > wx {
                    return cat(vec![con(0, total - wx), *x]);
                }
            }
        }
        if let K::Lin(c, t) = kind(v[1]) {
            let wl = w(v[1]);
            if wl <= 64 && total <= 64 {
                let mut f = Form { c: sgn(*c, wl), t: vec![] };
                for (x, k) in t.iter() {
                    form_add(&mut f, &form_d(*x, 1), sgn(*k, wl));
                }
                let (l, h) = form_rng(&f);
                if l >= 0 && h <= mask(wl) as i128 {
                    let tt = t
                        .iter()
                        .map(|(x, k)| (zext(*x, total), (sgn(*k, wl) as u128) & mask(total)))
                        .collect::<Vec<_>>();
                    let mut r = con(sgn(*c, wl) as u128, total);
                    for (x, k) in tt {
                        r = add(r, mulc(x, k));
                    }
                    return r;
                }
            }
        }
        if let K::Ite(c, a, b) = kind(v[1]) {
            if ite_const_leaves(v[1], 0) && w(v[1]) > 1 {
                return ite(*c, zext(*a, total), zext(*b, total));
            }
        }
    }
    let (mut lo, mut hi) = (0u128, 0u128);
    for x in &v {
        let n = &cx().nodes[x.0 as usize];
        lo = if n.w >= 128 { n.lo } else { (lo << n.w) | n.lo };
        hi = if n.w >= 128 { n.hi } else { (hi << n.w) | n.hi };
    }
    intern(K::Cat(Rc::from(v)), total, lo, hi)
}
fn push_piece(v: &mut Vec<E>, p: E) {
    let mut p = p;
    if let K::Ext(x, h, l) = kind(p) {
        // what is known now may say more than when the slice was made
        let q = ext_raw(*x, *h, *l);
        if q != p {
            if let K::Cat(z) = kind(q) {
                let z = z.clone();
                for y in z.iter() {
                    push_piece(v, *y);
                }
                return;
            }
            p = q;
        }
    }
    if let Some(l) = v.last().copied() {
        match (kind(l), kind(p)) {
            (K::Const(a), K::Const(b)) => {
                let wd = w(l) + w(p);
                *v.last_mut().unwrap() = con((a << w(p)) | b, wd);
                return;
            }
            (K::Ext(x, h1, l1), K::Ext(y, h2, l2)) if x == y && *l1 == h2 + 1 => {
                let e = ext(*x, *h1, *l2);
                v.pop();
                if let K::Cat(q) = kind(e) {
                    for z in q.iter() {
                        push_piece(v, *z);
                    }
                } else {
                    push_piece(v, e);
                }
                return;
            }
            // a whole narrow term followed by nothing: slice tail merging with trimmed head
            _ => {}
        }
    }
    v.push(p);
}
pub fn zext(a: E, wd: u16) -> E {
    let wa = w(a);
    if wa == wd {
        a
    } else {
        cat(vec![con(0, wd - wa), a])
    }
}
pub fn sext(a: E, wd: u16) -> E {
    let wa = w(a);
    if wa == wd {
        return a;
    }
    if let Some(v) = cval(a) {
        return con(sgn(v, wa) as u128, wd);
    }
    if rng(a).1 < (1u128 << (wa - 1)) {
        return zext(a, wd);
    }
    if let K::Ite(c, x, y) = kind(a) {
        if ite_const_leaves(a, 0) {
            return ite(*c, sext(*x, wd), sext(*y, wd));
        }
    }
    if wa == 1 {
        return ite(a, con(mask(wd), wd), con(0, wd));
    }
    intern(K::SExt(a), wd, 0, mask(wd))
}
pub fn trunc(a: E, wd: u16) -> E {
    ext(a, wd - 1, 0)
}
/// number of known trailing zero bits
fn tz(e: E) -> u16 {
    match kind(e) {
        K::Const(v) => {
            if *v == 0 {
                w(e)
            } else {
                v.trailing_zeros() as u16
            }
        }
        K::Cat(p) => {
            let mut n = 0;
            for x in p.iter().rev() {
                let t = tz(*x);
                n += t;
                if t < w(*x) {
                    break;
                }
            }
            n
        }
        K::Lin(c, t) => {
            let mut n = if *c == 0 { w(e) } else { c.trailing_zeros() as u16 };
            for (x, k) in t.iter() {
                n = n.min((tz(*x) + k.trailing_zeros() as u16).min(w(e)));
            }
            n
        }
        _ => 0,
    }
}
pub fn ext(e: E, hi: u16, lo: u16) -> E {
    let we = w(e);
    debug_assert!(hi < we && lo <= hi);
    let nw = hi - lo + 1;
    if nw == we {
        if let K::Ext(x, h, l) = kind(e) {
            return ext_raw(*x, *h, *l);
        }
        return e;
    }
    match kind(e) {
        K::Const(v) => return con(v >> lo, nw),
        K::Cat(p) => {
            let mut out = vec![];
            let mut top = we;
            for x in p.iter() {
                let wx = w(*x);
                let base = top - wx; // bit index of piece lsb
                if base <= hi && top > lo {
                    let h = (hi.min(top - 1)) - base;
                    let l = lo.max(base) - base;
                    out.push(ext(*x, h, l));
                }
                top = base;
            }
            return cat(out);
        }
        K::Ext(x, _, l) => return ext(*x, hi + l, lo + l),
        K::SExt(x) => {
            if hi < w(*x) {
                return ext(*x, hi, lo);
            }
        }
        K::And(a, b) => return and(ext(*a, hi, lo), ext(*b, hi, lo)),
        K::Or(a, b) => return or(ext(*a, hi, lo), ext(*b, hi, lo)),
        K::Xor(a, b) => return xor(ext(*a, hi, lo), ext(*b, hi, lo)),
        K::Ite(c, a, b) => {
            if let Some(v) = known(*c) {
                return ext(if v { *a } else { *b }, hi, lo);
            }
            let flat = |x: E| matches!(kind(x), K::Const(_) | K::Cat(_) | K::Ext(..));
            if flat(*a) || flat(*b) {
                return ite(*c, ext(*a, hi, lo), ext(*b, hi, lo));
            }
        }
        K::Lin(c, t) => {
            let z = tz(e);
            if z > hi {
                return con(0, nw);
            }
            // exactly divisible part
            if lo > 0 && z >= lo {
                let nwid = we - lo;
                let mut r = con(*c >> lo, nwid);
                for (x, k) in t.iter() {
                    let kz = (k.trailing_zeros() as u16).min(lo);
                    let xs = lo - kz;
                    // k = 2^kz*k1, x divisible by 2^xs or xs == 0
                    let (k1, x1) = if tz(*x) >= xs {
                        (*k >> kz, ext(*x, we - 1, xs))
                    } else {
                        return ext_raw(e, hi, lo);
                    };
                    let x1 = if w(x1) > nwid { ext(x1, nwid - 1, 0) } else { x1 };
                    if w(x1) != nwid {
                        return ext_raw(e, hi, lo);
                    }
                    r = add(r, mulc(x1, k1));
                }
                return ext(r, nw - 1, 0);
            }
            if z > 0 && lo < z {
                // low zero bits known
                return cat(vec![ext(e, hi, z), con(0, z - lo)]);
            }
        }
        _ => {}
    }
    ext_raw(e, hi, lo)
}
fn ext_raw(e: E, hi: u16, lo: u16) -> E {
    let nw = hi - lo + 1;
    let (l, mut h) = rng(e);
    if lo >= 32 && h > mask(lo) && w(e) == 64 && matches!(kind(e), K::Lin(..)) {
        let f = form(e);
        if !(f.t.len() == 1 && f.t[0].0 == e) {
            let (_, u) = form_rng(&f);
            if u >= 0 && (u as u128) < h {
                h = u as u128;
            }
        }
    }
    if lo > 0 && unsafe { DEEP } && h > mask(lo) && w(e) == 64 && matches!(kind(e), K::Lin(_, t) if t.len() > 1) && !facts().rel.is_empty() {
        // below 2^k by what is known of sums?
        let f = form(e);
        if !(f.t.len() == 1 && f.t[0].0 == e) && nonneg(&f) {
            for k in [lo, hi + 1] {
                let mut g = Form { c: mask(k) as i128, t: vec![] };
                form_add(&mut g, &f, -1);
                if k < 64 && nonneg(&g) {
                    h = h.min(mask(k));
                    break;
                }
            }
        }
    }
    if h < l {
        h = l;
    }
    let bl = bitlen(h);
    if l >> lo == h >> lo {
        return con(l >> lo, nw);
    }
    if bl <= hi {
        // trim known-zero high bits
        let top = bl - 1;
        let inner = ext_raw2(e, top, lo);
        return cat(vec![con(0, hi - top), inner]);
    }
    ext_raw2(e, hi, lo)
}
fn ext_raw2(e: E, hi: u16, lo: u16) -> E {
    let nw = hi - lo + 1;
    if nw == w(e) {
        return e;
    }
    let n = &cx().nodes[e.0 as usize];
    let (l, h) = if n.hi <= mask(hi + 1) { (n.lo >> lo, n.hi >> lo) } else { (0, mask(nw)) };
    let h = h.min(mask(nw));
    let e = intern(K::Ext(e, hi, lo), nw, l, h);
    norm(e)
}

pub fn not(a: E) -> E {
    xor(a, con(mask(w(a)), w(a)))
}

fn cuts(e: E, out: &mut Vec<u16>) -> bool {
    match kind(e) {
        K::Const(v) => {
            let wd = w(e);
            let mut prev = v & 1;
            for i in 1..wd {
                let b = (v >> i) & 1;
                if b != prev {
                    out.push(i);
                    prev = b;
                }
            }
            true
        }
        K::Cat(p) => {
            let mut pos = 0;
            for x in p.iter().rev() {
                pos += w(*x);
                out.push(pos);
                if let K::Const(_) = kind(*x) {
                    let mut o = vec![];
                    cuts(*x, &mut o);
                    let b = pos - w(*x);
                    out.extend(o.into_iter().map(|c| c + b));
                }
            }
            true
        }
        _ => false,
    }
}

fn bitop(op: u8, a: E, b: E) -> E {
    let wd = w(a);
    debug_assert_eq!(wd, w(b));
    if let (Some(x), Some(y)) = (cval(a), cval(b)) {
        return con(
            match op {
                0 => x & y,
                1 => x | y,
                _ => x ^ y,
            },
            wd,
        );
    }
    if a == b {
        return if op == 2 { con(0, wd) } else { a };
    }
    let m = mask(wd);
    let (a, b) = if cval(a).is_some() || (cval(b).is_none() && a > b) { (b, a) } else { (a, b) };
    // b is the constant, if any
    if let Some(k) = cval(b) {
        match op {
            0 if k == 0 => return b,
            0 if k == m => return a,
            1 if k == 0 => return a,
            1 if k == m => return b,
            2 if k == 0 => return a,
            2 => {
                if let K::Xor(x, y) = kind(a) {
                    if let Some(k2) = cval(*y) {
                        return bitop(2, *x, con(k ^ k2, wd));
                    }
                }
            }
            _ => {}
        }
        if wd > 1 || op != 2 {
            if let K::Ite(c, x, y) = kind(a) {
                if ite_const_leaves(a, 0) {
                    return ite(*c, bitop(op, *x, b), bitop(op, *y, b));
                }
            }
        }
    }
    if wd == 1 {
        // complementary operands
        let na = |e: E| match kind(e) {
            K::Xor(x, y) if cval(*y) == Some(1) => Some(*x),
            _ => None,
        };
        if na(a) == Some(b) || na(b) == Some(a) {
            return match op {
                0 => fls(),
                _ => tru(),
            };
        }
        if op < 2 {
            // two upper or two lower bounds of the same term
            let ub = |e: E| match kind(e) {
                K::Ult(x, k) => cval(*k).map(|k| (*x, k)),
                _ => None,
            };
            if let (Some((x, k1)), Some((y, k2))) = (ub(a), ub(b)) {
                if x == y {
                    return if (k1 < k2) == (op == 0) { a } else { b };
                }
            }
            if let (Some(p), Some(q)) = (na(a), na(b)) {
                if let (Some((x, k1)), Some((y, k2))) = (ub(p), ub(q)) {
                    if x == y {
                        return if (k1 > k2) == (op == 0) { a } else { b };
                    }
                }
            }
            for (p, q) in [(a, b), (b, a)] {
                if let Some(v) = known(p) {
                    return match (op, v) {
                        (0, true) | (1, false) => q,
                        (0, false) => fls(),
                        _ => tru(),
                    };
                }
            }
        }
        let k = match op {
            0 => K::And(a, b),
            1 => K::Or(a, b),
            _ => K::Xor(a, b),
        };
        let e = intern(k, 1, 0, 1);
        if let Some(v) = facts().cond.get(&e) {
            return con(*v as u128, 1);
        }
        return e;
    }
    let mut c = vec![];
    let ca = cuts(a, &mut c);
    let cb = cuts(b, &mut c);
    if (ca || cb) && !(op == 2 && cval(b).is_some() && !ca && c.is_empty()) {
        c.push(0);
        c.push(wd);
        c.sort();
        c.dedup();
        if c.len() > 2 {
            let mut out = vec![];
            for i in (0..c.len() - 1).rev() {
                let (lo, hi) = (c[i], c[i + 1] - 1);
                out.push(bitop(op, ext(a, hi, lo), ext(b, hi, lo)));
            }
            return cat(out);
        }
    }
    let (_, h1) = (0, rng_static_hi(a));
    let h2 = rng_static_hi(b);
    let hi = match op {
        0 => h1.min(h2),
        _ => mask(bitlen(h1).max(bitlen(h2)).max(1)),
    };
    let k = match op {
        0 => K::And(a, b),
        1 => K::Or(a, b),
        _ => K::Xor(a, b),
    };
    intern(k, wd, 0, hi)
}
fn rng_static_hi(e: E) -> u128 {
    cx().nodes[e.0 as usize].hi
}
pub fn and(a: E, b: E) -> E {
    bitop(0, a, b)
}
pub fn or(a: E, b: E) -> E {
    bitop(1, a, b)
}
pub fn xor(a: E, b: E) -> E {
    bitop(2, a, b)
}

pub fn shl(a: E, b: E) -> E {
    let wd = w(a);
    if let Some(k) = cval(b) {
        if k == 0 {
            return a;
        }
        if k >= wd as u128 {
            return con(0, wd);
        }
        let k = k as u16;
        return cat(vec![ext(a, wd - 1 - k, 0), con(0, k)]);
    }
    if let Some(e) = ite_bin(a, b, shl) {
        return e;
    }
    intern(K::Shl(a, b), wd, 0, mask(wd))
}
pub fn lshr(a: E, b: E) -> E {
    let wd = w(a);
    if let Some(k) = cval(b) {
        if k == 0 {
            return a;
        }
        if k >= wd as u128 {
            return con(0, wd);
        }
        let k = k as u16;
        return zext(ext(a, wd - 1, k), wd);
    }
    if let Some(e) = ite_bin(a, b, lshr) {
        return e;
    }
    let h = rng_static_hi(a);
    intern(K::LShr(a, b), wd, 0, h)
}
pub fn ashr(a: E, b: E) -> E {
    let wd = w(a);
    if let Some(k) = cval(b) {
        if k == 0 {
            return a;
        }
        let k = k.min(wd as u128 - 1) as u16;
        return sext(ext(a, wd - 1, k), wd);
    }
    intern(K::AShr(a, b), wd, 0, mask(wd))
}
pub fn udiv(a: E, b: E) -> E {
    let wd = w(a);
    if let Some(k) = cval(b) {
        if k != 0 {
            if let Some(x) = cval(a) {
                return con(x / k, wd);
            }
            if k.is_power_of_two() {
                return lshr(a, con(k.trailing_zeros() as u128, wd));
            }
            let h = rng_static_hi(a) / k;
            return intern(K::UDiv(a, b), wd, 0, h);
        }
    }
    intern(K::UDiv(a, b), wd, 0, mask(wd))
}
pub fn urem(a: E, b: E) -> E {
    let wd = w(a);
    if let Some(k) = cval(b) {
        if k != 0 {
            if let Some(x) = cval(a) {
                return con(x % k, wd);
            }
            if k.is_power_of_two() {
                return and(a, con(k - 1, wd));
            }
            if rng(a).1 < k {
                return a;
            }
            return intern(K::URem(a, b), wd, 0, k - 1);
        }
    }
    intern(K::URem(a, b), wd, 0, mask(wd))
}
pub fn sdiv(a: E, b: E) -> E {
    let wd = w(a);
    if let (Some(x), Some(y)) = (cval(a), cval(b)) {
        let (x, y) = (sgn(x, wd), sgn(y, wd));
        if y != 0 {
            return con(x.wrapping_div(y) as u128, wd);
        }
    }
    let top = 1u128 << (wd - 1);
    if rng(a).1 < top && rng(b).1 < top {
        return udiv(a, b);
    }
    intern(K::SDiv(a, b), wd, 0, mask(wd))
}
pub fn srem(a: E, b: E) -> E {
    let wd = w(a);
    if let (Some(x), Some(y)) = (cval(a), cval(b)) {
        let (x, y) = (sgn(x, wd), sgn(y, wd));
        if y != 0 {
            return con(x.wrapping_rem(y) as u128, wd);
        }
    }
    let top = 1u128 << (wd - 1);
    if rng(a).1 < top && rng(b).1 < top {
        return urem(a, b);
    }
    intern(K::SRem(a, b), wd, 0, mask(wd))
}

/// Truth value of a condition if the path facts give it.
pub fn known(c: E) -> Option<bool> {
    match kind(c) {
        K::Const(v) => Some(*v == 1),
        K::Xor(x, y) if cval(*y) == Some(1) => facts().cond.get(x).map(|b| !b),
        _ => facts().cond.get(&c).copied(),
    }
}

pub fn ite(c: E, a: E, b: E) -> E {
    if a == b {
        return a;
    }
    if let Some(v) = known(c) {
        return if v { a } else { b };
    }
    if let K::Xor(x, y) = kind(c) {
        if cval(*y) == Some(1) {
            return ite(*x, b, a);
        }
    }
    let wd = w(a);
    if wd == 1 {
        match (cval(a), cval(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), _) => return or(c, b),
            (Some(0), _) => return and(not(c), b),
            (_, Some(1)) => return or(not(c), a),
            (_, Some(0)) => return and(c, a),
            _ => {}
        }
    }
    // collapse nested with the same condition
    let a = match kind(a) {
        K::Ite(c2, x, _) if *c2 == c => *x,
        _ => a,
    };
    let b = match kind(b) {
        K::Ite(c2, _, y) if *c2 == c => *y,
        _ => b,
    };
    if a == b {
        return a;
    }
    let (na, nb) = (&cx().nodes[a.0 as usize], &cx().nodes[b.0 as usize]);
    let (lo, hi) = (na.lo.min(nb.lo), na.hi.max(nb.hi));
    intern(K::Ite(c, a, b), wd, lo, hi)
}

/// Whether the form is zero, if the facts tell.
fn zero(f: &mut Form) -> Option<bool> {
    if f.t.is_empty() {
        return Some(f.c == 0);
    }
    f.c -= 1;
    if nonneg(f) {
        return Some(false);
    }
    f.c += 1;
    let mut g = Form { c: -1, t: vec![] };
    form_add(&mut g, f, -1);
    if nonneg(&g) {
        return Some(false);
    }
    g.c += 1;
    if nonneg(f) && nonneg(&g) {
        return Some(true);
    }
    None
}

pub fn eq(a: E, b: E) -> E {
    let wd = w(a);
    debug_assert_eq!(wd, w(b), "{} {}", show(a), show(b));
    if a == b {
        return tru();
    }
    if let (Some(x), Some(y)) = (cval(a), cval(b)) {
        return boolc(x == y);
    }
    let (a, b) = if cval(a).is_some() { (b, a) } else { (a, b) };
    let (l1, h1) = rng(a);
    let (l2, h2) = rng(b);
    if h1 < l2 || h2 < l1 {
        return fls();
    }
    if l1 == h1 && l2 == h2 {
        return boolc(l1 == l2);
    }
    if wd == 1 {
        if let Some(v) = cval(b) {
            return if v == 1 { a } else { not(a) };
        }
    }
    if cval(b).is_some() {
        if let (K::Ext(_, _, 0), false) = (kind(a), facts().rel.is_empty()) {
            let mut f = form(a);
            if !(f.t.len() == 1 && f.t[0].0 == a) {
                f.c -= cval(b).unwrap() as i128;
                if let Some(v) = zero(&mut f) {
                    return boolc(v);
                }
            }
        }
        match kind(a) {
            K::Ext(e, h, l) if cval(b) == Some(0) && *h + 1 < 128 && rng(*e).1 < 1u128 << (*h + 1) => {
                return ult(*e, con(1u128 << *l, w(*e)));
            }
            K::Ite(c, x, y) => {
                if cval(*x).is_some() || cval(*y).is_some() {
                    return ite(*c, eq(*x, b), eq(*y, b));
                }
            }
            K::Cat(p) => {
                let mut r = tru();
                let mut top = wd;
                for x in p.iter() {
                    let wx = w(*x);
                    let q = ext(b, top - 1, top - wx);
                    r = and(r, eq(*x, q));
                    if is_false(r) {
                        return r;
                    }
                    top -= wx;
                }
                return r;
            }
            K::SExt(x) => {
                let v = cval(b).unwrap();
                let wx = w(*x);
                if sgn(v, wd) as u128 & mask(wd) == sgn(v & mask(wx), wx) as u128 & mask(wd) {
                    return eq(*x, con(v, wx));
                }
                return fls();
            }
            K::Lin(c, t) if t.len() == 1 && (t[0].1 == 1 || t[0].1 == mask(wd)) => {
                let v = cval(b).unwrap();
                let r = if t[0].1 == 1 { v.wrapping_sub(*c) } else { c.wrapping_sub(v) };
                return eq(t[0].0, con(r, wd));
            }
            K::Xor(x, y) if cval(*y).is_some() => {
                return eq(*x, con(cval(*y).unwrap() ^ cval(b).unwrap(), wd));
            }
            K::Lin(..) if wd <= 64 && !(facts().rel.is_empty() && facts().sub.is_empty()) => {
                let mut f = form(a);
                f.c -= cval(b).unwrap() as i128;
                if let Some(v) = zero(&mut f) {
                    return boolc(v);
                }
            }
            _ => {}
        }
    } else {
        // modular difference
        let (c1, t1) = lin_parts(a);
        let (c2, t2) = lin_parts(b);
        if t1 == t2 {
            return boolc(c1 == c2);
        }
        if wd <= 64 {
            let mut f = form(a);
            form_add(&mut f, &form(b), -1);
            if let Some(v) = zero(&mut f) {
                return boolc(v);
            }
        }
        // zero-extended comparisons and aligned concatenations
        if let (K::Cat(p), K::Cat(q)) = (kind(a), kind(b)) {
            let wa: Vec<u16> = p.iter().map(|x| w(*x)).collect();
            let wb: Vec<u16> = q.iter().map(|x| w(*x)).collect();
            if wa == wb {
                let mut r = tru();
                for (x, y) in p.iter().zip(q.iter()) {
                    r = and(r, eq(*x, *y));
                    if is_false(r) {
                        return r;
                    }
                }
                return r;
            }
        }
    }
    let (a, b) = if cval(b).is_none() && a > b { (b, a) } else { (a, b) };
    let e = intern(K::Eq(a, b), 1, 0, 1);
    if let Some(v) = facts().cond.get(&e) {
        return boolc(*v);
    }
    e
}
pub fn ne(a: E, b: E) -> E {
    not(eq(a, b))
}
/// The term and the number of its low bits that this one consists of, apart from zeroes in front.
fn low_bits(e: E) -> (E, u16) {
    let mut x = e;
    if let K::Cat(p) = kind(e) {
        if p.len() == 2 && cval(p[0]) == Some(0) {
            x = p[1];
        }
    }
    match kind(x) {
        K::Ext(y, h, 0) => (*y, h + 1),
        _ => (x, w(x)),
    }
}
pub fn ult(a: E, b: E) -> E {
    if w(a) > 7 && cval(a).is_none() && cval(b).is_none() {
        // more low bits of a number are not less than fewer of them
        let ((x, n), (y, m)) = (low_bits(a), low_bits(b));
        if x == y && n >= m {
            return fls();
        }
    }
    let wd = w(a);
    if a == b {
        return fls();
    }
    if let (Some(x), Some(y)) = (cval(a), cval(b)) {
        return boolc(x < y);
    }
    let (l1, h1) = rng(a);
    let (l2, h2) = rng(b);
    if h1 < l2 {
        return tru();
    }
    if l1 >= h2 {
        return fls();
    }
    if let K::Ite(c, x, y) = kind(a) {
        if cval(b).is_some() && (cval(*x).is_some() || cval(*y).is_some()) {
            return ite(*c, ult(*x, b), ult(*y, b));
        }
    }
    if let K::Ite(c, x, y) = kind(b) {
        if cval(a).is_some() && (cval(*x).is_some() || cval(*y).is_some()) {
            return ite(*c, ult(a, *x), ult(a, *y));
        }
    }
    if wd <= 64 {
        let fa = form(a);
        let mut d = form(b);
        form_add(&mut d, &fa, -1);
        d.c -= 1; // b - a - 1 >= 0  <=> a < b
        if nonneg(&d) {
            return tru();
        }
        let mut g = Form { c: -1, t: vec![] };
        form_add(&mut g, &d, -1); // a - b >= 0
        if nonneg(&g) {
            return fls();
        }
    }
    // strip common zero extension
    let strip = |e: E| -> Option<(E, u16)> {
        match kind(e) {
            K::Cat(p) if p.len() == 2 && cval(p[0]) == Some(0) => Some((p[1], w(p[1]))),
            _ => None,
        }
    };
    if let Some((x, wx)) = strip(a) {
        if let Some(v) = cval(b) {
            if v <= mask(wx) {
                return ult(x, con(v, wx));
            }
        }
        if let Some((y, wy)) = strip(b) {
            if wx == wy {
                return ult(x, y);
            }
        }
    }
    if let Some((y, wy)) = strip(b) {
        if let Some(v) = cval(a) {
            if v <= mask(wy) {
                return ult(con(v, wy), y);
            }
        }
    }
    if cval(b) == Some(1) {
        return eq(a, con(0, wd));
    }
    if cval(a) == Some(0) {
        return ne(b, con(0, wd));
    }
    // normalise  k < x  to  !(x < k+1)
    if let Some(k) = cval(a) {
        return not(ult(b, con(k + 1, wd)));
    }
    let e = intern(K::Ult(a, b), 1, 0, 1);
    if let Some(v) = facts().cond.get(&e) {
        return boolc(*v);
    }
    e
}
pub fn ule(a: E, b: E) -> E {
    not(ult(b, a))
}
pub fn slt(a: E, b: E) -> E {
    let wd = w(a);
    if let (Some(x), Some(y)) = (cval(a), cval(b)) {
        return boolc(sgn(x, wd) < sgn(y, wd));
    }
    if wd == 1 {
        return and(a, not(b));
    }
    let top = 1u128 << (wd - 1);
    let (l1, h1) = rng(a);
    let (l2, h2) = rng(b);
    let na = if h1 < top { Some(false) } else if l1 >= top { Some(true) } else { None };
    let nb = if h2 < top { Some(false) } else if l2 >= top { Some(true) } else { None };
    match (na, nb) {
        (Some(x), Some(y)) if x == y => return ult(a, b),
        (Some(x), Some(_)) => return boolc(x),
        _ => {}
    }
    if cval(b) == Some(0) {
        return ext(a, wd - 1, wd - 1);
    }
    if cval(a) == Some(mask(wd)) {
        return not(ext(b, wd - 1, wd - 1));
    }
    let (sa, sb) = (ext(a, wd - 1, wd - 1), ext(b, wd - 1, wd - 1));
    ite(sa, or(not(sb), ult(a, b)), and(not(sb), ult(a, b)))
}
pub fn sle(a: E, b: E) -> E {
    not(slt(b, a))
}

// ------------------------------------------------------------------- facts

impl Facts {
    fn bound(&mut self, e: E, lo: u128, hi: u128) {
        if cval(e).is_some() {
            return;
        }
        let n = &cx().nodes[e.0 as usize];
        let cur = self.rng.get(&e).copied().unwrap_or((n.lo, n.hi));
        let nw = (cur.0.max(lo), cur.1.min(hi));
        if nw == cur || nw.0 > nw.1 {
            return;
        }
        self.rng.insert(e, nw);
        // propagate through injective wrappers
        match &n.k {
            K::Cat(p) => {
                if p.len() == 2 && cval(p[0]) == Some(0) {
                    self.bound(p[1], nw.0, nw.1);
                } else if nw.0 == nw.1 {
                    let mut top = n.w;
                    for x in p.iter() {
                        let wx = w(*x);
                        let v = (nw.0 >> (top - wx)) & mask(wx);
                        self.bound(*x, v, v);
                        top -= wx;
                    }
                } else {
                    // leading piece bounds
                    let s = n.w - w(p[0]);
                    self.bound(p[0], nw.0 >> s, nw.1 >> s);
                }
            }
            K::Ext(x, h, l) => {
                // top slice zero: bounds the base
                if nw.1 == 0 && *h + 1 == w(*x) {
                    self.bound(*x, 0, mask(*l));
                } else if *l == 0 && rng(*x).1 <= mask(h + 1) {
                    self.bound(*x, nw.0, nw.1);
                } else if *h + 1 == w(*x) || rng(*x).1 <= mask(h + 1) {
                    self.bound(*x, nw.0 << l, ((nw.1 << l) | mask(*l)).min(mask(w(*x))));
                }
            }
            K::Lin(c, t) if t.len() == 1 && n.w <= 64 => {
                let k = sgn(t[0].1, n.w);
                let c = sgn(*c, n.w);
                let (a, b) = rng(t[0].0);
                if a < 1 << 64 && b < 1 << 64 {
                    let (p, q) = ((a as i128) * k + c, (b as i128) * k + c);
                    if p.min(q) >= 0 && p.max(q) <= mask(n.w) as i128 {
                        // exact
                        if k == 1 {
                            self.bound(
                                t[0].0,
                                (nw.0 as i128 - c).max(0) as u128,
                                (nw.1 as i128 - c).max(0) as u128,
                            );
                        } else if k == -1 {
                            self.bound(
                                t[0].0,
                                (c - nw.1 as i128).max(0) as u128,
                                (c - nw.0 as i128).max(0) as u128,
                            );
                        }
                    }
                }
            }
            K::Lin(c, t) if n.w <= 64 => {
                // an upper bound on a sum of non-negative terms bounds each term
                {
                    let c = sgn(*c, n.w);
                    if t.iter().all(|x| sgn(x.1, n.w) > 0) && c >= 0 {
                        let total: u128 = t
                            .iter()
                            .map(|x| rng(x.0).1.saturating_mul(x.1))
                            .fold(c as u128, |a, b| a.saturating_add(b));
                        if total <= mask(n.w) {
                            let minsum: u128 = t.iter().map(|x| rng(x.0).0 * x.1).sum::<u128>() + c as u128;
                            for (x, k) in t.iter() {
                                let (xl, xh) = rng(*x);
                                if nw.1 >= minsum {
                                    let room = (nw.1 - minsum) / k + xl;
                                    if room < xh {
                                        self.bound(*x, 0, room);
                                    }
                                }
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    /// Record that the form is zero: eliminate one atom where possible.
    fn equal(&mut self, f: Form) {
        if f.t.is_empty() {
            return;
        }
        let mut g = Form { c: 0, t: vec![] };
        form_add(&mut g, &f, -1);
        if self.rel.len() < 200 {
            self.rel.push(f.clone());
            self.rel.push(g);
        }
        // the youngest atom with a unit coefficient
        let x = f.t.iter().filter(|x| x.1 == 1 || x.1 == -1).max_by_key(|x| x.0).copied();
        if let Some((x, k)) = x {
            let mut h = Form { c: 0, t: vec![] };
            form_add(&mut h, &f, -k);
            h.t.retain(|y| y.0 != x);
            let replace = |g: &mut Form| {
                if let Some(p) = g.t.iter().position(|y| y.0 == x) {
                    let (_, c) = g.t.remove(p);
                    form_add(g, &h, c);
                }
            };
            for (_, g) in self.sub.iter_mut() {
                replace(g);
            }
            for g in self.rel.iter_mut() {
                replace(g);
            }
            self.rel.retain(|g| !g.t.is_empty());
            // what was known of x
            let (l, u) = rng(x);
            let mut g = h.clone();
            g.c -= l as i128;
            self.rel.push(g);
            let mut g = Form { c: u as i128, t: vec![] };
            form_add(&mut g, &h, -1);
            self.rel.push(g);
            self.sub.insert(x, h);
        }
    }
    /// Record that c has the given truth value. The caller must have pointed
    /// the context's fact pointer at self.
    pub fn learn(&mut self, c: E, val: bool) {
        match kind(c) {
            K::Const(_) => return,
            K::Xor(x, y) if cval(*y) == Some(1) => return self.learn(*x, !val),
            _ => {}
        }
        self.cond.insert(c, val);
        match kind(c) {
            K::And(a, b) if val => {
                self.learn(*a, true);
                self.learn(*b, true);
            }
            K::Or(a, b) if !val => {
                self.learn(*a, false);
                self.learn(*b, false);
            }
            K::And(a, b) if !val => {
                if known(*a) == Some(true) {
                    self.learn(*b, false)
                } else if known(*b) == Some(true) {
                    self.learn(*a, false)
                }
            }
            K::Or(a, b) if val => {
                if known(*a) == Some(false) {
                    self.learn(*b, true)
                } else if known(*b) == Some(false) {
                    self.learn(*a, true)
                }
            }
            K::Eq(a, b) => {
                if let (K::Ext(e, h, l), Some(0)) = (kind(*a), cval(*b)) {
                    let (el, eh) = rng(*e);
                    if *h + 1 >= 128 || eh < 1u128 << (*h + 1) {
                        let m = 1u128 << *l;
                        if val {
                            self.bound(*e, el, eh.min(m - 1));
                        } else {
                            self.bound(*e, el.max(m), eh);
                        }
                    }
                }
                if val {
                    let (l1, h1) = rng(*a);
                    let (l2, h2) = rng(*b);
                    let (fa, fb) = if w(*a) <= 64 && (cval(*b).is_none() || matches!(kind(*a), K::Lin(..))) {
                        (form(*a), form(*b))
                    } else {
                        (Form { c: 0, t: vec![] }, Form { c: 0, t: vec![] })
                    };
                    self.bound(*a, l1.max(l2), h1.min(h2));
                    self.bound(*b, l1.max(l2), h1.min(h2));
                    let mut f = fa;
                    form_add(&mut f, &fb, -1);
                    self.equal(f);
                } else if w(*a) <= 64 && (cval(*b).is_none() || matches!(kind(*a), K::Lin(..))) {
                    // at least, and not equal: more than
                    let mut f = form(*a);
                    form_add(&mut f, &form(*b), -1);
                    let mut g = Form { c: 0, t: vec![] };
                    form_add(&mut g, &f, -1);
                    if let [(x, k)] = f.t[..] {
                        if k == 1 || k == -1 {
                            let v = -f.c * k;
                            let (l, h) = rng(x);
                            if v >= 0 && l < h && l == v as u128 {
                                self.bound(x, l + 1, h);
                            } else if v >= 0 && l < h && h == v as u128 {
                                self.bound(x, l, h - 1);
                            }
                        }
                    }
                    if !f.t.is_empty() && self.rel.len() < 200 {
                        if nonneg(&f) {
                            f.c -= 1;
                            self.rel.push(f);
                        } else if nonneg(&g) {
                            g.c -= 1;
                            self.rel.push(g);
                        }
                    }
                }
                if let (false, Some(v)) = (val, cval(*b)) {
                    let (l, h) = rng(*a);
                    if l == v {
                        self.bound(*a, l + 1, h);
                    } else if h == v {
                        self.bound(*a, l, h - 1);
                    }
                }
            }
            K::Ult(a, b) => {
                let (l1, h1) = rng(*a);
                let (l2, h2) = rng(*b);
                let (fa, fb) = (form(*a), form(*b));
                if val {
                    if h2 > 0 {
                        self.bound(*a, l1, h1.min(h2 - 1));
                    }
                    self.bound(*b, l2.max(l1 + 1), h2);
                } else {
                    self.bound(*a, l1.max(l2), h1);
                    self.bound(*b, l2, h2.min(h1));
                }
                if w(*a) <= 64 && (cval(*a).is_none() && cval(*b).is_none() || fa.t.len() + fb.t.len() > 1) {
                    let mut d = if val { fb.clone() } else { fa.clone() };
                    form_add(&mut d, if val { &fa } else { &fb }, -1);
                    if val {
                        d.c -= 1;
                    }
                    if !d.t.is_empty() {
                        let mut g = Form { c: 0, t: vec![] };
                        form_add(&mut g, &d, -1);
                        if nonneg(&g) {
                            self.equal(d);
                        } else if self.rel.len() < 200 {
                            self.rel.push(d);
                        }
                    }
                }
            }
            _ => {
                if w(c) == 1 {
                    let v = val as u128;
                    self.bound(c, v, v);
                }
            }
        }
    }
}

// -------------------------------------------------------------- evaluation

#[derive(Clone, Default)]
pub struct Model {
    pub vars: FxMap<u32, u128>,
    pub arrs: FxMap<u32, FxMap<u64, u8>>,
}
pub const ARR_DEFAULT: u8 = 0x61;

impl Model {
    pub fn arr(&self, a: u32, i: u64) -> u8 {
        self.arrs.get(&a).and_then(|m| m.get(&i)).copied().unwrap_or(ARR_DEFAULT)
    }
}
pub struct Eval<'a> {
    pub m: &'a Model,
    pub memo: FxMap<E, u128>,
}
impl<'a> Eval<'a> {
    pub fn new(m: &'a Model) -> Self {
        Eval { m, memo: Default::default() }
    }
    pub fn ev(&mut self, e: E) -> u128 {
        if let K::Const(v) = kind(e) {
            return *v;
        }
        if let Some(v) = self.memo.get(&e) {
            return *v;
        }
        let wd = w(e);
        let m = mask(wd);
        let r = match kind(e) {
            K::Const(v) => *v,
            K::Var(id) => self.m.vars.get(id).copied().unwrap_or(0) & m,
            K::Sel(a, i) => {
                let i = self.ev(*i) as u64;
                self.m.arr(*a, i) as u128
            }
            K::Lin(c, t) => {
                let mut s = *c;
                for (x, k) in t.iter() {
                    s = s.wrapping_add(self.ev(*x).wrapping_mul(*k));
                }
                s
            }
            K::Cat(p) => {
                let mut s = 0u128;
                for x in p.iter() {
                    let wx = w(*x);
                    let v = self.ev(*x);
                    s = if wx >= 128 { v } else { (s << wx) | v };
                }
                s
            }
            K::Ext(x, h, l) => (self.ev(*x) >> l) & mask(h - l + 1),
            K::SExt(x) => sgn(self.ev(*x), w(*x)) as u128,
            K::And(a, b) => {
                let x = self.ev(*a);
                if x == 0 {
                    0
                } else {
                    x & self.ev(*b)
                }
            }
            K::Or(a, b) => self.ev(*a) | self.ev(*b),
            K::Xor(a, b) => self.ev(*a) ^ self.ev(*b),
            K::Shl(a, b) => {
                let s = self.ev(*b);
                if s >= wd as u128 {
                    0
                } else {
                    self.ev(*a) << s
                }
            }
            K::LShr(a, b) => {
                let s = self.ev(*b);
                if s >= wd as u128 {
                    0
                } else {
                    self.ev(*a) >> s
                }
            }
            K::AShr(a, b) => {
                let s = self.ev(*b).min(wd as u128 - 1);
                (sgn(self.ev(*a), wd) >> s) as u128
            }
            K::Mul(a, b) => self.ev(*a).wrapping_mul(self.ev(*b)),
            K::UDiv(a, b) => {
                let d = self.ev(*b);
                if d == 0 {
                    m
                } else {
                    self.ev(*a) / d
                }
            }
            K::URem(a, b) => {
                let d = self.ev(*b);
                if d == 0 {
                    self.ev(*a)
                } else {
                    self.ev(*a) % d
                }
            }
            K::SDiv(a, b) => {
                let (x, d) = (sgn(self.ev(*a), wd), sgn(self.ev(*b), wd));
                if d == 0 {
                    if x >= 0 {
                        m
                    } else {
                        1
                    }
                } else {
                    x.wrapping_div(d) as u128
                }
            }
            K::SRem(a, b) => {
                let (x, d) = (sgn(self.ev(*a), wd), sgn(self.ev(*b), wd));
                if d == 0 {
                    x as u128
                } else {
                    x.wrapping_rem(d) as u128
                }
            }
            K::Ite(c, a, b) => {
                if self.ev(*c) == 1 {
                    self.ev(*a)
                } else {
                    self.ev(*b)
                }
            }
            K::Eq(a, b) => (self.ev(*a) == self.ev(*b)) as u128,
            K::Ult(a, b) => (self.ev(*a) < self.ev(*b)) as u128,
        } & m;
        self.memo.insert(e, r);
        r
    }
}

pub fn kids(e: E, out: &mut Vec<E>) {
    match kind(e) {
        K::Const(_) | K::Var(_) => {}
        K::Sel(_, i) => out.push(*i),
        K::Lin(_, t) => out.extend(t.iter().map(|x| x.0)),
        K::Cat(p) => out.extend(p.iter().copied()),
        K::Ext(x, _, _) | K::SExt(x) => out.push(*x),
        K::And(a, b)
        | K::Or(a, b)
        | K::Xor(a, b)
        | K::Shl(a, b)
        | K::LShr(a, b)
        | K::AShr(a, b)
        | K::Mul(a, b)
        | K::UDiv(a, b)
        | K::URem(a, b)
        | K::SDiv(a, b)
        | K::SRem(a, b)
        | K::Eq(a, b)
        | K::Ult(a, b) => {
            out.push(*a);
            out.push(*b)
        }
        K::Ite(c, a, b) => {
            out.push(*c);
            out.push(*a);
            out.push(*b)
        }
    }
}

/// The term rebuilt with what the path knows by now; itself when it is too large.
/// A condition that is counted in a sum somewhere in this one, innermost first.
pub fn counted(e: E) -> Option<E> {
    fn go(e: E, sum: bool, seen: &mut FxMap<E, ()>) -> Option<E> {
        if seen.len() > 3000 || seen.insert(e, ()).is_some() {
            return None;
        }
        let here = sum && w(e) == 1 && matches!(kind(e), K::Ult(..) | K::Eq(..) | K::And(..) | K::Or(..) | K::Xor(..));
        let r = match kind(e) {
            K::Lin(_, t) => t.iter().find_map(|(x, _)| go(*x, true, seen)),
            K::Cat(p) => {
                // a condition as a number: zeroes in front of it
                let n = p.len();
                let num = sum && n == 2 && cval(p[0]) == Some(0) && w(p[1]) == 1;
                p.iter().find_map(|x| go(*x, num, seen))
            }
            K::Ult(a, b) | K::Eq(a, b) | K::And(a, b) | K::Or(a, b) | K::Xor(a, b) => {
                go(*a, false, seen).or_else(|| go(*b, false, seen))
            }
            K::Ite(c, a, b) => go(*c, false, seen).or_else(|| go(*a, sum, seen)).or_else(|| go(*b, sum, seen)),
            K::Ext(x, _, _) => go(*x, false, seen),
            _ => None,
        };
        r.or(if here && known(e).is_none() { Some(e) } else { None })
    }
    go(e, false, &mut Default::default())
}
pub fn refresh(e: E) -> E {
    let mut memo: FxMap<E, E> = Default::default();
    let mut left = 4000u32;
    unsafe { DEEP = true }
    let r = refresh_d(e, &mut memo, &mut left, 0).unwrap_or(e);
    unsafe { DEEP = false }
    r
}
/// Look harder: a term is being rebuilt for a query.
static mut DEEP: bool = false;
fn refresh_d(e: E, memo: &mut FxMap<E, E>, left: &mut u32, d: u32) -> Option<E> {
    match kind(e) {
        K::Const(_) => return Some(e),
        K::Var(_) => return Some(norm(e)),
        _ => {}
    }
    if let Some(r) = memo.get(&e) {
        return Some(*r);
    }
    if *left == 0 || d > 400 {
        return None;
    }
    *left -= 1;
    let wd = w(e);
    if wd == 1 {
        if let Some(v) = known(e) {
            return Some(boolc(v));
        }
    }
    let mut go = |x: E| refresh_d(x, memo, left, d + 1);
    let r = match kind(e) {
        K::Const(_) | K::Var(_) => e,
        K::Sel(a, i) => sel(*a, go(*i)?),
        K::Lin(c, t) => {
            let mut r = con(*c, wd);
            for (x, k) in t.iter() {
                r = add(r, mulc(go(*x)?, *k));
            }
            r
        }
        K::Cat(p) => {
            let mut v = Vec::with_capacity(p.len());
            for x in p.iter() {
                v.push(go(*x)?);
            }
            cat(v)
        }
        K::Ext(x, h, l) => ext(go(*x)?, *h, *l),
        K::SExt(x) => sext(go(*x)?, wd),
        K::And(a, b) => and(go(*a)?, go(*b)?),
        K::Or(a, b) => or(go(*a)?, go(*b)?),
        K::Xor(a, b) => xor(go(*a)?, go(*b)?),
        K::Shl(a, b) => shl(go(*a)?, go(*b)?),
        K::LShr(a, b) => lshr(go(*a)?, go(*b)?),
        K::AShr(a, b) => ashr(go(*a)?, go(*b)?),
        K::Mul(a, b) => mul(go(*a)?, go(*b)?),
        K::UDiv(a, b) => udiv(go(*a)?, go(*b)?),
        K::URem(a, b) => urem(go(*a)?, go(*b)?),
        K::SDiv(a, b) => sdiv(go(*a)?, go(*b)?),
        K::SRem(a, b) => srem(go(*a)?, go(*b)?),
        K::Eq(a, b) => eq(go(*a)?, go(*b)?),
        K::Ult(a, b) => ult(go(*a)?, go(*b)?),
        K::Ite(c, a, b) => match go(*c)? {
            c if is_true(c) => go(*a)?,
            c if is_false(c) => go(*b)?,
            c => ite(c, go(*a)?, go(*b)?),
        },
    };
    if w(r) != wd {
        return None;
    }
    memo.insert(e, r);
    Some(r)
}

pub fn show(e: E) -> String {
    show_d(e, 0)
}
fn show_d(e: E, d: u32) -> String {
    if d > 7 {
        return "..".into();
    }
    let s = |x: &E| show_d(*x, d + 1);
    match kind(e) {
        K::Const(v) => {
            if *v > 0xffff {
                format!("{v:#x}")
            } else {
                format!("{v}")
            }
        }
        K::Var(id) => cx().vars[*id as usize].name.clone(),
        K::Sel(a, i) => format!("{}[{}]", cx().arrs[*a as usize].name, s(i)),
        K::Lin(c, t) => {
            let wd = w(e);
            let mut o = String::from("(");
            for (x, k) in t.iter() {
                let k = sgn(*k, wd);
                o += &format!("{:+}*{} ", k, s(x));
            }
            o += &format!("{:+})", sgn(*c, wd));
            o
        }
        K::Cat(p) => {
            let mut v = vec![];
            for x in p.iter() {
                v.push(if cval(*x).is_some() { format!("{}'{}", s(x), w(*x)) } else { s(x) });
            }
            format!("{{{}}}", v.join("."))
        }
        K::Ext(x, h, l) => format!("{}[{h}:{l}]", s(x)),
        K::SExt(x) => format!("sx{}({})", w(e), s(x)),
        K::And(a, b) => format!("({} & {})", s(a), s(b)),
        K::Or(a, b) => format!("({} | {})", s(a), s(b)),
        K::Xor(a, b) if cval(*b) == Some(1) && w(e) == 1 => format!("!{}", s(a)),
        K::Xor(a, b) => format!("({} ^ {})", s(a), s(b)),
        K::Shl(a, b) => format!("({} << {})", s(a), s(b)),
        K::LShr(a, b) => format!("({} >> {})", s(a), s(b)),
        K::AShr(a, b) => format!("({} >>s {})", s(a), s(b)),
        K::Mul(a, b) => format!("({} * {})", s(a), s(b)),
        K::UDiv(a, b) => format!("({} / {})", s(a), s(b)),
        K::URem(a, b) => format!("({} % {})", s(a), s(b)),
        K::SDiv(a, b) => format!("({} /s {})", s(a), s(b)),
        K::SRem(a, b) => format!("({} %s {})", s(a), s(b)),
        K::Ite(c, a, b) => format!("({} ? {} : {})", s(c), s(a), s(b)),
        K::Eq(a, b) => format!("({} == {})", s(a), s(b)),
        K::Ult(a, b) => format!("({} < {})", s(a), s(b)),
    }
}
