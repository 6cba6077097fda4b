//! Object memory with symbolic sizes, offsets and copy lengths.
use crate::expr::*;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cell {
    U,
    B(u8),
    /// byte i (little endian) of a term
    P(E, u8),
}

impl Cell {
    pub fn e(self) -> E {
        match self {
            Cell::U => con(0, 8),
            Cell::B(b) => con(b as u128, 8),
            Cell::P(e, i) => ext(e, i as u16 * 8 + 7, i as u16 * 8),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Src {
    Cells(Rc<Vec<Cell>>),
    /// bytes arr[idx], arr[idx+1], ...
    Arr(u32, E),
    Fill(E),
    Snap(Rc<Sparse>, E),
}

#[derive(Clone, Debug)]
pub struct Entry {
    pub off: E,
    pub len: E,
    pub src: Src,
}
#[derive(Clone, Debug)]
pub struct Sparse {
    pub base: Rc<Vec<Cell>>,
    pub zero: bool,
    pub log: Vec<Entry>,
}
#[derive(Clone)]
pub enum Body {
    Dense(Rc<Vec<Cell>>, bool),
    Sparse(Rc<Sparse>),
}
#[derive(Clone)]
pub struct Obj {
    pub size: E,
    pub body: Body,
    pub freed: bool,
    pub ro: bool,
    pub heap: bool,
    pub align: u64,
}

/// Why an operation could not complete on this path as it stands.
#[derive(Debug)]
pub enum Stop {
    /// split the path on this condition and retry
    Fork(E),
    /// the path violates the property or is undefined
    Bad(String),
    /// the engine cannot handle this
    Unsup(String),
    /// split the path into this many copies (a concrete choice)
    Choose(u64),
    /// path ends silently
    End,
}
pub type M<T> = Result<T, Stop>;

pub fn assemble(cells: &[Cell], n: usize) -> E {
    // little-endian
    if let Some(Cell::P(e, 0)) = cells.first() {
        if w(*e) as usize == 8 * n
            && cells.iter().enumerate().all(|(i, c)| matches!(c, Cell::P(x, k) if x == e && *k as usize == i))
        {
            return *e;
        }
    }
    let mut all = true;
    let mut v = 0u128;
    for (i, c) in cells.iter().enumerate() {
        match c {
            Cell::B(b) => v |= (*b as u128) << (8 * i),
            Cell::U => {}
            _ => {
                all = false;
                break;
            }
        }
    }
    if all {
        return con(v, 8 * n as u16);
    }
    cat(cells.iter().rev().map(|c| c.e()).collect())
}
pub fn split_cells(e: E, n: usize) -> Vec<Cell> {
    if let Some(v) = cval(e) {
        return (0..n).map(|i| Cell::B((v >> (8 * i)) as u8)).collect();
    }
    (0..n).map(|i| Cell::P(e, i as u8)).collect()
}

const DENSE_MAX: u64 = 1 << 17;

/// How a copied region's content is described.
pub struct Region {
    pub src: Src,
}

fn off_sub(a: E, b: E) -> E {
    sub(a, b)
}

impl Sparse {
    fn base_cell(&self, i: u64) -> Cell {
        if (i as usize) < self.base.len() {
            self.base[i as usize]
        } else if self.zero {
            Cell::B(0)
        } else {
            Cell::U
        }
    }
    /// n consecutive bytes at offset x as cells.
    pub fn read(&self, x: E, n: usize) -> M<Vec<Cell>> {
        self.read_from(self.log.len(), x, n)
    }
    fn read_from(&self, top: usize, x: E, n: usize) -> M<Vec<Cell>> {
        let xn = add(x, c64(n as u64));
        for k in (0..top).rev() {
            let en = &self.log[k];
            let eend = add(en.off, en.len);
            let a = ule(en.off, x);
            let b = ule(xn, eend);
            let contained = and(a, b);
            if is_true(contained) {
                return src_read(&en.src, off_sub(x, en.off), n);
            }
            let dis = or(ule(xn, en.off), ule(eend, x));
            if is_true(dis) {
                continue;
            }
            if n == 1 {
                // byte: contained or disjoint
                if is_false(contained) {
                    continue;
                }
                if is_false(dis) {
                    return src_read(&en.src, off_sub(x, en.off), n);
                }
                return Err(Stop::Fork(contained));
            }
            // byte by byte from here on
            let mut out = Vec::with_capacity(n);
            for i in 0..n {
                out.extend(self.read_from(k + 1, add(x, c64(i as u64)), 1)?);
            }
            return Ok(out);
        }
        // base
        match cval(x) {
            Some(x) => Ok((0..n).map(|i| self.base_cell(x as u64 + i as u64)).collect()),
            None => {
                if self.base.is_empty() {
                    return Ok(vec![if self.zero { Cell::B(0) } else { Cell::U }; n]);
                }
                dense_sym_read(&self.base, self.zero, x, n)
            }
        }
    }
    /// Description of the region [x, x+len).
    pub fn region(self: &Rc<Self>, x: E, len: E) -> M<Src> {
        let xe = add(x, len);
        for en in self.log.iter().rev() {
            let eend = add(en.off, en.len);
            let contained = and(ule(en.off, x), ule(xe, eend));
            if is_true(contained) {
                let d = off_sub(x, en.off);
                if let Src::Snap(s, o) = &en.src {
                    // a copy of a copy: look for the original
                    return s.region(add(*o, d), len);
                }
                return Ok(src_shift(&en.src, d, len));
            }
            let dis = or(ule(xe, en.off), ule(eend, x));
            if is_true(dis) {
                continue;
            }
            if is_false(contained) {
                break;
            }
            // decide the common case (fully inside) exactly
            return Err(Stop::Fork(contained));
        }
        Ok(Src::Snap(self.clone(), x))
    }
    pub fn push(&mut self, off: E, len: E, src: Src) {
        if let Some(0) = cval(len) {
            return;
        }
        if let (Some(last), Src::Cells(new), Some(n)) = (self.log.last_mut(), &src, cval(len)) {
            if let (Src::Cells(old), Some(_)) = (&mut last.src, cval(last.len)) {
                if let Some(d) = cval(off_sub(off, last.off)) {
                    let d = d as usize;
                    if d <= old.len() && d < 1 << 20 {
                        let v = Rc::make_mut(old);
                        for i in 0..n as usize {
                            if d + i < v.len() {
                                v[d + i] = new[i];
                            } else {
                                v.push(new[i]);
                            }
                        }
                        last.len = c64(v.len() as u64);
                        return;
                    }
                }
            }
        }
        self.log.push(Entry { off, len, src });
    }
}

pub fn src_shift(s: &Src, d: E, len: E) -> Src {
    match s {
        Src::Cells(c) => {
            if let (Some(d), Some(n)) = (cval(d), cval(len)) {
                let (d, n) = (d as usize, n as usize);
                if d + n <= c.len() {
                    return Src::Cells(Rc::new(c[d..d + n].to_vec()));
                }
            }
            if let Some(0) = cval(d) {
                return Src::Cells(c.clone());
            }
            Src::Snap(Rc::new(Sparse { base: c.clone(), zero: false, log: vec![] }), d)
        }
        Src::Arr(a, i) => Src::Arr(*a, add(*i, d)),
        Src::Fill(e) => Src::Fill(*e),
        Src::Snap(s, o) => Src::Snap(s.clone(), add(*o, d)),
    }
}

pub fn src_read(s: &Src, d: E, n: usize) -> M<Vec<Cell>> {
    match s {
        Src::Cells(c) => match cval(d) {
            Some(d) => Ok((0..n).map(|i| c.get(d as usize + i).copied().unwrap_or(Cell::U)).collect()),
            None => dense_sym_read(c, false, d, n),
        },
        Src::Arr(a, i) => {
            let b = add(*i, d);
            Ok((0..n)
                .map(|k| {
                    let e = sel(*a, add(b, c64(k as u64)));
                    match cval(e) {
                        Some(v) => Cell::B(v as u8),
                        None => Cell::P(e, 0),
                    }
                })
                .collect())
        }
        Src::Fill(e) => Ok(vec![
            match cval(*e) {
                Some(v) => Cell::B(v as u8),
                None => Cell::P(*e, 0),
            };
            n
        ]),
        Src::Snap(s, o) => s.read(add(*o, d), n),
    }
}

fn cell_at(c: &[Cell], zero: bool, i: u64) -> Cell {
    if (i as usize) < c.len() {
        c[i as usize]
    } else if zero {
        Cell::B(0)
    } else {
        Cell::U
    }
}

/// Read n bytes at a symbolic offset of a concrete-layout object.
pub fn dense_sym_read(c: &Rc<Vec<Cell>>, zero: bool, x: E, n: usize) -> M<Vec<Cell>> {
    if n > 8 {
        let mut out = Vec::with_capacity(n);
        for i in 0..n {
            out.extend(dense_sym_read(c, zero, add(x, c64(i as u64)), 1)?);
        }
        return Ok(out);
    }
    let (lo, hi) = rng(x);
    let hi = hi.min((c.len() + 16) as u128) as u64;
    let lo = lo as u64;
    // granularity
    let mut g = n.max(1) as u64;
    if !g.is_power_of_two() {
        g = 1;
    }
    while g > 1 {
        let k = g.trailing_zeros() as u16;
        if cval(ext(x, k - 1, 0)).is_some() {
            break;
        }
        g /= 2;
    }
    let start = if g > 1 {
        let k = g.trailing_zeros() as u16;
        let r = cval(ext(x, k - 1, 0)).unwrap() as u64;
        let mut s = lo / g * g + r;
        if s < lo {
            s += g;
        }
        s
    } else {
        lo
    };
    let cnt = if hi >= start { (hi - start) / g + 1 } else { 1 };
    if cnt > 4096 {
        return Err(Stop::Unsup(format!("symbolic read over {cnt} positions")));
    }
    let val = |i: u64| -> E {
        let v: Vec<Cell> = (0..n as u64).map(|k| cell_at(c, zero, i + k)).collect();
        assemble(&v, n)
    };
    // runs of equal values, from the highest position down: (lowest position, value)
    let mut acc: Option<E> = None;
    let mut head: Option<E> = None;
    let mut i = start + (cnt - 1) * g;
    loop {
        let v = val(i);
        // below the lowest position of the run above, the value is this one
        acc = Some(match acc {
            None => v,
            Some(a) if head == Some(v) => a,
            Some(a) => ite(ult(x, c64(i + 1)), v, a),
        });
        head = Some(v);
        if i < start + g {
            break;
        }
        i -= g;
    }
    Ok(split_cells(acc.unwrap(), n))
}

impl Obj {
    pub fn new(size: E, zero: bool, heap: bool) -> Obj {
        Obj {
            size,
            body: Body::Dense(Rc::new(vec![]), zero),
            freed: false,
            ro: false,
            heap,
            align: 1,
        }
    }
    pub fn to_sparse(&mut self) -> &mut Sparse {
        if let Body::Dense(c, z) = &self.body {
            self.body = Body::Sparse(Rc::new(Sparse { base: c.clone(), zero: *z, log: vec![] }));
        }
        match &mut self.body {
            Body::Sparse(s) => Rc::make_mut(s),
            _ => unreachable!(),
        }
    }
    pub fn read(&self, x: E, n: usize) -> M<Vec<Cell>> {
        match &self.body {
            Body::Dense(c, z) => match cval(x) {
                Some(x) => Ok((0..n as u64).map(|i| cell_at(c, *z, x as u64 + i)).collect()),
                None => dense_sym_read(c, *z, x, n),
            },
            Body::Sparse(s) => s.read(x, n),
        }
    }
    pub fn write(&mut self, x: E, cells: &[Cell]) {
        if let Some(o) = cval(x) {
            let o = o as u64;
            if let Body::Dense(c, z) = &mut self.body {
                if o + (cells.len() as u64) <= DENSE_MAX {
                    let fill = if *z { Cell::B(0) } else { Cell::U };
                    let v = Rc::make_mut(c);
                    let need = o as usize + cells.len();
                    if v.len() < need {
                        v.resize(need, fill);
                    }
                    v[o as usize..need].copy_from_slice(cells);
                    return;
                }
            }
        }
        let n = c64(cells.len() as u64);
        self.to_sparse().push(x, n, Src::Cells(Rc::new(cells.to_vec())));
    }
    pub fn region(&self, x: E, len: E) -> M<Src> {
        if let (Body::Dense(..), Some(_), Some(n)) = (&self.body, cval(x), cval(len)) {
            if n <= 1 << 16 {
                return Ok(Src::Cells(Rc::new(self.read(x, n as usize)?)));
            }
        }
        match &self.body {
            Body::Dense(c, z) => {
                Ok(Src::Snap(Rc::new(Sparse { base: c.clone(), zero: *z, log: vec![] }), x))
            }
            Body::Sparse(s) => {
                if let Some(n) = cval(len) {
                    if n <= 64 {
                        // small constant copies of scalar cells stay scalar when cheap
                        if let Src::Cells(c) = s.region(x, len)? {
                            return Ok(Src::Cells(c));
                        }
                    }
                }
                s.region(x, len)
            }
        }
    }
    pub fn put_region(&mut self, x: E, len: E, src: Src) -> M<()> {
        if let (Some(_), Some(n), Body::Dense(..)) = (cval(x), cval(len), &self.body) {
            // copies of areas of symbolic layout stay what they are
            if n <= if matches!(src, Src::Snap(..)) { 64 } else { 4096 } {
                let cells = match src_read(&src, c64(0), n as usize) {
                    Ok(c) => c,
                    Err(e) => return Err(e),
                };
                self.write(x, &cells);
                return Ok(());
            }
        }
        if let Some(0) = cval(len) {
            return Ok(());
        }
        self.to_sparse().push(x, len, src);
        Ok(())
    }
}

/// Whether bytes [x, x+n) of a region certainly are ASCII.
pub fn certainly_ascii(src: &Src, x: E, n: E) -> bool {
    let low = |c: &Cell| match c {
        Cell::U => true,
        c => rng(c.e()).1 < 128,
    };
    let xe = add(x, n);
    let (lo, hi) = (rng(x).0 as usize, rng(xe).1.min(1 << 40) as usize);
    let cells = |c: &[Cell]| lo <= c.len() && c[lo..hi.min(c.len())].iter().all(low);
    match src {
        Src::Cells(c) => cells(c),
        Src::Arr(a, _) => cx().arrs[*a as usize].max < 128,
        Src::Fill(e) => rng(*e).1 < 128,
        Src::Snap(s, o) => {
            let (x, xe) = (add(*o, x), add(*o, xe));
            for en in s.log.iter().rev() {
                let eend = add(en.off, en.len);
                if is_true(or(ule(xe, en.off), ule(eend, x))) {
                    continue;
                }
                if is_true(and(ule(en.off, x), ule(xe, eend))) {
                    return certainly_ascii(&en.src, off_sub(x, en.off), n);
                }
                if !certainly_ascii(&en.src, c64(0), en.len) {
                    return false;
                }
            }
            let (lo, hi) = (rng(x).0 as usize, rng(xe).1.min(1 << 40) as usize);
            lo >= s.base.len() || s.base[lo..hi.min(s.base.len())].iter().all(low)
        }
    }
}
