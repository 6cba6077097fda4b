//! Path-forking symbolic executor for LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

pub const ID_SHIFT: u32 = 36;
pub const OBJ_MID: u64 = 1 << 35;
const GLOBAL_ID0: u64 = 1 << 22;
const FUNC_ID0: u64 = 1 << 24;

pub fn base_of(id: u64) -> u64 {
    (id << ID_SHIFT) | OBJ_MID
}

#[derive(Clone, Debug)]
pub enum Val {
    U,
    I(E),
    A(Rc<Vec<Val>>),
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub bb: usize,
    pub ip: usize,
    pub vals: Vec<Val>,
    pub allocas: Vec<u64>,
    pub ret: Option<u32>,
    pub cont_bb: Option<usize>,
}

#[derive(Clone)]
pub enum Inp {
    Scalar(E),
    Choice(u64),
    Bytes(u32, E),
}

#[derive(Clone)]
pub struct MStore {
    chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    pub next: u64,
    globals: Rc<HashMap<u64, Rc<Obj>>>,
}
impl MStore {
    fn new() -> Self {
        MStore { chunks: vec![], next: 1, globals: Rc::new(HashMap::new()) }
    }
    fn get(&self, id: u64) -> Option<&Rc<Obj>> {
        if id >= GLOBAL_ID0 {
            return self.globals.get(&id);
        }
        self.chunks.get((id / 64) as usize).and_then(|c| c.get((id % 64) as usize)).and_then(|o| o.as_ref())
    }
    fn set(&mut self, id: u64, o: Option<Rc<Obj>>) {
        if id >= GLOBAL_ID0 {
            let g = Rc::make_mut(&mut self.globals);
            match o {
                Some(o) => {
                    g.insert(id, o);
                }
                None => {
                    g.remove(&id);
                }
            }
            return;
        }
        let c = (id / 64) as usize;
        while self.chunks.len() <= c {
            self.chunks.push(Rc::new(vec![None; 64]));
        }
        Rc::make_mut(&mut self.chunks[c])[(id % 64) as usize] = o;
    }
    fn get_mut(&mut self, id: u64) -> Option<&mut Obj> {
        if id >= GLOBAL_ID0 {
            return Rc::make_mut(&mut self.globals).get_mut(&id).map(Rc::make_mut);
        }
        let c = (id / 64) as usize;
        if c >= self.chunks.len() {
            return None;
        }
        Rc::make_mut(&mut self.chunks[c])[(id % 64) as usize].as_mut().map(Rc::make_mut)
    }
}

pub struct MCache {
    m: Model,
    memo: FxMap<E, u128>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: MStore,
    pub facts: Facts,
    pub pc: Vec<E>,
    pub model: Option<Rc<RefCell<MCache>>>,
    pub inputs: Vec<Inp>,
    pub steps: u64,
    pub depth: u32,
    pub fresh: Option<E>,
    pub utf: FxMap<(u32, E, E), E>,
    pub retries: u32,
    pub covers: Vec<u64>,
    /// bytes allocated so far
    pub heap: E,
    /// values still open at the pending choice
    pub choice: Option<(u64, u64)>,
}

pub struct Global {
    pub id: u64,
    pub module: usize,
    pub name: String,
}

pub struct Violation {
    pub msg: String,
    pub stack: Vec<String>,
    pub model: Model,
    pub inputs: Vec<Inp>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub forks: u64,
    pub steps: u64,
    pub asserts: u64,
    pub covers: BTreeMap<u64, u64>,
    pub fns: BTreeSet<String>,
    pub unsup: BTreeMap<String, u64>,
    pub unknown: u64,
    pub killed: u64,
    pub sample: Vec<String>,
    pub next_sample: u64,
}

pub struct Exec {
    pub mods: Vec<Module>,
    pub funcs: HashMap<(usize, String), Rc<Func>>,
    pub fn_home: HashMap<String, usize>,
    pub gl_home: HashMap<String, usize>,
    pub gl_ids: HashMap<(usize, String), u64>,
    pub gl_objs: HashMap<u64, Rc<Obj>>,
    pub gl_list: Vec<(usize, String)>,
    pub fn_ids: HashMap<String, u64>,
    pub fn_list: Vec<(usize, String)>,
    pub z3: Z3,
    pub work: Vec<State>,
    pub st: Stats,
    pub param: u64,
    pub deadline: Instant,
    tick: u32,
    pub slow: f64,
    pub stop: bool,
    pub viol: Vec<Violation>,
    pub max_steps: u64,
    pub real_utf8: bool,
    pub intr: HashMap<String, u32>,
    pub on_fork: Option<Box<dyn FnMut(&mut Exec) -> bool>>,
    pub on_violation: Option<Box<dyn FnMut(&Violation) -> bool>>,
    pub check_stop: Option<Box<dyn FnMut() -> bool>>,
    pub trace: bool,
    pub prof: Option<HashMap<String, u64>>,
}

enum Dec {
    T,
    F,
    Both(Option<Model>, Option<Model>),
}

fn bad<T>(s: impl Into<String>) -> M<T> {
    Err(Stop::Bad(s.into()))
}
fn unsup<T>(s: impl Into<String>) -> M<T> {
    Err(Stop::Unsup(s.into()))
}

impl Exec {
    pub fn new(paths: &[String], rlimit: u32) -> Exec {
        let mods: Vec<Module> = paths.iter().enumerate().map(|(i, p)| Module::index(p, i)).collect();
        let mut fn_home = HashMap::new();
        let mut gl_home = HashMap::new();
        for (i, m) in mods.iter().enumerate() {
            for (n, d) in &m.fns {
                if !d.internal {
                    fn_home.entry(n.clone()).or_insert(i);
                }
            }
            for (n, g) in &m.globals {
                if !g.internal {
                    // prefer a definition over a declaration
                    let t = &m.text[g.line.0..g.line.1.min(g.line.0 + 60)];
                    let ext = String::from_utf8_lossy(t).contains("external");
                    if !ext {
                        gl_home.entry(n.clone()).or_insert(i);
                    }
                }
            }
        }
        Exec {
            mods,
            funcs: HashMap::new(),
            fn_home,
            gl_home,
            gl_ids: HashMap::new(),
            gl_objs: HashMap::new(),
            gl_list: vec![],
            fn_ids: HashMap::new(),
            fn_list: vec![],
            z3: Z3::new(rlimit),
            work: vec![],
            st: Stats::default(),
            param: 0,
            tick: 0,
            deadline: Instant::now() + std::time::Duration::from_secs(3600),
            slow: std::env::var("SYMEX_SLOW").ok().and_then(|x| x.parse().ok()).unwrap_or(0.0),
            stop: false,
            viol: vec![],
            max_steps: 50_000_000,
            real_utf8: false,
            intr: HashMap::new(),
            on_fork: None,
            on_violation: None,
            check_stop: None,
            trace: false,
            prof: None,
        }
    }

    // ------------------------------------------------------------ symbols

    fn fn_module(&self, from: usize, name: &str) -> Option<usize> {
        if self.mods[from].fns.contains_key(name) {
            return Some(from);
        }
        self.fn_home.get(name).copied()
    }
    fn func(&mut self, module: usize, name: &str) -> M<Rc<Func>> {
        let key = (module, name.to_string());
        if let Some(f) = self.funcs.get(&key) {
            return Ok(f.clone());
        }
        let m = &self.mods[module];
        let d = &m.fns[name];
        match Parser::new(m, d.start, d.end).function(d, name) {
            Ok(f) => {
                let f = Rc::new(f);
                self.funcs.insert(key, f.clone());
                Ok(f)
            }
            Err(e) => unsup(format!("parse {name}: {e}")),
        }
    }
    fn fn_addr(&mut self, from: usize, name: &str) -> u64 {
        let md = self.fn_module(from, name).unwrap_or(from);
        let internal = self.mods[md].fns.get(name).map(|d| d.internal).unwrap_or(false);
        let key = if internal { format!("{md}!{name}") } else { name.to_string() };
        if let Some(i) = self.fn_ids.get(&key) {
            return base_of(*i);
        }
        let id = FUNC_ID0 + self.fn_list.len() as u64;
        self.fn_list.push((md, name.to_string()));
        self.fn_ids.insert(key, id);
        base_of(id)
    }
    fn global_addr(&mut self, from: usize, name: &str) -> M<u64> {
        let m = &self.mods[from];
        if m.fns.contains_key(name) || m.decls.contains_key(name) {
            return Ok(self.fn_addr(from, name));
        }
        let local = m.globals.get(name).map(|g| {
            let t = &m.text[g.line.0..g.line.1.min(g.line.0 + 60)];
            (g.internal, String::from_utf8_lossy(t).contains("external"))
        });
        let md = match local {
            Some((true, _)) | Some((_, false)) => from,
            _ => self.gl_home.get(name).copied().unwrap_or(from),
        };
        let key = (md, name.to_string());
        if let Some(i) = self.gl_ids.get(&key) {
            return Ok(base_of(*i));
        }
        // alias?
        if let Some(g) = self.mods[md].globals.get(name) {
            let (s, e) = g.line;
            let p = Parser::new(&self.mods[md], s, e);
            if let Ok((Ty::Void, Some(C::Agg(v, _)))) = p.global() {
                if let C::Global(t) = &v[0] {
                    let t = t.clone();
                    return self.global_addr(md, &t);
                }
            }
        } else if self.fn_home.contains_key(name) {
            return Ok(self.fn_addr(from, name));
        }
        let id = GLOBAL_ID0 + self.gl_list.len() as u64;
        self.gl_list.push(key.clone());
        self.gl_ids.insert(key, id);
        Ok(base_of(id))
    }
    fn global_obj(&mut self, id: u64) -> M<Rc<Obj>> {
        if let Some(o) = self.gl_objs.get(&id) {
            return Ok(o.clone());
        }
        let k = (id - GLOBAL_ID0) as usize;
        if k >= self.gl_list.len() {
            return bad("access through an invalid pointer");
        }
        let (md, name) = self.gl_list[k].clone();
        let m = &self.mods[md];
        let g = match m.globals.get(&name) {
            Some(g) => g,
            None => return unsup(format!("undefined global {name}")),
        };
        let (s, e) = g.line;
        let (t, c) = match Parser::new(m, s, e).global() {
            Ok(x) => x,
            Err(e) => return unsup(format!("global {name}: {e}")),
        };
        let c = match c {
            Some(c) => c,
            None => return unsup(format!("external global {name}")),
        };
        let mut cells = vec![Cell::B(0); t.size() as usize];
        self.init_cells(md, &c, &t, 0, &mut cells)?;
        let o = Obj {
            size: c64(t.size()),
            body: Body::Dense(Rc::new(cells), true),
            freed: false,
            ro: false,
            heap: false,
            align: 16,
        };
        let o = Rc::new(o);
        self.gl_objs.insert(id, o.clone());
        Ok(o)
    }
    fn init_cells(&mut self, md: usize, c: &C, t: &Ty, off: usize, out: &mut Vec<Cell>) -> M<()> {
        match c {
            C::Zero(_) | C::Null => {}
            C::Undef(_) => {
                for i in 0..t.size() as usize {
                    out[off + i] = Cell::U;
                }
            }
            C::Str(s) => {
                for (i, b) in s.iter().enumerate() {
                    out[off + i] = Cell::B(*b);
                }
            }
            C::Agg(v, _) => {
                for (i, x) in v.iter().enumerate() {
                    let (o, ft) = t.field(i as u64);
                    self.init_cells(md, x, &ft, off + o as usize, out)?;
                }
            }
            _ => {
                let e = self.cst(md, c, t)?;
                if let Val::I(e) = e {
                    let n = t.size() as usize;
                    let e = if (w(e) as usize) < 8 * n { zext(e, 8 * n as u16) } else { e };
                    let cells = split_cells(e, n);
                    out[off..off + n].copy_from_slice(&cells);
                }
            }
        }
        Ok(())
    }
    fn cst(&mut self, md: usize, c: &C, t: &Ty) -> M<Val> {
        Ok(match c {
            C::Int(w, v) => Val::I(con(*v, *w)),
            C::Null => Val::I(c64(0)),
            C::Undef(t) | C::Zero(t) => self.zero_val(t),
            C::Agg(v, at) => {
                let mut out = vec![];
                for (i, x) in v.iter().enumerate() {
                    let (_, ft) = at.field(i as u64);
                    out.push(self.cst(md, x, &ft)?);
                }
                Val::A(Rc::new(out))
            }
            C::Str(s) => Val::A(Rc::new(s.iter().map(|b| Val::I(con(*b as u128, 8))).collect())),
            C::Global(n) => Val::I(c64(self.global_addr(md, n)?)),
            C::Gep(b, o) => {
                let v = self.cst(md, b, &Ty::Ptr)?;
                Val::I(add(self.as_i(&v), c64(*o as u64)))
            }
            C::IntToPtr(b) => {
                let v = self.cst(md, b, t)?;
                let e = self.as_i(&v);
                Val::I(if w(e) < 64 { zext(e, 64) } else if w(e) > 64 { trunc(e, 64) } else { e })
            }
            C::PtrToInt(b, wd) => {
                let v = self.cst(md, b, t)?;
                let e = self.as_i(&v);
                Val::I(if w(e) > *wd { trunc(e, *wd) } else { zext(e, *wd) })
            }
            C::Bin(o, a, b, _) => {
                let (x, y) = (self.cst(md, a, t)?, self.cst(md, b, t)?);
                let (x, y) = (self.as_i(&x), self.as_i(&y));
                Val::I(match o.as_str() {
                    "add" => add(x, y),
                    "sub" => sub(x, y),
                    "mul" => mul(x, y),
                    "and" => and(x, y),
                    "or" => or(x, y),
                    "xor" => xor(x, y),
                    _ => shl(x, y),
                })
            }
        })
    }
    fn zero_val(&self, t: &Ty) -> Val {
        if t.is_agg() {
            let n = t.nfields();
            Val::A(Rc::new((0..n).map(|i| self.zero_val(&t.field(i as u64).1)).collect()))
        } else if t.width() > 0 {
            Val::I(con(0, t.width()))
        } else {
            Val::U
        }
    }
    fn as_i(&self, v: &Val) -> E {
        match v {
            Val::I(e) => *e,
            _ => c64(0),
        }
    }
    fn op(&mut self, s: &State, o: &Op, t: &Ty) -> M<Val> {
        match o {
            Op::R(r) => Ok(match &s.frames.last().unwrap().vals[*r as usize] {
                Val::U => self.zero_val(t),
                v => v.clone(),
            }),
            Op::K(C::Int(w, v)) => Ok(Val::I(con(*v, *w))),
            Op::K(c) => {
                let md = s.frames.last().unwrap().f.module;
                self.cst(md, c, t)
            }
        }
    }
    fn opi(&mut self, s: &State, o: &Op, t: &Ty) -> M<E> {
        let v = self.op(s, o, t)?;
        Ok(self.as_i(&v))
    }

    // ------------------------------------------------------------ memory

    /// Split a pointer into object id and offset.
    fn resolve(&mut self, p: E) -> M<(u64, E)> {
        if let Some(v) = cval(p) {
            let v = v as u64;
            let id = v >> ID_SHIFT;
            return Ok((id, c64(v.wrapping_sub(base_of(id)))));
        }
        let (l, h) = rng(p);
        if l == h {
            return self.resolve(con(l, 64));
        }
        match kind(p) {
            K::Lin(c, t) => {
                let c = *c as u64;
                let id = c >> ID_SHIFT;
                if id > 0 && id < 1 << 26 {
                    return Ok((id, sub(p, c64(base_of(id)))));
                }
                for (x, _) in t.iter() {
                    if let K::Ite(cnd, _, _) = kind(*x) {
                        return Err(Stop::Fork(*cnd));
                    }
                }
                unsup(format!("pointer {}", show(p)))
            }
            K::Ite(c, _, _) => Err(Stop::Fork(*c)),
            K::Cat(ps) => {
                for x in ps.iter() {
                    if let K::Ite(c, _, _) = kind(*x) {
                        return Err(Stop::Fork(*c));
                    }
                }
                // base with low bits replaced by a term
                if l >> ID_SHIFT == h >> ID_SHIFT && l >> ID_SHIFT > 0 {
                    let id = (l >> ID_SHIFT) as u64;
                    return Ok((id, sub(p, c64(base_of(id)))));
                }
                unsup(format!("pointer {}", show(p)))
            }
            _ => {
                if l >> ID_SHIFT == h >> ID_SHIFT && l >> ID_SHIFT > 0 {
                    let id = (l >> ID_SHIFT) as u64;
                    return Ok((id, sub(p, c64(base_of(id)))));
                }
                unsup(format!("pointer {}", show(p)))
            }
        }
    }
    fn obj(&mut self, s: &mut State, id: u64) -> M<Rc<Obj>> {
        if id >= FUNC_ID0 {
            return bad("data access to code");
        }
        if let Some(o) = s.mem.get(id) {
            if o.freed {
                return bad("use after free");
            }
            return Ok(o.clone());
        }
        if id >= GLOBAL_ID0 {
            let o = self.global_obj(id)?;
            s.mem.set(id, Some(o.clone()));
            return Ok(o);
        }
        bad(format!("access through an invalid pointer (object {id})"))
    }
    fn bounds(&mut self, o: &Obj, off: E, n: E) -> M<()> {
        let c = and(ule(off, o.size), ule(add(off, n), o.size));
        if is_true(c) {
            return Ok(());
        }
        if is_false(c) {
            return bad("out-of-bounds memory access");
        }
        Err(Stop::Fork(c))
    }
    fn load(&mut self, s: &mut State, p: E, t: &Ty) -> M<Val> {
        let (id, off) = self.resolve(p)?;
        let o = self.obj(s, id)?;
        self.bounds(&o, off, c64(t.size()))?;
        self.load_at(&o, off, t)
    }
    fn load_at(&mut self, o: &Obj, off: E, t: &Ty) -> M<Val> {
        if t.is_agg() {
            let n = t.nfields();
            let mut v = Vec::with_capacity(n);
            for i in 0..n {
                let (fo, ft) = t.field(i as u64);
                v.push(self.load_at(o, add(off, c64(fo)), &ft)?);
            }
            return Ok(Val::A(Rc::new(v)));
        }
        let n = t.size() as usize;
        if n == 0 {
            return Ok(Val::U);
        }
        let cells = o.read(off, n)?;
        let e = assemble(&cells, n);
        let wd = t.width();
        Ok(Val::I(if w(e) > wd { trunc(e, wd) } else { e }))
    }
    fn store(&mut self, s: &mut State, p: E, t: &Ty, v: &Val) -> M<()> {
        let (id, off) = self.resolve(p)?;
        let o = self.obj(s, id)?;
        self.bounds(&o, off, c64(t.size()))?;
        drop(o);
        self.store_at(s, id, off, t, v)
    }
    fn store_at(&mut self, s: &mut State, id: u64, off: E, t: &Ty, v: &Val) -> M<()> {
        if t.is_agg() {
            let n = t.nfields();
            for i in 0..n {
                let (fo, ft) = t.field(i as u64);
                let fv = match v {
                    Val::A(a) => a[i].clone(),
                    _ => self.zero_val(&ft),
                };
                self.store_at(s, id, add(off, c64(fo)), &ft, &fv)?;
            }
            return Ok(());
        }
        let n = t.size() as usize;
        if n == 0 {
            return Ok(());
        }
        let e = match v {
            Val::I(e) => *e,
            _ => con(0, 8 * n as u16),
        };
        let e = if (w(e) as usize) < 8 * n { zext(e, 8 * n as u16) } else { e };
        let cells = split_cells(e, n);
        s.mem.get_mut(id).unwrap().write(off, &cells);
        Ok(())
    }
    pub fn alloc(&mut self, s: &mut State, size: E, zero: bool, heap: bool) -> u64 {
        let id = s.mem.next;
        s.mem.next += 1;
        s.mem.set(id, Some(Rc::new(Obj::new(size, zero, heap))));
        id
    }
    fn memcpy(&mut self, s: &mut State, d: E, p: E, n: E) -> M<()> {
        if let Some(0) = cval(n) {
            return Ok(());
        }
        let (l, h) = rng(n);
        let n = if l == h { con(l, 64) } else { n };
        if cval(n) == Some(0) {
            return Ok(());
        }
        // a possibly empty copy may use dangling pointers
        let dang = |p: E| cval(p).map(|v| (v as u64) >> ID_SHIFT == 0).unwrap_or(false);
        if dang(d) || dang(p) {
            let z = eq(n, c64(0));
            if is_true(z) {
                return Ok(());
            }
            if is_false(z) {
                return bad("copy through an invalid pointer");
            }
            return Err(Stop::Fork(z));
        }
        let (sid, so) = self.resolve(p)?;
        let (did, d_o) = self.resolve(d)?;
        let src = self.obj(s, sid)?;
        self.bounds(&src, so, n)?;
        let dst = self.obj(s, did)?;
        self.bounds(&dst, d_o, n)?;
        let rg = src.region(so, n)?;
        drop(dst);
        drop(src);
        // check first that materialising succeeds without side effects
        let mut o2 = (**s.mem.get(did).unwrap()).clone();
        o2.put_region(d_o, n, rg)?;
        s.mem.set(did, Some(Rc::new(o2)));
        Ok(())
    }

    /// Single-source description of [p, p+n).
    fn region_of(&mut self, s: &mut State, p: E, n: E) -> M<Src> {
        let (id, off) = self.resolve(p)?;
        let o = self.obj(s, id)?;
        self.bounds(&o, off, n)?;
        o.region(off, n)
    }

    /// Result of comparing [a,a+n) and [b,b+n): 0 when equal.
    fn memcmp(&mut self, s: &mut State, a: E, b: E, n: E, order: bool) -> M<E> {
        let (l, h) = rng(n);
        let n = if l == h { con(l, 64) } else { n };
        if cval(n) == Some(0) || a == b {
            return Ok(con(0, 32));
        }
        let z = eq(n, c64(0));
        if is_true(z) {
            return Ok(con(0, 32));
        }
        if !is_false(z) {
            return Err(Stop::Fork(z));
        }
        let ra = self.region_of(s, a, n)?;
        let rb = self.region_of(s, b, n)?;
        if let (Src::Arr(x, i), Src::Arr(y, j)) = (&ra, &rb) {
            if x == y && is_true(eq(*i, *j)) {
                return Ok(con(0, 32));
            }
        }
        if let Some(k) = cval(n) {
            if k <= 512 {
                let k = k as usize;
                let ca = src_read(&ra, c64(0), k)?;
                let cb = src_read(&rb, c64(0), k)?;
                let mut all = tru();
                let mut res = con(0, 32);
                for i in (0..k).rev() {
                    let (x, y) = (ca[i].e(), cb[i].e());
                    let e = eq(x, y);
                    all = and(all, e);
                    if order {
                        res = ite(e, res, ite(ult(x, y), con(u32::MAX as u128, 32), con(1, 32)));
                    }
                }
                if order {
                    return Ok(res);
                }
                return Ok(ite(all, con(0, 32), con(1, 32)));
            }
        }
        // witness index: explored for every position inside the region
        let i = match s.fresh {
            Some(i) => i,
            None => {
                let v = var("cmp_idx", 64);
                s.fresh = Some(v);
                v
            }
        };
        let inr = ult(i, n);
        if !is_true(inr) {
            self.assume(s, inr)?;
        }
        let x = src_read(&ra, i, 1)?[0].e();
        let y = src_read(&rb, i, 1)?[0].e();
        let e = eq(x, y);
        if is_true(e) {
            return Ok(con(0, 32));
        }
        if is_false(e) {
            let c = ult(x, y);
            return Ok(ite(c, con(u32::MAX as u128, 32), con(1, 32)));
        }
        Err(Stop::Fork(e))
    }

    fn assume(&mut self, s: &mut State, c: E) -> M<()> {
        if is_true(c) {
            return Ok(());
        }
        if is_false(c) {
            return Err(Stop::End);
        }
        match self.decide(s, c) {
            Ok(Dec::T) => {
                self.learn(s, c, true);
                Ok(())
            }
            Ok(Dec::F) => Err(Stop::End),
            Ok(Dec::Both(m, _)) => {
                self.take(s, c, true, m);
                Ok(())
            }
            Err(e) => Err(e),
        }
    }

    // ------------------------------------------------------------ solving

    fn learn(&mut self, s: &mut State, c: E, v: bool) {
        let f: *const Facts = &s.facts;
        set_facts(f);
        // learn() reads the current facts through the context while updating
        let mut nf = std::mem::take(&mut s.facts);
        set_facts(&nf as *const Facts);
        nf.learn(c, v);
        s.facts = nf;
        set_facts(&s.facts as *const Facts);
    }
    /// Enter one side of a two-sided branch.
    fn take(&mut self, s: &mut State, c: E, v: bool, m: Option<Model>) {
        s.pc.push(if v { c } else { not_raw(c) });
        if let Some(m) = m {
            s.model = Some(Rc::new(RefCell::new(MCache { m, memo: Default::default() })));
        }
        self.learn(s, c, v);
    }
    fn model_says(&self, s: &State, c: E) -> Option<bool> {
        let m = s.model.as_ref()?;
        let mut g = m.borrow_mut();
        let g = &mut *g;
        let memo = std::mem::take(&mut g.memo);
        let mut ev = Eval { m: &g.m, memo };
        let v = ev.ev(c) == 1;
        let memo = ev.memo;
        g.memo = memo;
        Some(v)
    }
    /// Debugging: the inputs of one run (SYMEX_ORACLE names a replay file), to be followed.
    fn oracle() -> &'static [Vec<String>] {
        static O: std::sync::OnceLock<Vec<Vec<String>>> = std::sync::OnceLock::new();
        O.get_or_init(|| match std::env::var("SYMEX_ORACLE") {
            Ok(f) => std::fs::read_to_string(f)
                .unwrap()
                .lines()
                .filter(|l| !l.starts_with('#'))
                .map(|l| l.split(' ').map(|x| x.to_string()).collect())
                .collect(),
            Err(_) => vec![],
        })
    }
    fn oracle_input(&self, s: &mut State, e: Option<E>, arr: Option<u32>) {
        let Some(l) = Self::oracle().get(s.inputs.len()) else { return };
        let mut m = s.model.as_ref().map(|m| m.borrow().m.clone()).unwrap_or_default();
        if let Some(e) = e {
            let mut e = e;
            while let K::Cat(p) = kind(e) {
                e = p[p.len() - 1];
            }
            if let K::Var(v) = kind(e) {
                m.vars.insert(*v, l[1].parse().unwrap());
            }
        }
        if let Some(a) = arr {
            for x in &l[2..] {
                let (i, b) = x.split_once(':').unwrap();
                m.arrs.entry(a).or_default().insert(i.parse().unwrap(), b.parse().unwrap());
            }
        }
        s.model = Some(Rc::new(RefCell::new(MCache { m, memo: Default::default() })));
    }
    fn oracle_val(&self, s: &State, e: E) -> u128 {
        let g = s.model.as_ref().unwrap().borrow();
        Eval::new(&g.m).ev(e)
    }
    fn validate(&self, pc: &[E], c: E, m: &Model) -> bool {
        let mut ev = Eval::new(m);
        pc.iter().all(|p| ev.ev(*p) == 1) && ev.ev(c) == 1
    }
    fn decide(&mut self, s: &mut State, c: E) -> M<Dec> {
        if !Self::oracle().is_empty() {
            let v = self.oracle_val(s, c) == 1;
            let k = known(c);
            if k.is_some() && k != Some(v) {
                eprintln!("ORACLE: known {:?} but {v}: {}", k, show(c));
            }
            let r = refresh(c);
            if (self.oracle_val(s, r) == 1) != v {
                eprintln!("ORACLE: refreshed {v}\n  {}\n  {}", show(c), show(r));
            }
            let d = self.decide1(s, c)?;
            let bad = matches!((&d, v), (Dec::T, false) | (Dec::F, true));
            if bad {
                eprintln!("ORACLE: decided {} but {v}: {}\n {}", !v, show(c), show(r));
                for p in &s.pc {
                    eprintln!("   {} {}", self.oracle_val(s, *p), show(*p));
                }
            }
            return Ok(d);
        }
        self.decide1(s, c)
    }
    fn decide1(&mut self, s: &mut State, c: E) -> M<Dec> {
        match known(c) {
            Some(true) => return Ok(Dec::T),
            Some(false) => return Ok(Dec::F),
            None => {}
        }
        let c = refresh(c);
        match known(c) {
            Some(true) => return Ok(Dec::T),
            Some(false) => return Ok(Dec::F),
            None => {}
        }
        let nc = not_raw(c);
        let mut q = |ex: &mut Exec, s: &State, c: E| -> M<Option<Model>> {
            if let Some((f, ask)) = linear(c) {
                let (r, vals) = ex.z3.lia(&facts().rel, &f, ask);
                match r {
                    Sat::Unsat => return Ok(None),
                    Sat::Sat => {
                        let mut m = match &s.model {
                            Some(m) => m.borrow().m.clone(),
                            None => Model::default(),
                        };
                        for (e, v) in vals {
                            if let K::Var(id) = kind(e) {
                                m.vars.insert(*id, v);
                            }
                        }
                        for (e, g) in facts().sub.iter() {
                            if let K::Var(id) = kind(*e) {
                                let mut ev = Eval::new(&m);
                                let v = g.t.iter().fold(g.c, |a, (x, k)| a.wrapping_add((ev.ev(*x) as i128).wrapping_mul(*k)));
                                if v >= 0 {
                                    m.vars.insert(*id, v as u128 & mask(w(*e)));
                                }
                            }
                        }
                        if ex.validate(&s.pc, c, &m) {
                            ex.z3.st.queries += 1;
                            ex.z3.st.sat += 1;
                            return Ok(Some(m));
                        }
                    }
                    Sat::Unknown => {}
                }
            }
            let t0 = Instant::now();
            let (r, m) = ex.z3.check(&s.pc, c);
            if ex.slow > 0.0 && t0.elapsed().as_secs_f64() > ex.slow {
                eprintln!("slow {:.2} s {:?} in {}: {}", t0.elapsed().as_secs_f64(), r, s.frames.last().unwrap().f.pretty, show(c));
                for p in &s.pc {
                    eprintln!("    given {}", show(*p));
                }
            }
            match r {
                Sat::Sat => {
                    let m = m.unwrap();
                    if !ex.validate(&s.pc, c, &m) {
                        if std::env::var("SYMEX_DEBUG").is_ok() {
                            let mut ev = Eval::new(&m);
                            for p in s.pc.iter().chain(std::iter::once(&c)) {
                                if ev.ev(*p) != 1 {
                                    eprintln!("model mismatch on {}", show(*p));
                                }
                            }
                        }
                        return unsup("solver model does not satisfy the path (translation error)");
                    }
                    Ok(Some(m))
                }
                Sat::Unsat => Ok(None),
                Sat::Unknown => {
                    ex.st.unknown += 1;
                    unsup("solver gave up (resource limit)")
                }
            }
        };
        match self.model_says(s, c) {
            Some(true) => match q(self, s, nc)? {
                None => Ok(Dec::T),
                Some(m) => Ok(Dec::Both(None, Some(m))),
            },
            Some(false) => match q(self, s, c)? {
                None => Ok(Dec::F),
                Some(m) => Ok(Dec::Both(Some(m), None)),
            },
            None => {
                let mt = q(self, s, c)?;
                let mf = q(self, s, nc)?;
                match (mt, mf) {
                    (Some(a), Some(b)) => Ok(Dec::Both(Some(a), Some(b))),
                    (Some(_), None) => Ok(Dec::T),
                    (None, Some(_)) => Ok(Dec::F),
                    (None, None) => Err(Stop::End),
                }
            }
        }
    }

    // ------------------------------------------------------------ running

    pub fn start(&mut self, name: &str) -> Result<(), String> {
        let md = self.fn_home.get(name).copied().ok_or(format!("no function {name}"))?;
        let f = match self.func(md, name) {
            Ok(f) => f,
            Err(_) => return Err(format!("cannot parse {name}")),
        };
        let fr = Frame {
            vals: vec![Val::U; f.nslots],
            f,
            bb: 0,
            ip: 0,
            allocas: vec![],
            ret: None,
            cont_bb: None,
        };
        let s = State {
            frames: vec![fr],
            mem: MStore::new(),
            facts: Facts::default(),
            pc: vec![],
            model: Some(Rc::new(RefCell::new(MCache { m: Model::default(), memo: Default::default() }))),
            inputs: vec![],
            steps: 0,
            depth: 0,
            fresh: None,
            utf: Default::default(),
            retries: 0,
            covers: vec![], heap: c64(0),
            choice: None,
        };
        self.work.push(s);
        Ok(())
    }
    pub fn run(&mut self) {
        while let Some(s) = self.work.pop() {
            if self.stop {
                break;
            }
            self.run_path(s);
        }
    }
    fn violation(&mut self, s: &State, msg: String) {
        // a model of the path condition
        let model = match &s.model {
            Some(m) => m.borrow().m.clone(),
            None => match self.z3.check(&s.pc, tru()) {
                (Sat::Sat, Some(m)) => m,
                _ => Model::default(),
            },
        };
        let stack = s
            .frames
            .iter()
            .rev()
            .map(|f| {
                let n = &f.f.pretty;
                format!("{} [{}]", n, f.f.blocks[f.bb].name)
            })
            .collect();
        let v = Violation { msg, stack, model, inputs: s.inputs.clone() };
        let mut stop = false;
        if let Some(mut h) = self.on_violation.take() {
            stop = h(&v);
            self.on_violation = Some(h);
        }
        if self.viol.len() < 20 {
            self.viol.push(v);
        }
        if stop {
            self.stop = true;
        }
    }
    fn run_path(&mut self, mut s: State) {
        loop {
            set_facts(&s.facts as *const Facts);
            self.tick = self.tick.wrapping_add(1);
            if self.tick & 0x3ff == 0 {
                if Instant::now() > self.deadline {
                    *self.st.unsup.entry("time limit".into()).or_insert(0) += 1;
                    self.stop = true;
                    return;
                }
                if let Some(mut h) = self.check_stop.take() {
                    let r = h();
                    self.check_stop = Some(h);
                    if r {
                        self.stop = true;
                        self.st.killed += 1;
                        return;
                    }
                }
            }
            if s.steps > self.max_steps {
                *self.st.unsup.entry("path too long".into()).or_insert(0) += 1;
                return;
            }
            let r = self.step(&mut s);
            match r {
                Ok(true) => {
                    s.retries = 0;
                }
                Ok(false) => {
                    // path complete
                    self.st.paths += 1;
                    self.st.steps += s.steps;
                    for c in &s.covers {
                        *self.st.covers.entry(*c).or_insert(0) += 1;
                    }
                    if self.st.sample.len() < 3 && self.st.paths >= self.st.next_sample {
                        self.st.next_sample = self.st.paths * 8;
                        let d = self.describe(&s);
                        if !d.is_empty() {
                            self.st.sample.push(d);
                        }
                    }
                    return;
                }
                Err(Stop::End) => {
                    self.st.killed += 1;
                    self.st.steps += s.steps;
                    return;
                }
                Err(Stop::Bad(m)) => {
                    self.st.steps += s.steps;
                    self.violation(&s, m);
                    return;
                }
                Err(Stop::Unsup(m)) => {
                    let at = s.frames.last().map(|f| f.f.pretty.clone()).unwrap_or_default();
                    let m: String = format!("{m} @ {at}").chars().take(400).collect();
                    *self.st.unsup.entry(m).or_insert(0) += 1;
                    self.st.steps += s.steps;
                    return;
                }
                Err(Stop::Choose(n)) => {
                    let (lo, mut hi) = s.choice.unwrap_or((0, n));
                    while hi - lo > 1 {
                        let mid = lo + (hi - lo) / 2;
                        let mut o = s.clone();
                        o.choice = Some((mid, hi));
                        self.st.forks += 1;
                        self.work.push(o);
                        hi = mid;
                        s.choice = Some((lo, hi));
                        self.split(&mut s);
                        if s.choice != Some((lo, hi)) {
                            break;
                        }
                    }
                    if n == 1 {
                        s.choice = Some((0, 1));
                    }
                }
                Err(Stop::Fork(c)) => {
                    s.retries += 1;
                    if s.retries > 4000 {
                        *self.st.unsup.entry(format!("no progress on {}", show(c))).or_insert(0) += 1;
                        return;
                    }
                    let c = if known(c).is_none() { counted(refresh(c)).unwrap_or(c) } else { c };
                    match self.decide(&mut s, c) {
                        Ok(Dec::T) => {
                            if known(c) == Some(true) {
                                *self.st.unsup.entry(format!("fork on known {}", show(c))).or_insert(0) += 1;
                                return;
                            }
                            self.learn(&mut s, c, true)
                        }
                        Ok(Dec::F) => {
                            if known(c) == Some(false) {
                                *self.st.unsup.entry(format!("fork on known {}", show(c))).or_insert(0) += 1;
                                return;
                            }
                            self.learn(&mut s, c, false)
                        }
                        Ok(Dec::Both(mt, mf)) => {
                            if let Some(p) = &mut self.prof {
                                *p.entry(s.frames.last().unwrap().f.pretty.clone()).or_insert(0) += 1;
                            }
                            self.fork(&mut s, c, mt, mf);
                        }
                        Err(Stop::Unsup(m)) => {
                            *self.st.unsup.entry(m).or_insert(0) += 1;
                            return;
                        }
                        Err(_) => {
                            self.st.killed += 1;
                            return;
                        }
                    }
                }
            }
        }
    }
    /// Both sides feasible: queue the false side, continue with the true side.
    fn fork(&mut self, s: &mut State, c: E, mt: Option<Model>, mf: Option<Model>) {
        self.st.forks += 1;
        if !Self::oracle().is_empty() {
            let v = self.oracle_val(s, c) == 1;
            let at: Vec<_> = s.frames.iter().rev().take(6).map(|f| f.f.pretty.clone()).collect();
            eprintln!("fork {v} {} at {}", show(c), at.join(" < "));
            self.take(s, c, v, None);
            return;
        }
        let mut other = s.clone();
        other.depth += 1;
        s.depth += 1;
        self.take(&mut other, c, false, mf);
        self.work.push(other);
        self.take(s, c, true, mt);
        self.split(s);
    }
    /// Offer the oldest pending state to an idle worker.
    fn split(&mut self, s: &mut State) {
        if self.on_fork.is_some() && !self.work.is_empty() {
            let mut h = self.on_fork.take().unwrap();
            let child = h(self);
            self.on_fork = Some(h);
            if child {
                let o = self.work.swap_remove(0);
                self.work.clear();
                *s = o;
            }
        }
        set_facts(&s.facts as *const Facts);
    }

    /// Concrete inputs that drive a run down this path, for the native replay.
    pub fn describe(&mut self, s: &State) -> String {
        let model = match &s.model {
            Some(m) => m.borrow().m.clone(),
            None => match self.z3.check(&s.pc, tru()) {
                (Sat::Sat, Some(m)) => m,
                _ => return String::new(),
            },
        };
        let v = Violation { msg: String::new(), stack: vec![], model, inputs: s.inputs.clone() };
        let c: Vec<String> = s.covers.iter().map(|c| c.to_string()).collect();
        format!("v {}\n{}", c.join(" "), crate::drive::inputs_text(&v))
    }

    fn set(&self, s: &mut State, d: u32, v: Val) {
        s.frames.last_mut().unwrap().vals[d as usize] = v;
    }
    fn goto(&mut self, s: &mut State, to: usize) -> M<()> {
        let fr = s.frames.last().unwrap();
        let f = fr.f.clone();
        let from = fr.bb;
        let b = &f.blocks[to];
        if !b.phis.is_empty() {
            let mut vs = Vec::with_capacity(b.phis.len());
            for (d, t, ins) in &b.phis {
                let o = match ins.iter().find(|x| x.0 == from) {
                    Some(x) => &x.1,
                    None => return unsup("phi without incoming edge"),
                };
                vs.push((*d, self.op(s, o, t)?));
            }
            for (d, v) in vs {
                self.set(s, d, v);
            }
        }
        let fr = s.frames.last_mut().unwrap();
        fr.bb = to;
        fr.ip = 0;
        Ok(())
    }

    /// Execute one instruction. Ok(false) when the harness returned.
    fn step(&mut self, s: &mut State) -> M<bool> {
        let (f, bb, ip) = {
            let fr = s.frames.last().unwrap();
            (fr.f.clone(), fr.bb, fr.ip)
        };
        s.steps += 1;
        let inst = &f.blocks[bb].insts[ip];
        match inst {
            Inst::Bin(k, t, d, a, b) => {
                let v = if let Ty::Vec(n, et) = t {
                    let (x, y) = (self.op(s, a, t)?, self.op(s, b, t)?);
                    let (x, y) = (self.elems(&x, t), self.elems(&y, t));
                    let mut out = vec![];
                    for i in 0..*n as usize {
                        let r = self.bin(s, *k, self.as_i(&x[i]), self.as_i(&y[i]), et.width())?;
                        out.push(Val::I(r));
                    }
                    Val::A(Rc::new(out))
                } else {
                    let (x, y) = (self.opi(s, a, t)?, self.opi(s, b, t)?);
                    Val::I(self.bin(s, *k, x, y, t.width())?)
                };
                self.set(s, *d, v);
            }
            Inst::Icmp(p, t, d, a, b) => {
                let v = if let Ty::Vec(n, _) = t {
                    let (x, y) = (self.op(s, a, t)?, self.op(s, b, t)?);
                    let (x, y) = (self.elems(&x, t), self.elems(&y, t));
                    Val::A(Rc::new(
                        (0..*n as usize).map(|i| Val::I(icmp(*p, self.as_i(&x[i]), self.as_i(&y[i])))).collect(),
                    ))
                } else {
                    let (x, y) = (self.opi(s, a, t)?, self.opi(s, b, t)?);
                    Val::I(icmp(*p, x, y))
                };
                self.set(s, *d, v);
            }
            Inst::Cast(k, t, t2, d, a) => {
                let x = self.op(s, a, t)?;
                let v = self.cast(*k, &x, t, t2)?;
                self.set(s, *d, v);
            }
            Inst::Load(d, t, p) => {
                let p = self.opi(s, p, &Ty::Ptr)?;
                let v = self.load(s, p, t)?;
                self.set(s, *d, v);
            }
            Inst::Store(t, v, p) => {
                let p = self.opi(s, p, &Ty::Ptr)?;
                let v = self.op(s, v, t)?;
                self.store(s, p, t, &v)?;
            }
            Inst::Gep(d, p, c, idx) => {
                let mut e = self.opi(s, p, &Ty::Ptr)?;
                if *c != 0 {
                    e = add(e, c64(*c as u64));
                }
                for (o, wd, sc) in idx {
                    let i = self.opi(s, o, &Ty::Int(*wd))?;
                    let i = sext(i, 64);
                    let i = if *sc == 1 { i } else { mul(i, c64(*sc)) };
                    e = add(e, i);
                }
                self.set(s, *d, Val::I(e));
            }
            Inst::Alloca(d, sz, cnt) => {
                let n = match cnt {
                    None => c64(*sz),
                    Some(o) => {
                        let k = self.opi(s, o, &Ty::Int(64))?;
                        mul(zext(k, 64), c64(*sz))
                    }
                };
                let id = self.alloc(s, n, false, false);
                s.frames.last_mut().unwrap().allocas.push(id);
                self.set(s, *d, Val::I(c64(base_of(id))));
            }
            Inst::Select(d, t, c, a, b) => {
                let c = self.opi(s, c, &Ty::Int(1))?;
                let (x, y) = (self.op(s, a, t)?, self.op(s, b, t)?);
                // lengths and pointers: one path per case keeps addresses linear
                if known(c).is_none() && t.size() >= 4 {
                    return Err(Stop::Fork(c));
                }
                let v = self.select(c, x, y)?;
                self.set(s, *d, v);
            }
            Inst::Freeze(d, t, a) => {
                let v = self.op(s, a, t)?;
                self.set(s, *d, v);
            }
            Inst::Extract(d, a, idx, t) => {
                let mut v = self.op(s, a, t)?;
                let mut ty = t.clone();
                for i in idx {
                    let ft = ty.field(*i).1;
                    v = match &v {
                        Val::A(x) => x[*i as usize].clone(),
                        _ => self.zero_val(&ft),
                    };
                    ty = ft;
                }
                self.set(s, *d, v);
            }
            Inst::Insert(d, a, b, idx, t) => {
                let v = self.op(s, a, t)?;
                // type of the inserted element
                let mut ty = t.clone();
                for i in idx {
                    ty = ty.field(*i).1;
                }
                let x = self.op(s, b, &ty)?;
                let r = self.insert(&v, t, idx, x);
                self.set(s, *d, r);
            }
            Inst::ExtractElem(d, a, i, t) => {
                let v = self.op(s, a, t)?;
                let i = self.opi(s, i, &Ty::Int(64))?;
                let v = self.elems(&v, t);
                match cval(i) {
                    Some(i) => {
                        let x = v[i as usize].clone();
                        self.set(s, *d, x)
                    }
                    None => return unsup("symbolic extractelement"),
                }
            }
            Inst::InsertElem(d, a, x, i, t) => {
                let v = self.op(s, a, t)?;
                let et = t.field(0).1;
                let x = self.op(s, x, &et)?;
                let i = self.opi(s, i, &Ty::Int(64))?;
                let mut v = self.elems(&v, t);
                match cval(i) {
                    Some(i) => v[i as usize] = x,
                    None => return unsup("symbolic insertelement"),
                }
                self.set(s, *d, Val::A(Rc::new(v)));
            }
            Inst::Shuffle(d, a, b, m, t) => {
                let (x, y) = (self.op(s, a, t)?, self.op(s, b, t)?);
                let mut v = self.elems(&x, t);
                v.extend(self.elems(&y, t));
                let out = m.iter().map(|i| if *i < 0 { v[0].clone() } else { v[*i as usize].clone() }).collect();
                self.set(s, *d, Val::A(Rc::new(out)));
            }
            Inst::Call(d, rt, c, args, nb) => {
                return self.call(s, *d, rt, c, args, *nb);
            }
            Inst::Br(b) => {
                self.goto(s, *b)?;
                return Ok(true);
            }
            Inst::CondBr(c, t, e) => {
                let c = self.opi(s, c, &Ty::Int(1))?;
                match known(c) {
                    Some(true) => self.goto(s, *t)?,
                    Some(false) => self.goto(s, *e)?,
                    None => return Err(Stop::Fork(c)),
                }
                return Ok(true);
            }
            Inst::Switch(v, wd, dflt, cases) => {
                let v = self.opi(s, v, &Ty::Int(*wd))?;
                if let Some(k) = cval(v) {
                    let to = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*dflt);
                    self.goto(s, to)?;
                    return Ok(true);
                }
                // group cases by target
                let mut order: Vec<usize> = vec![];
                for c in cases {
                    if !order.contains(&c.1) {
                        order.push(c.1);
                    }
                }
                for tgt in order {
                    if tgt == *dflt {
                        continue;
                    }
                    let mut cond = fls();
                    for c in cases.iter().filter(|c| c.1 == tgt) {
                        cond = or(cond, eq(v, con(c.0, *wd)));
                    }
                    match known(cond) {
                        Some(true) => {
                            self.goto(s, tgt)?;
                            return Ok(true);
                        }
                        Some(false) => continue,
                        None => return Err(Stop::Fork(cond)),
                    }
                }
                self.goto(s, *dflt)?;
                return Ok(true);
            }
            Inst::Ret(v) => {
                let rv = match v {
                    None => Val::U,
                    Some((t, o)) => self.op(s, o, t)?,
                };
                let fr = s.frames.pop().unwrap();
                for a in fr.allocas {
                    s.mem.set(a, None);
                }
                if s.frames.is_empty() {
                    return Ok(false);
                }
                if let Some(d) = fr.ret {
                    self.set(s, d, rv);
                }
                if let Some(nb) = fr.cont_bb {
                    self.goto(s, nb)?;
                } else {
                    s.frames.last_mut().unwrap().ip += 1;
                }
                return Ok(true);
            }
            Inst::Unreachable => return bad("reached code marked unreachable"),
            Inst::AtomicRmw(o, d, t, p, v) => {
                let p = self.opi(s, p, &Ty::Ptr)?;
                let v = self.opi(s, v, t)?;
                let old = self.load(s, p, t)?;
                let x = self.as_i(&old);
                let n = match o.as_str() {
                    "xchg" => v,
                    "add" => add(x, v),
                    "sub" => sub(x, v),
                    "and" => and(x, v),
                    "or" => or(x, v),
                    "xor" => xor(x, v),
                    "umax" => ite(ult(x, v), v, x),
                    "umin" => ite(ult(x, v), x, v),
                    _ => return unsup(format!("atomicrmw {o}")),
                };
                self.store(s, p, t, &Val::I(n))?;
                self.set(s, *d, old);
            }
            Inst::CmpXchg(d, t, p, c, n) => {
                let p = self.opi(s, p, &Ty::Ptr)?;
                let c = self.opi(s, c, t)?;
                let n = self.opi(s, n, t)?;
                let old = self.load(s, p, t)?;
                let x = self.as_i(&old);
                let e = eq(x, c);
                match known(e) {
                    Some(true) => self.store(s, p, t, &Val::I(n))?,
                    Some(false) => {}
                    None => return Err(Stop::Fork(e)),
                }
                self.set(s, *d, Val::A(Rc::new(vec![old, Val::I(e)])));
            }
            Inst::Nop => {}
            Inst::Unsup(m) => return unsup(m.clone()),
        }
        s.frames.last_mut().unwrap().ip += 1;
        Ok(true)
    }
    fn elems(&self, v: &Val, t: &Ty) -> Vec<Val> {
        match v {
            Val::A(a) => a.to_vec(),
            _ => match self.zero_val(t) {
                Val::A(a) => a.to_vec(),
                _ => vec![],
            },
        }
    }
    fn insert(&self, v: &Val, t: &Ty, idx: &[u64], x: Val) -> Val {
        if idx.is_empty() {
            return x;
        }
        let mut e = self.elems(v, t);
        let ft = t.field(idx[0]).1;
        let k = idx[0] as usize;
        e[k] = self.insert(&e[k], &ft, &idx[1..], x);
        Val::A(Rc::new(e))
    }
    fn select(&self, c: E, x: Val, y: Val) -> M<Val> {
        match known(c) {
            Some(true) => return Ok(x),
            Some(false) => return Ok(y),
            None => {}
        }
        match (&x, &y) {
            (Val::I(a), Val::I(b)) => Ok(Val::I(ite(c, *a, *b))),
            (Val::A(a), Val::A(b)) => {
                let mut o = vec![];
                for (p, q) in a.iter().zip(b.iter()) {
                    o.push(self.select(c, p.clone(), q.clone())?);
                }
                Ok(Val::A(Rc::new(o)))
            }
            _ => Ok(x),
        }
    }
    fn bin(&mut self, _s: &mut State, k: BinK, a: E, b: E, wd: u16) -> M<E> {
        Ok(match k {
            BinK::Add => add(a, b),
            BinK::Sub => sub(a, b),
            BinK::Mul => mul(a, b),
            BinK::And => and(a, b),
            BinK::Or => or(a, b),
            BinK::Xor => xor(a, b),
            BinK::Shl => shl(a, b),
            BinK::LShr => lshr(a, b),
            BinK::AShr => ashr(a, b),
            BinK::UDiv | BinK::URem | BinK::SDiv | BinK::SRem => {
                let z = eq(b, con(0, wd));
                match known(z) {
                    Some(true) => return bad("division by zero"),
                    Some(false) => {}
                    None => return Err(Stop::Fork(z)),
                }
                match k {
                    BinK::UDiv => udiv(a, b),
                    BinK::URem => urem(a, b),
                    BinK::SDiv => sdiv(a, b),
                    _ => srem(a, b),
                }
            }
        })
    }
    fn cast(&mut self, k: CastK, x: &Val, t: &Ty, t2: &Ty) -> M<Val> {
        if let (Ty::Vec(n, et), Ty::Vec(n2, et2)) = (t, t2) {
            if n == n2 && k != CastK::BitCast {
                let v = self.elems(x, t);
                let mut o = vec![];
                for e in v {
                    o.push(self.cast(k, &e, et, et2)?);
                }
                return Ok(Val::A(Rc::new(o)));
            }
        }
        if k == CastK::BitCast && (t.is_agg() || t2.is_agg()) {
            // reinterpret through bits, element 0 least significant
            let bits = match t {
                Ty::Vec(..) => {
                    let v = self.elems(x, t);
                    cat(v.iter().rev().map(|e| self.as_i(e)).collect())
                }
                _ => self.as_i(x),
            };
            return Ok(match t2 {
                Ty::Vec(n, et) => {
                    let ew = et.width();
                    Val::A(Rc::new(
                        (0..*n as u16).map(|i| Val::I(ext(bits, (i + 1) * ew - 1, i * ew))).collect(),
                    ))
                }
                _ => Val::I(bits),
            });
        }
        let e = self.as_i(x);
        let wd = t2.width();
        Ok(Val::I(match k {
            CastK::Trunc => trunc(e, wd),
            CastK::ZExt => zext(e, wd),
            CastK::SExt => sext(e, wd),
            CastK::PtrToInt | CastK::IntToPtr => {
                if w(e) > wd {
                    trunc(e, wd)
                } else {
                    zext(e, wd)
                }
            }
            CastK::BitCast => e,
        }))
    }

    // ------------------------------------------------------------ calls

    fn finish(&mut self, s: &mut State, d: Option<u32>, v: Val, nb: Option<usize>) -> M<bool> {
        if let Some(d) = d {
            self.set(s, d, v);
        }
        s.fresh = None;
        if let Some(b) = nb {
            self.goto(s, b)?;
        } else {
            s.frames.last_mut().unwrap().ip += 1;
        }
        Ok(true)
    }

    fn call(
        &mut self,
        s: &mut State,
        d: Option<u32>,
        rt: &Ty,
        c: &Callee,
        args: &[(Ty, Op)],
        nb: Option<usize>,
    ) -> M<bool> {
        let from = s.frames.last().unwrap().f.module;
        let (md, name) = match c {
            Callee::Direct(n) => (from, n.clone()),
            Callee::Indirect(o) => {
                let p = self.opi(s, o, &Ty::Ptr)?;
                let p = match cval(p) {
                    Some(p) => p as u64,
                    None => {
                        if let K::Ite(c, _, _) = kind(p) {
                            return Err(Stop::Fork(*c));
                        }
                        return unsup(format!("indirect call to {}", show(p)));
                    }
                };
                let id = p >> ID_SHIFT;
                if id < FUNC_ID0 || (id - FUNC_ID0) as usize >= self.fn_list.len() || p != base_of(id) {
                    return bad("call through an invalid function pointer");
                }
                self.fn_list[(id - FUNC_ID0) as usize].clone()
            }
        };
        // intrinsics, harness interface and library models
        let code = match self.intr.get(&name) {
            Some(c) => *c,
            None => {
                let c = classify(&name);
                self.intr.insert(name.clone(), c);
                c
            }
        };
        if code != I_NONE {
            let mut av = Vec::with_capacity(args.len());
            for (t, o) in args {
                if *t == Ty::Meta {
                    av.push(Val::U);
                } else {
                    av.push(self.op(s, o, t)?);
                }
            }
            if let Some(v) = self.builtin(s, code, &name, rt, &av, args)? {
                return self.finish(s, d, v, nb);
            }
        }
        let home = match self.fn_module(md, &name) {
            Some(h) => h,
            None => {
                return unsup(format!(
                    "call to unknown function {} {}",
                    name,
                    self.mods[md].decls.get(&name).cloned().unwrap_or_default()
                ))
            }
        };
        let f = self.func(home, &name)?;
        if s.frames.len() > 400 {
            return unsup("call depth");
        }
        let mut vals = vec![Val::U; f.nslots];
        for (i, (t, o)) in args.iter().enumerate() {
            let v = if *t == Ty::Meta { Val::U } else { self.op(s, o, t)? };
            if let Some((slot, _)) = f.params.get(i) {
                vals[*slot as usize] = v;
            }
        }
        if !self.st.fns.contains(&f.pretty) {
            self.st.fns.insert(f.pretty.clone());
        }
        if self.trace {
            eprintln!("{}call {}", " ".repeat(s.frames.len()), f.pretty);
        }
        s.frames.push(Frame { f, bb: 0, ip: 0, vals, allocas: vec![], ret: d, cont_bb: nb });
        Ok(true)
    }

    fn str_arg(&mut self, s: &mut State, p: E, n: E) -> String {
        if let (Some(n), Ok(Val::I(_))) = (cval(n), Ok::<Val, ()>(Val::I(p))) {
            let mut out = vec![];
            for i in 0..n as u64 {
                match self.load(s, add(p, c64(i)), &Ty::Int(8)) {
                    Ok(Val::I(e)) => out.push(cval(e).unwrap_or(b'?' as u128) as u8),
                    _ => break,
                }
            }
            return String::from_utf8_lossy(&out).into_owned();
        }
        "?".into()
    }

    fn utf8(&mut self, s: &mut State, p: E, n: E) -> M<E> {
        let (l, h) = rng(n);
        let n = if l == h { con(l, 64) } else { n };
        if cval(n) == Some(0) {
            return Ok(tru());
        }
        if cval(n).is_none() {
            let z = eq(n, c64(0));
            if is_true(z) {
                return Ok(tru());
            }
            if !is_false(z) {
                return Err(Stop::Fork(z));
            }
        }
        let rg = self.region_of(s, p, n)?;
        if let Src::Arr(a, i) = &rg {
            if cx().arrs[*a as usize].max < 128 {
                return Ok(tru());
            }
            if let Some((pos, _)) = cx().arrs[*a as usize].spoilt {
                return Ok(not(and(ule(*i, pos), ult(pos, add(*i, n)))));
            }
        }
        if matches!(rg, Src::Snap(..)) && rng(n).1 > 320 && certainly_ascii(&rg, c64(0), n) {
            return Ok(tru());
        }
        let whole = match &rg {
            Src::Arr(a, i) => Some((*a, *i)),
            _ => match cval(n) {
                Some(k) if k <= 1 << 17 => match src_read(&rg, c64(0), k as usize) {
                    Ok(c) => match kind(c[0].e()) {
                        K::Sel(a, i) if c.iter().enumerate().all(|(j, c)| c.e() == sel(*a, add(*i, c64(j as u64)))) => Some((*a, *i)),
                        _ => None,
                    },
                    _ => None,
                },
                _ => None,
            },
        };
        if let Some((a, i)) = whole {
            if let Some(len) = cx().arrs[a as usize].text {
                // generated as text: valid as a whole; nothing is assumed about parts of it
                if is_true(eq(i, c64(0))) {
                    let e = eq(n, len);
                    if is_true(e) {
                        return Ok(tru());
                    }
                    if !is_false(e) {
                        return Err(Stop::Fork(e));
                    }
                }
            }
        }
        let (_, mut h) = rng(n);
        // an area of one array is handled below
        let part = matches!(&rg, Src::Arr(..));
        if h > 320 && !part && is_true(ule(n, c64(320))) {
            // the interval does not show it: let the solver narrow the length down
            for k in [0u64, 1, 2, 4, 8, 16, 32, 64, 128, 320] {
                let c = ule(n, c64(k));
                if is_true(c) {
                    h = k.into();
                    break;
                }
                if !is_false(c) {
                    return Err(Stop::Fork(c));
                }
            }
        }
        if h > 320 && h <= 1 << 20 && cval(n).is_some() {
            if let Ok(cells) = src_read(&rg, c64(0), h as usize) {
                let b: Vec<u8> = cells.iter().filter_map(|c| cval(c.e()).map(|v| v as u8)).collect();
                if b.len() == cells.len() {
                    return Ok(boolc(std::str::from_utf8(&b).is_ok()));
                }
            }
        }
        if self.slow > 0.0 && h > 8 {
            eprintln!("utf8 n={} p={} rg={}", show(n), show(p), format!("{rg:?}").chars().take(2500).collect::<String>());
            for c in &s.pc {
                eprintln!("  pc {}", show(*c));
            }
        }
        if h <= 320 {
            let cells = match src_read(&rg, c64(0), h as usize) {
                Ok(c) => c,
                // enumerate the length instead
                Err(Stop::Fork(_)) if cval(n).is_none() => {
                    let (l, _) = rng(n);
                    for k in (l..=h).rev() {
                        let c = eq(n, con(k, 64));
                        if is_false(c) {
                            continue;
                        }
                        if is_true(c) {
                            return unsup("length is known but not recognised");
                        }
                        return Err(Stop::Fork(c));
                    }
                    return unsup("no length is possible");
                }
                Err(e) => return Err(e),
            };
            let bytes: Vec<E> = cells.iter().map(|c| c.e()).collect();
            return Ok(utf8_formula(&bytes, n));
        }
        if let Src::Arr(a, i) = &rg {
            // long unconstrained text: validity is a free boolean per region
            let key = (*a, *i, n);
            if let Some(e) = s.utf.get(&key) {
                return Ok(*e);
            }
            let v = var("utf8ok", 1);
            s.utf.insert(key, v);
            return Ok(v);
        }
        // let the solver say whether the region is short, or exactly one that was written as a whole
        let c = ule(n, c64(320));
        if !is_true(c) && !is_false(c) {
            return Err(Stop::Fork(c));
        }
        if let Src::Snap(sp, o) = &rg {
            for e in sp.log.iter().rev() {
                if e.len == n || !is_true(eq(e.off, *o)) {
                    continue;
                }
                let q = eq(n, e.len);
                if is_true(q) {
                    return self.utf8(s, p, e.len);
                }
                if !is_false(q) {
                    return Err(Stop::Fork(q));
                }
            }
        }
        unsup(format!("UTF-8 validation of a long composite region {} {h}", show(n)))
    }

    /// valid_up_to, and error_len as tag and value, of text that is not well-formed.
    fn utf8_error(&mut self, s: &mut State, p: E, n: E) -> (E, E, E) {
        let (_, h) = rng(n);
        if let Ok(Src::Arr(a, i)) = self.region_of(s, p, n) {
            if let Some((pos, _)) = cx().arrs[a as usize].spoilt {
                return (sub(pos, i), con(1, 8), con(1, 8));
            }
        }
        if h <= 64 {
            if let Ok(rg) = self.region_of(s, p, n) {
                if let Ok(cells) = src_read(&rg, c64(0), h as usize) {
                    let bytes: Vec<E> = cells.iter().map(|c| c.e()).collect();
                    return utf8_error_formula(&bytes, n);
                }
            }
        }
        // long text: anything
        let v = var("utf8upto", 64);
        let t = var("utf8cut", 1);
        let l = var("utf8len", 2);
        (ite(ult(v, n), v, c64(0)), zext(t, 8), add(ite(eq(l, con(3, 2)), con(0, 8), zext(l, 8)), con(1, 8)))
    }

    fn builtin(
        &mut self,
        s: &mut State,
        code: u32,
        name: &str,
        rt: &Ty,
        a: &[Val],
        args: &[(Ty, Op)],
    ) -> M<Option<Val>> {
        let i = |k: usize| -> E {
            match a.get(k) {
                Some(Val::I(e)) => *e,
                _ => c64(0),
            }
        };
        let wd = rt.width();
        let ok = |e: E| Ok(Some(Val::I(e)));
        match code {
            I_NOP => Ok(Some(if rt == &Ty::Void { Val::U } else { self.zero_val(rt) })),
            I_MEMCPY => {
                let n = zext(i(2), 64);
                self.memcpy(s, i(0), i(1), n)?;
                Ok(Some(Val::U))
            }
            I_MEMSET => {
                let n = zext(i(2), 64);
                if let Some(0) = cval(n) {
                    return Ok(Some(Val::U));
                }
                let (id, off) = self.resolve(i(0))?;
                let o = self.obj(s, id)?;
                self.bounds(&o, off, n)?;
                drop(o);
                let m = s.mem.get_mut(id).unwrap();
                m.put_region(off, n, Src::Fill(i(1)))?;
                Ok(Some(Val::U))
            }
            I_MEMCMP => {
                let order = name == "memcmp";
                let r = self.memcmp(s, i(0), i(1), zext(i(2), 64), order)?;
                ok(r)
            }
            I_ALLOC | I_ALLOC_ZERO => {
                let id = self.alloc(s, i(0), code == I_ALLOC_ZERO, true);
                s.heap = add(s.heap, i(0));
                ok(c64(base_of(id)))
            }
            I_DEALLOC => {
                let (id, off) = self.resolve(i(0))?;
                let o = self.obj(s, id)?;
                if !o.heap || cval(off) != Some(0) {
                    return bad("deallocation of a pointer that was not allocated");
                }
                let e = eq(o.size, i(1));
                match known(e) {
                    Some(true) => {}
                    Some(false) => return bad("deallocation with a wrong size"),
                    None => return Err(Stop::Fork(e)),
                }
                s.mem.set(id, Some(Rc::new(Obj { freed: true, ..Obj::new(c64(0), false, true) })));
                Ok(Some(Val::U))
            }
            I_REALLOC => {
                let (id, off) = self.resolve(i(0))?;
                let o = self.obj(s, id)?;
                if !o.heap || cval(off) != Some(0) {
                    return bad("reallocation of a pointer that was not allocated");
                }
                let (old, new) = (o.size, i(3));
                let shrink = ult(new, old);
                match known(shrink) {
                    Some(_) => {}
                    None => return Err(Stop::Fork(shrink)),
                }
                let n = if is_true(shrink) { new } else { old };
                let nid = self.alloc(s, new, false, true);
                if let Err(e) = self.memcpy(s, c64(base_of(nid)), i(0), n) {
                    s.mem.set(nid, None);
                    s.mem.next -= 1;
                    return Err(e);
                }
                s.mem.set(id, Some(Rc::new(Obj { freed: true, ..Obj::new(c64(0), false, true) })));
                s.heap = add(s.heap, new);
                ok(c64(base_of(nid)))
            }
            I_PANIC => {
                let mut m = format!("panic: {}", self.pretty(s, name));
                if name.ends_with("9panicking5panic") || name.contains("expect_failed") || name.contains("unwrap_failed") {
                    m += &format!(" \"{}\"", self.str_arg(s, i(0), i(1)));
                }
                bad(m)
            }
            I_UTF8 => {
                if self.real_utf8 {
                    return Ok(None);
                }
                let v = self.utf8(s, i(1), i(2))?;
                match known(v) {
                    None => return Err(Stop::Fork(v)),
                    Some(true) => {
                        self.store(s, i(0), &Ty::Int(64), &Val::I(c64(0)))?;
                        self.store(s, add(i(0), c64(8)), &Ty::Ptr, &Val::I(i(1)))?;
                        self.store(s, add(i(0), c64(16)), &Ty::Int(64), &Val::I(i(2)))?;
                    }
                    Some(false) => {
                        let (upto, some, len) = self.utf8_error(s, i(1), i(2));
                        self.store(s, i(0), &Ty::Int(64), &Val::I(c64(1)))?;
                        self.store(s, add(i(0), c64(8)), &Ty::Int(64), &Val::I(upto))?;
                        self.store(s, add(i(0), c64(16)), &Ty::Int(8), &Val::I(some))?;
                        self.store(s, add(i(0), c64(17)), &Ty::Int(8), &Val::I(len))?;
                    }
                }
                Ok(Some(Val::U))
            }
            I_BSWAP => {
                let e = i(0);
                let n = w(e) / 8;
                ok(cat((0..n).map(|k| ext(e, 8 * k + 7, 8 * k)).collect()))
            }
            I_UMIN | I_UMAX => {
                let c = ult(i(0), i(1));
                if known(c).is_none() && wd >= 32 {
                    return Err(Stop::Fork(c));
                }
                ok(if code == I_UMIN { ite(c, i(0), i(1)) } else { ite(c, i(1), i(0)) })
            }
            I_SMIN => ok(ite(slt(i(0), i(1)), i(0), i(1))),
            I_SMAX => ok(ite(slt(i(0), i(1)), i(1), i(0))),
            I_ABS => ok(ite(slt(i(0), con(0, wd)), neg(i(0)), i(0))),
            I_UCMP | I_SCMP => {
                let (x, y) = (i(0), i(1));
                let lt = if code == I_UCMP { ult(x, y) } else { slt(x, y) };
                ok(ite(lt, con(mask(wd), wd), ite(eq(x, y), con(0, wd), con(1, wd))))
            }
            I_CTPOP => {
                let e = i(0);
                let mut r = con(0, wd);
                for k in 0..wd {
                    r = add(r, zext(ext(e, k, k), wd));
                }
                ok(r)
            }
            I_CTLZ | I_CTTZ => {
                let e = i(0);
                let mut r = con(wd as u128, wd);
                if let Some(v) = cval(e) {
                    let n = if code == I_CTLZ {
                        (v.leading_zeros() as u16).saturating_sub(128 - wd)
                    } else {
                        (v.trailing_zeros() as u16).min(wd)
                    };
                    return ok(con(n as u128, wd));
                }
                if code == I_CTLZ {
                    // on the unshifted value, as comparisons
                    let (x, l) = match kind(e) {
                        K::Cat(p) if p.len() == 2 && cval(p[0]) == Some(0) => match kind(p[1]) {
                            K::Ext(x, h, l) if rng(*x).1 <= mask(h + 1) => (*x, *l),
                            _ => (e, 0),
                        },
                        _ => (e, 0),
                    };
                    for k in 0..wd {
                        if k + l >= w(x) {
                            break;
                        }
                        let c = not(ult(x, con(1u128 << (k + l), w(x))));
                        r = ite(c, con((wd - 1 - k) as u128, wd), r);
                    }
                } else {
                    for k in (0..wd).rev() {
                        r = ite(ext(e, k, k), con(k as u128, wd), r);
                    }
                }
                ok(r)
            }
            I_FSHL | I_FSHR => {
                let c = cat2(i(0), i(1));
                let sh = urem(i(2), con(wd as u128, wd));
                match cval(sh) {
                    Some(k) => {
                        let k = k as u16;
                        if code == I_FSHL {
                            ok(ext(c, 2 * wd - 1 - k, wd - k))
                        } else {
                            ok(ext(c, wd - 1 + k, k))
                        }
                    }
                    None => {
                        let k2 = zext(sh, 2 * wd);
                        if code == I_FSHL {
                            ok(ext(shl(c, k2), 2 * wd - 1, wd))
                        } else {
                            ok(ext(lshr(c, k2), wd - 1, 0))
                        }
                    }
                }
            }
            I_BITREV => {
                let e = i(0);
                ok(cat((0..wd).map(|k| ext(e, k, k)).collect()))
            }
            I_USUBSAT => ok(ite(ult(i(0), i(1)), con(0, wd), sub(i(0), i(1)))),
            I_UADDSAT => {
                let r = add(i(0), i(1));
                ok(ite(ult(r, i(0)), con(mask(wd), wd), r))
            }
            I_UADDO | I_USUBO | I_UMULO | I_SADDO | I_SSUBO | I_SMULO => {
                let (x, y) = (i(0), i(1));
                let ww = w(x);
                let (r, o) = match code {
                    I_UADDO => {
                        let wide = add(zext(x, ww + 1), zext(y, ww + 1));
                        let r = add(x, y);
                        let o = if ww < 64 { ext(wide, ww, ww) } else { ult(r, x) };
                        (r, o)
                    }
                    I_USUBO => (sub(x, y), ult(x, y)),
                    I_UMULO => {
                        let r = mul(x, y);
                        let o = match (cval(x), cval(y)) {
                            (_, Some(0)) | (Some(0), _) => fls(),
                            (_, Some(k)) => ult(con(mask(ww) / k, ww), x),
                            (Some(k), _) => ult(con(mask(ww) / k, ww), y),
                            _ => {
                                if ww > 64 {
                                    return unsup("wide multiplication overflow");
                                }
                                let p = mul(zext(x, 2 * ww), zext(y, 2 * ww));
                                ne(ext(p, 2 * ww - 1, ww), con(0, ww))
                            }
                        };
                        (r, o)
                    }
                    _ => {
                        if ww > 63 && code == I_SMULO {
                            return unsup("signed multiplication overflow");
                        }
                        let e = ww + if code == I_SMULO { ww } else { 1 };
                        let (sx, sy) = (sext(x, e), sext(y, e));
                        let wide = match code {
                            I_SADDO => add(sx, sy),
                            I_SSUBO => sub(sx, sy),
                            _ => mul(sx, sy),
                        };
                        let r = trunc(wide, ww);
                        (r, ne(sext(r, e), wide))
                    }
                };
                Ok(Some(Val::A(Rc::new(vec![Val::I(r), Val::I(o)]))))
            }
            I_FIRST => Ok(Some(a[0].clone())),
            I_TRAP => bad("trap"),
            I_REDUCE => {
                let t = &args[0].0;
                let v = self.elems(&a[0], t);
                let mut r = self.as_i(&v[0]);
                for x in &v[1..] {
                    let x = self.as_i(x);
                    r = if name.contains(".or.") {
                        or(r, x)
                    } else if name.contains(".and.") {
                        and(r, x)
                    } else if name.contains(".xor.") {
                        xor(r, x)
                    } else if name.contains(".add.") {
                        add(r, x)
                    } else if name.contains(".umax.") {
                        ite(ult(r, x), x, r)
                    } else if name.contains(".umin.") {
                        ite(ult(r, x), r, x)
                    } else {
                        return unsup(name.to_string());
                    };
                }
                ok(r)
            }
            // ---------------- harness interface
            H_SYM => {
                let wd = match name {
                    "sym_u8" => 8,
                    "sym_u16" => 16,
                    "sym_u32" => 32,
                    "sym_u64" => 64,
                    _ => 1,
                };
                let v = var(&format!("in{}", s.inputs.len()), wd);
                let e = if wd == 1 { zext(v, 8) } else { v };
                self.oracle_input(s, Some(e), None);
                s.inputs.push(Inp::Scalar(e));
                ok(if w(e) > rt.width() { trunc(e, rt.width()) } else { zext(e, rt.width()) })
            }
            H_RANGE => {
                let (lo, hi) = (rng(i(0)).0, rng(i(1)).1);
                let sym = cval(i(0)).is_none() || cval(i(1)).is_none();
                if lo == hi && !sym {
                    s.inputs.push(Inp::Scalar(c64(lo as u64)));
                    return ok(c64(lo as u64));
                }
                if s.fresh.is_none() {
                    let bits = (128 - hi.leading_zeros()) as u16;
                    let v = var(&format!("in{}", s.inputs.len()), bits);
                    s.fresh = Some(zext(v, 64));
                    self.oracle_input(s, s.fresh, None);
                }
                let e = s.fresh.unwrap();
                self.assume(s, ule(e, con(hi, 64)))?;
                self.assume(s, ule(con(lo, 64), e))?;
                if sym {
                    self.assume(s, ule(e, i(1)))?;
                    self.assume(s, ule(i(0), e))?;
                }
                s.inputs.push(Inp::Scalar(e));
                ok(e)
            }
            H_CHOOSE => {
                let n = match cval(i(0)) {
                    Some(n) => n,
                    None => return unsup(format!("sym_choose with symbolic bound {}", show(i(0)))),
                };
                if n == 0 {
                    return Err(Stop::End);
                }
                if let Some((k, _)) = s.choice.filter(|c| c.1 - c.0 == 1) {
                    s.choice = None;
                    s.inputs.push(Inp::Choice(k));
                    return ok(c64(k));
                }
                if let Some(l) = Self::oracle().get(s.inputs.len()) {
                    let k: u64 = l[1].parse().unwrap();
                    s.choice = None;
                    s.inputs.push(Inp::Choice(k));
                    return ok(c64(k));
                }
                Err(Stop::Choose(n as u64))
            }
            H_FILL => {
                // sym_fill(ptr, len, maxbyte)
                let (p, n, mx) = (i(0), i(1), cval(i(2)).unwrap_or(255) as u8);
                let arr = array(&format!("by{}", s.inputs.len()), if mx == 254 { 0xf4 } else { mx });
                if mx == 254 {
                    cx().arrs[arr as usize].text = Some(n);
                }
                self.oracle_input(s, None, Some(arr));
                s.inputs.push(Inp::Bytes(arr, n));
                if cval(n) == Some(0) {
                    return Ok(Some(Val::U));
                }
                let (id, off) = self.resolve(p)?;
                let o = self.obj(s, id)?;
                if let Err(e) = self.bounds(&o, off, n) {
                    s.inputs.pop();
                    return Err(e);
                }
                drop(o);
                let m = s.mem.get_mut(id).unwrap();
                m.put_region(off, n, Src::Arr(arr, c64(0)))?;
                Ok(Some(Val::U))
            }
            H_SPOIL => {
                // sym_spoil(ptr, len, pos): one byte of an ASCII region becomes 0xff
                let (p, n, pos) = (i(0), i(1), i(2));
                match self.region_of(s, p, n)? {
                    Src::Arr(a, k) if cx().arrs[a as usize].max < 128 && is_true(eq(k, c64(0))) => {
                        let arr = array("spoilt", 255);
                        cx().arrs[arr as usize].spoilt = Some((pos, a));
                        let (id, off) = self.resolve(p)?;
                        self.obj(s, id)?;
                        s.mem.get_mut(id).unwrap().put_region(off, n, Src::Arr(arr, c64(0)))?;
                        Ok(Some(Val::U))
                    }
                    r => unsup(format!("sym_spoil on {r:?}")),
                }
            }
            H_ASSUME => {
                let c = i(0);
                let c = if w(c) > 1 { ne(c, con(0, w(c))) } else { c };
                self.assume(s, c)?;
                Ok(Some(Val::U))
            }
            H_ASSERT => {
                let c = i(0);
                let c = if w(c) > 1 { ne(c, con(0, w(c))) } else { c };
                match known(c) {
                    Some(true) => {
                        self.st.asserts += 1;
                        Ok(Some(Val::U))
                    }
                    Some(false) => {
                        let m = self.str_arg(s, i(1), i(2));
                        bad(format!("assertion failed: {m}"))
                    }
                    None => Err(Stop::Fork(c)),
                }
            }
            H_COVER => {
                if let Some(k) = cval(i(0)) {
                    s.covers.push(k as u64);
                }
                Ok(Some(Val::U))
            }
            H_PARAM => ok(c64(self.param)),
            H_HEAP => ok(s.heap),
            H_EQBYTES => {
                // sym_bytes_eq(p, q, n) -> bool, decided for every position
                let r = self.memcmp(s, i(0), i(1), i(2), false)?;
                ok(zext(eq(r, con(0, 32)), rt.width()))
            }
            H_END => Err(Stop::End),
            H_ISKNOWN => {
                // engine-only hint: concretise a small value by forking
                let e = i(0);
                let (l, h) = rng(e);
                if l == h {
                    return ok(con(l, w(e)));
                }
                if h.wrapping_sub(l) > 4096 {
                    return unsup("sym_concrete over a large range");
                }
                for k in l..=h {
                    let c = eq(e, con(k, w(e)));
                    match known(c) {
                        Some(true) => return ok(con(k, w(e))),
                        Some(false) => {}
                        None => return Err(Stop::Fork(c)),
                    }
                }
                unsup("sym_concrete: no value is possible")
            }
            H_DEBUG => {
                eprintln!("debug: {}", a.iter().map(|v| match v {
                    Val::I(e) => format!("{} in {:?}", show(*e), rng(*e)),
                    _ => "agg".into(),
                }).collect::<Vec<_>>().join(", "));
                Ok(Some(Val::U))
            }
            _ => Ok(None),
        }
    }
    fn pretty(&self, s: &State, name: &str) -> String {
        let md = s.frames.last().unwrap().f.module;
        self.mods[md].decls.get(name).cloned().filter(|x| !x.is_empty()).unwrap_or(name.to_string())
    }
}

/// Negation that keeps the complementary literal recognisable to the path facts.
/// The condition as a question about a linear form, where bit-blasting would be slow.
fn linear(c: E) -> Option<(Form, Ask)> {
    let (x, v) = match kind(c) {
        K::Xor(x, y) if cval(*y) == Some(1) => (*x, false),
        _ => (c, true),
    };
    let (mut f, ask) = match kind(x) {
        K::Ult(a, b) if w(*a) <= 64 => {
            let (fa, fb) = (form(*a), form(*b));
            if v {
                let mut f = fb;
                form_add(&mut f, &fa, -1);
                f.c -= 1;
                (f, Ask::Nonneg)
            } else {
                let mut f = fa;
                form_add(&mut f, &fb, -1);
                (f, Ask::Nonneg)
            }
        }
        K::Eq(a, b) if w(*a) <= 64 => {
            let mut f = form(*a);
            form_add(&mut f, &form(*b), -1);
            (f, if v { Ask::Zero } else { Ask::NonZero })
        }
        _ => return None,
    };
    if f.t.len() < 2 {
        return None;
    }
    f.t.retain(|x| x.1 != 0);
    Some((f, ask))
}
fn not_raw(c: E) -> E {
    not(c)
}

fn icmp(p: Pred, a: E, b: E) -> E {
    match p {
        Pred::Eq => eq(a, b),
        Pred::Ne => ne(a, b),
        Pred::Ult => ult(a, b),
        Pred::Ule => ule(a, b),
        Pred::Ugt => ult(b, a),
        Pred::Uge => ule(b, a),
        Pred::Slt => slt(a, b),
        Pred::Sle => sle(a, b),
        Pred::Sgt => slt(b, a),
        Pred::Sge => sle(b, a),
    }
}

/// One step of the automaton; the states one-hot: accept, c1, c2, c3, e0, ed, f0, f4.
fn utf8_step(st: &[E; 8], x: E) -> [E; 8] {
    let k = |v: u128| con(v, 8);
    let within = |x: E, lo: u128, hi: u128| and(ule(k(lo), x), ule(x, k(hi)));
    let cont = within(x, 0x80, 0xbf);
    let acc = or(and(st[0], ult(x, k(0x80))), and(st[1], cont));
    let c1 = or(
        and(st[0], within(x, 0xc2, 0xdf)),
        or(
            and(st[2], cont),
            or(and(st[4], within(x, 0xa0, 0xbf)), and(st[5], within(x, 0x80, 0x9f))),
        ),
    );
    let c2 = or(
        and(st[0], or(within(x, 0xe1, 0xec), within(x, 0xee, 0xef))),
        or(
            and(st[3], cont),
            or(and(st[6], within(x, 0x90, 0xbf)), and(st[7], within(x, 0x80, 0x8f))),
        ),
    );
    let c3 = and(st[0], within(x, 0xf1, 0xf3));
    let e0 = and(st[0], eq(x, k(0xe0)));
    let ed = and(st[0], eq(x, k(0xed)));
    let f0 = and(st[0], eq(x, k(0xf0)));
    let f4 = and(st[0], eq(x, k(0xf4)));
    [acc, c1, c2, c3, e0, ed, f0, f4]
}

/// Well-formed UTF-8 (Unicode table 3-7) of the first n of the given bytes.
pub fn utf8_formula(b: &[E], n: E) -> E {
    let f = fls();
    let mut st = [tru(), f, f, f, f, f, f, f];
    for (i, x) in b.iter().enumerate() {
        let act = ult(c64(i as u64), n);
        let nx = utf8_step(&st, *x);
        for j in 0..8 {
            st[j] = ite(act, nx[j], st[j]);
        }
    }
    st[0]
}

/// For ill-formed text: where the first bad sequence starts, whether it ends inside the text, and its length if so.
pub fn utf8_error_formula(b: &[E], n: E) -> (E, E, E) {
    let f = fls();
    let mut st = [tru(), f, f, f, f, f, f, f];
    let (mut dead, mut start, mut len) = (f, c64(0), con(0, 8));
    // bytes of the current sequence so far
    let mut k = con(0, 8);
    for (i, x) in b.iter().enumerate() {
        let act = and(ult(c64(i as u64), n), not(dead));
        let begins = and(act, st[0]);
        start = ite(begins, c64(i as u64), start);
        k = ite(begins, con(0, 8), k);
        let nx = utf8_step(&st, *x);
        let alive = nx.iter().fold(f, |a, b| or(a, *b));
        let dies = and(act, not(alive));
        len = ite(dies, ite(eq(k, con(0, 8)), con(1, 8), k), len);
        k = ite(act, add(k, con(1, 8)), k);
        dead = or(dead, dies);
        for j in 0..8 {
            st[j] = ite(act, nx[j], st[j]);
        }
    }
    (start, ite(dead, con(1, 8), con(0, 8)), len)
}

macro_rules! codes { ($($n:ident = $v:expr),* $(,)?) => { $(const $n: u32 = $v;)* } }
codes! {
    I_NONE = 0, I_NOP = 1, I_MEMCPY = 2, I_MEMSET = 3, I_MEMCMP = 4, I_ALLOC = 5, I_ALLOC_ZERO = 6,
    I_DEALLOC = 7, I_REALLOC = 8, I_PANIC = 9, I_UTF8 = 10, I_BSWAP = 11, I_UMIN = 12, I_UMAX = 13,
    I_SMIN = 14, I_SMAX = 15, I_ABS = 16, I_UCMP = 17, I_SCMP = 18, I_CTPOP = 19, I_CTLZ = 20,
    I_CTTZ = 21, I_FSHL = 22, I_FSHR = 23, I_BITREV = 24, I_USUBSAT = 25, I_UADDSAT = 26,
    I_UADDO = 27, I_USUBO = 28, I_UMULO = 29, I_SADDO = 30, I_SSUBO = 31, I_SMULO = 32,
    I_FIRST = 33, I_TRAP = 34, I_REDUCE = 35,
    H_SYM = 50, H_RANGE = 51, H_CHOOSE = 52, H_FILL = 53, H_ASSUME = 54, H_ASSERT = 55,
    H_COVER = 56, H_PARAM = 57, H_EQBYTES = 58, H_END = 59, H_ISKNOWN = 60, H_DEBUG = 61, H_HEAP = 62, H_SPOIL = 63,
}

fn classify(n: &str) -> u32 {
    if let Some(r) = n.strip_prefix("llvm.") {
        let starts = |p: &str| r.starts_with(p);
        return if starts("memcpy") || starts("memmove") {
            I_MEMCPY
        } else if starts("memset") {
            I_MEMSET
        } else if starts("lifetime")
            || starts("assume")
            || starts("experimental.noalias")
            || starts("dbg")
            || starts("invariant")
            || starts("prefetch")
            || starts("donothing")
        {
            I_NOP
        } else if starts("bswap") {
            I_BSWAP
        } else if starts("umin") {
            I_UMIN
        } else if starts("umax") {
            I_UMAX
        } else if starts("smin") {
            I_SMIN
        } else if starts("smax") {
            I_SMAX
        } else if starts("abs") {
            I_ABS
        } else if starts("ucmp") {
            I_UCMP
        } else if starts("scmp") {
            I_SCMP
        } else if starts("ctpop") {
            I_CTPOP
        } else if starts("ctlz") {
            I_CTLZ
        } else if starts("cttz") {
            I_CTTZ
        } else if starts("fshl") {
            I_FSHL
        } else if starts("fshr") {
            I_FSHR
        } else if starts("bitreverse") {
            I_BITREV
        } else if starts("usub.sat") {
            I_USUBSAT
        } else if starts("uadd.sat") {
            I_UADDSAT
        } else if starts("uadd.with") {
            I_UADDO
        } else if starts("usub.with") {
            I_USUBO
        } else if starts("umul.with") {
            I_UMULO
        } else if starts("sadd.with") {
            I_SADDO
        } else if starts("ssub.with") {
            I_SSUBO
        } else if starts("smul.with") {
            I_SMULO
        } else if starts("expect") || starts("threadlocal.address") || starts("launder") || starts("strip") {
            I_FIRST
        } else if starts("is.constant") {
            I_NOP
        } else if starts("trap") || starts("debugtrap") || starts("ubsantrap") {
            I_TRAP
        } else if starts("vector.reduce") {
            I_REDUCE
        } else {
            I_NONE
        };
    }
    match n {
        "memcmp" | "bcmp" => return I_MEMCMP,
        "memcpy" | "memmove" => return I_MEMCPY,
        "sym_u8" | "sym_u16" | "sym_u32" | "sym_u64" | "sym_bool" => return H_SYM,
        "sym_range" => return H_RANGE,
        "sym_choose" => return H_CHOOSE,
        "sym_fill" => return H_FILL,
        "sym_assume" => return H_ASSUME,
        "sym_assert" => return H_ASSERT,
        "sym_cover" => return H_COVER,
        "sym_param" => return H_PARAM,
        "sym_bytes_eq" => return H_EQBYTES,
        "sym_end" => return H_END,
        "sym_heap" => return H_HEAP,
        "sym_spoil" => return H_SPOIL,
        "sym_concrete" => return H_ISKNOWN,
        "sym_debug" => return H_DEBUG,
        "abort" => return I_TRAP,
        _ => {}
    }
    if n.ends_with("__rust_alloc") {
        return I_ALLOC;
    }
    if n.ends_with("__rust_alloc_zeroed") {
        return I_ALLOC_ZERO;
    }
    if n.ends_with("__rust_dealloc") {
        return I_DEALLOC;
    }
    if n.ends_with("__rust_realloc") {
        return I_REALLOC;
    }
    if n.contains("__rust_no_alloc_shim_is_unstable") {
        return I_NOP;
    }
    if n.contains("4core3str8converts9from_utf8") && n.ends_with("9from_utf8") {
        return I_UTF8;
    }
    if (n.contains("4core9panicking") && !n.contains("const_panic"))
        || n.contains("13unwrap_failed")
        || n.contains("13expect_failed")
        || n.contains("16slice_index_fail")
        || n.contains("16slice_error_fail")
        || n.contains("7raw_vec12handle_error")
        || n.contains("18handle_alloc_error")
        || n.contains("17capacity_overflow")
        || n.contains("rust_begin_unwind")
        || n.contains("panicking11begin_panic")
        || n.contains("14rust_panic")
    {
        return I_PANIC;
    }
    I_NONE
}
