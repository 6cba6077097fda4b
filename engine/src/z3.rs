//! Minimal binding to libz3 and the incremental query layer.
use crate::expr::*;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_uint};
use std::time::Instant;

type P = *mut std::ffi::c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_uint)>);
    fn Z3_get_error_msg(c: P, e: c_uint) -> *const c_char;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_ge(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_dec_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_func_decl(c: P, s: P, n: c_uint, dom: *const P, rng: P) -> P;
    fn Z3_mk_app(c: P, d: P, n: c_uint, a: *const P) -> P;
    fn Z3_func_decl_to_ast(c: P, d: P) -> P;
    fn Z3_sort_to_ast(c: P, d: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
}

extern "C" fn on_err(c: P, e: c_uint) {
    unsafe {
        let m = CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy().into_owned();
        eprintln!("z3 error: {m}");
    }
    std::process::exit(3);
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct QStats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub secs: f64,
    pub max_secs: f64,
}

pub struct Z3 {
    c: P,
    s: P,
    bv: Vec<P>,
    bl: Vec<P>,
    arr: Vec<P>,
    stack: Vec<E>,
    pub st: QStats,
    pub dump: Option<String>,
    pub dump_n: usize,
    int: P,
    ints: FxMap<E, P>,
}
/// What is asked of a linear form.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ask {
    Nonneg,
    Zero,
    NonZero,
}

impl Z3 {
    pub fn new(rlimit: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let l = CString::new("QF_UFBV").unwrap();
            let s = if std::env::var("SYMEX_SIMPLE").is_ok() {
                Z3_mk_simple_solver(c)
            } else {
                Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()))
            };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), rlimit);
            Z3_solver_set_params(c, s, p);
            Z3 { c, s, bv: vec![], bl: vec![], arr: vec![], stack: vec![], st: Default::default(), dump: None, dump_n: 0, int: std::ptr::null_mut(), ints: Default::default() }
        }
    }
    unsafe fn keep(&self, a: P) -> P {
        Z3_inc_ref(self.c, a);
        a
    }
    unsafe fn sort(&self, w: u16) -> P {
        let s = Z3_mk_bv_sort(self.c, w as c_uint);
        Z3_inc_ref(self.c, Z3_sort_to_ast(self.c, s));
        s
    }
    unsafe fn num(&self, v: u128, w: u16) -> P {
        if v <= u64::MAX as u128 {
            self.keep(Z3_mk_unsigned_int64(self.c, v as u64, self.sort(w)))
        } else {
            let s = CString::new(v.to_string()).unwrap();
            self.keep(Z3_mk_numeral(self.c, s.as_ptr(), self.sort(w)))
        }
    }
    unsafe fn arrf(&mut self, a: u32) -> P {
        while self.arr.len() <= a as usize {
            let i = self.arr.len();
            let info = &cx().arrs[i];
            let n = CString::new(format!("{}!{}", info.name, i)).unwrap();
            let wd = if info.max < 128 { 7 } else { 8 };
            let dom = [self.sort(64)];
            let d = Z3_mk_func_decl(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), 1, dom.as_ptr(), self.sort(wd));
            Z3_inc_ref(self.c, Z3_func_decl_to_ast(self.c, d));
            self.arr.push(d);
        }
        self.arr[a as usize]
    }
    /// Boolean translation of a width-1 term.
    fn b(&mut self, e: E) -> P {
        let i = e.0 as usize;
        if self.bl.len() <= i {
            self.bl.resize(cx().nodes.len().max(i + 1), std::ptr::null_mut());
        }
        if !self.bl[i].is_null() {
            return self.bl[i];
        }
        debug_assert_eq!(w(e), 1);
        let c = self.c;
        let r = unsafe {
            match kind(e).clone() {
                K::Const(1) => Z3_mk_true(c),
                K::Const(_) => Z3_mk_false(c),
                K::And(x, y) => {
                    let v = [self.b(x), self.b(y)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                K::Or(x, y) => {
                    let v = [self.b(x), self.b(y)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                K::Xor(x, y) => {
                    if cval(y) == Some(1) {
                        let x = self.b(x);
                        Z3_mk_not(c, x)
                    } else {
                        let (x, y) = (self.b(x), self.b(y));
                        Z3_mk_xor(c, x, y)
                    }
                }
                K::Ite(p, x, y) => {
                    let (p, x, y) = (self.b(p), self.b(x), self.b(y));
                    Z3_mk_ite(c, p, x, y)
                }
                K::Eq(x, y) => {
                    let (x, y) = if w(x) == 1 { (self.b(x), self.b(y)) } else { (self.t(x), self.t(y)) };
                    Z3_mk_eq(c, x, y)
                }
                K::Ult(x, y) => {
                    let (x, y) = (self.t(x), self.t(y));
                    Z3_mk_bvult(c, x, y)
                }
                _ => {
                    let x = self.t(e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        if self.bl.len() <= i {
            self.bl.resize(cx().nodes.len().max(i + 1), std::ptr::null_mut());
        }
        self.bl[i] = r;
        r
    }
    /// Bit-vector translation.
    fn t(&mut self, e: E) -> P {
        let i = e.0 as usize;
        if self.bv.len() <= i {
            self.bv.resize(cx().nodes.len().max(i + 1), std::ptr::null_mut());
        }
        if !self.bv[i].is_null() {
            return self.bv[i];
        }
        let c = self.c;
        let wd = w(e);
        let r = unsafe {
            match kind(e).clone() {
                K::Const(v) => self.num(v, wd),
                K::Var(id) => {
                    let n = CString::new(format!("{}!v{}", cx().vars[id as usize].name, id)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), self.sort(wd))
                }
                K::Sel(a, x) => {
                    let x = self.t(x);
                    let f = self.arrf(a);
                    let v = [x];
                    let r = self.keep(Z3_mk_app(c, f, 1, v.as_ptr()));
                    if cx().arrs[a as usize].max < 128 {
                        Z3_mk_zero_ext(c, 1, r)
                    } else {
                        r
                    }
                }
                K::Lin(k, t) => {
                    let mut acc = if k != 0 { Some(self.num(k, wd)) } else { None };
                    for (x, q) in t.iter() {
                        let mut p = self.t(*x);
                        if *q != 1 {
                            let n = self.num(*q, wd);
                            p = self.keep(Z3_mk_bvmul(c, n, p));
                        }
                        acc = Some(match acc {
                            None => p,
                            Some(a) => self.keep(Z3_mk_bvadd(c, a, p)),
                        });
                    }
                    acc.unwrap()
                }
                K::Cat(p) => {
                    let mut acc = self.t(p[0]);
                    for x in p[1..].iter() {
                        let y = self.t(*x);
                        acc = self.keep(Z3_mk_concat(c, acc, y));
                    }
                    acc
                }
                K::Ext(x, h, l) => {
                    let x = self.t(x);
                    Z3_mk_extract(c, h as c_uint, l as c_uint, x)
                }
                K::SExt(x) => {
                    let n = wd - w(x);
                    let x = self.t(x);
                    Z3_mk_sign_ext(c, n as c_uint, x)
                }
                K::Shl(x, y) => {
                    let (x, y) = (self.t(x), self.t(y));
                    Z3_mk_bvshl(c, x, y)
                }
                K::LShr(x, y) => {
                    let (x, y) = (self.t(x), self.t(y));
                    Z3_mk_bvlshr(c, x, y)
                }
                K::AShr(x, y) => {
                    let (x, y) = (self.t(x), self.t(y));
                    Z3_mk_bvashr(c, x, y)
                }
                K::Mul(x, y) => {
                    let (x, y) = (self.t(x), self.t(y));
                    Z3_mk_bvmul(c, x, y)
                }
                K::UDiv(x, y) => {
                    let (x, y) = (self.t(x), self.t(y));
                    Z3_mk_bvudiv(c, x, y)
                }
                K::URem(x, y) => {
                    let (x, y) = (self.t(x), self.t(y));
                    Z3_mk_bvurem(c, x, y)
                }
                K::SDiv(x, y) => {
                    let (x, y) = (self.t(x), self.t(y));
                    Z3_mk_bvsdiv(c, x, y)
                }
                K::SRem(x, y) => {
                    let (x, y) = (self.t(x), self.t(y));
                    Z3_mk_bvsrem(c, x, y)
                }
                K::And(x, y) if wd > 1 => {
                    let (x, y) = (self.t(x), self.t(y));
                    Z3_mk_bvand(c, x, y)
                }
                K::Or(x, y) if wd > 1 => {
                    let (x, y) = (self.t(x), self.t(y));
                    Z3_mk_bvor(c, x, y)
                }
                K::Xor(x, y) if wd > 1 => {
                    let (x, y) = (self.t(x), self.t(y));
                    Z3_mk_bvxor(c, x, y)
                }
                K::Ite(p, x, y) if wd > 1 => {
                    let (p, x, y) = (self.b(p), self.t(x), self.t(y));
                    Z3_mk_ite(c, p, x, y)
                }
                _ => {
                    // boolean-natured term used as a bit
                    let x = self.b(e);
                    let (o, z) = (self.num(1, 1), self.num(0, 1));
                    Z3_mk_ite(c, x, o, z)
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        if self.bv.len() <= i {
            self.bv.resize(cx().nodes.len().max(i + 1), std::ptr::null_mut());
        }
        self.bv[i] = r;
        r
    }

    fn sync(&mut self, pc: &[E]) {
        let mut n = 0;
        while n < pc.len() && n < self.stack.len() && pc[n] == self.stack[n] {
            n += 1;
        }
        unsafe {
            if self.stack.len() > n {
                Z3_solver_pop(self.c, self.s, (self.stack.len() - n) as c_uint);
                self.stack.truncate(n);
            }
            for e in &pc[n..] {
                let a = self.b(*e);
                Z3_solver_push(self.c, self.s);
                Z3_solver_assert(self.c, self.s, a);
                self.stack.push(*e);
            }
        }
    }

    unsafe fn int_form(&mut self, f: &Form, vars: &mut Vec<E>) -> P {
        let num = |z: &Z3, v: i128| {
            let s = CString::new(v.to_string()).unwrap();
            z.keep(Z3_mk_numeral(z.c, s.as_ptr(), z.int))
        };
        let mut p = vec![num(self, f.c)];
        for (e, k) in &f.t {
            let x = match self.ints.get(e) {
                Some(x) => *x,
                None => {
                    let n = CString::new(format!("i!{}", e.0)).unwrap();
                    let x = self.keep(Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), self.int));
                    self.ints.insert(*e, x);
                    x
                }
            };
            if !vars.contains(e) {
                vars.push(*e);
            }
            let k = num(self, *k);
            let kx = [k, x];
            p.push(self.keep(Z3_mk_mul(self.c, 2, kx.as_ptr())));
        }
        let r = self.keep(Z3_mk_add(self.c, p.len() as c_uint, p.as_ptr()));
        for (i, x) in p.iter().enumerate() {
            let _ = i;
            Z3_dec_ref(self.c, *x);
        }
        r
    }
    /// Linear integer arithmetic: are the known forms (all >= 0), the ranges of their atoms and the
    /// condition consistent? Every known form follows from the path, so Unsat carries over to it;
    /// Sat comes with values to be tried.
    pub fn lia(&mut self, rel: &[Form], f: &Form, ask: Ask) -> (Sat, Vec<(E, u128)>) {
        let t0 = Instant::now();
        let mut out = vec![];
        let r;
        unsafe {
            if self.int.is_null() {
                self.int = Z3_mk_int_sort(self.c);
                Z3_inc_ref(self.c, Z3_sort_to_ast(self.c, self.int));
            }
            let l = CString::new("QF_LIA").unwrap();
            let s = Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, l.as_ptr()));
            Z3_solver_inc_ref(self.c, s);
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), 2_000_000);
            Z3_solver_set_params(self.c, s, p);
            let mut vars = vec![];
            let z = CString::new("0").unwrap();
            let zero = self.keep(Z3_mk_numeral(self.c, z.as_ptr(), self.int));
            for g in rel {
                let a = self.int_form(g, &mut vars);
                Z3_solver_assert(self.c, s, Z3_mk_ge(self.c, a, zero));
                Z3_dec_ref(self.c, a);
            }
            let a = self.int_form(f, &mut vars);
            let c = match ask {
                Ask::Nonneg => Z3_mk_ge(self.c, a, zero),
                Ask::Zero => Z3_mk_eq(self.c, a, zero),
                Ask::NonZero => Z3_mk_not(self.c, self.keep(Z3_mk_eq(self.c, a, zero))),
            };
            Z3_solver_assert(self.c, s, c);
            Z3_dec_ref(self.c, a);
            for v in &vars {
                let (lo, hi) = rng(*v);
                let x = self.ints[v];
                for (b, up) in [(lo, false), (hi, true)] {
                    let t = CString::new(b.to_string()).unwrap();
                    let b = self.keep(Z3_mk_numeral(self.c, t.as_ptr(), self.int));
                    let c = if up { Z3_mk_le(self.c, x, b) } else { Z3_mk_ge(self.c, x, b) };
                    Z3_solver_assert(self.c, s, c);
                }
            }
            r = match Z3_solver_check(self.c, s) {
                1 => Sat::Sat,
                -1 => Sat::Unsat,
                _ => Sat::Unknown,
            };
            if r == Sat::Sat {
                let m = Z3_solver_get_model(self.c, s);
                Z3_model_inc_ref(self.c, m);
                for v in &vars {
                    let x = self.ints[v];
                    out.push((*v, self.evalm(m, x)));
                }
                Z3_model_dec_ref(self.c, m);
            }
            Z3_solver_dec_ref(self.c, s);
        }
        let dt = t0.elapsed().as_secs_f64();
        self.st.secs += dt;
        if r == Sat::Unsat {
            self.st.queries += 1;
            self.st.unsat += 1;
        }
        (r, out)
    }

    /// Is pc /\ cond satisfiable? A model is returned for Sat.
    pub fn check(&mut self, pc: &[E], cond: E) -> (Sat, Option<Model>) {
        let t0 = Instant::now();
        self.sync(pc);
        let r;
        let mut model = None;
        unsafe {
            let a = self.b(cond);
            Z3_solver_push(self.c, self.s);
            Z3_solver_assert(self.c, self.s, a);
            let k = Z3_solver_check(self.c, self.s);
            r = match k {
                1 => Sat::Sat,
                -1 => Sat::Unsat,
                _ => Sat::Unknown,
            };
            if let Some(d) = &self.dump {
                if r != Sat::Unknown && self.st.queries % 7 == 0 && self.dump_n < 40 {
                    let s = CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned();
                    let f = format!("{d}.{}.{}.smt2", self.dump_n, if r == Sat::Sat { "sat" } else { "unsat" });
                    let _ = std::fs::write(f, format!("(set-logic ALL)\n{s}\n(check-sat)\n"));
                    self.dump_n += 1;
                }
            }
            if r == Sat::Sat {
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                model = Some(self.extract(m, pc, cond));
                Z3_model_dec_ref(self.c, m);
            }
            Z3_solver_pop(self.c, self.s, 1);
        }
        let dt = t0.elapsed().as_secs_f64();
        self.st.queries += 1;
        self.st.secs += dt;
        if dt > self.st.max_secs {
            self.st.max_secs = dt;
        }
        match r {
            Sat::Sat => self.st.sat += 1,
            Sat::Unsat => self.st.unsat += 1,
            Sat::Unknown => self.st.unknown += 1,
        }
        if dt > std::env::var("SYMEX_SLOW").ok().and_then(|x| x.parse().ok()).unwrap_or(2.0) && std::env::var("SYMEX_SLOW").is_ok() {
            eprintln!("slow query {dt:.1}s {:?} cond {}", r, show(cond));
            for p in pc {
                eprintln!("   pc {}", show(*p));
            }
        }
        (r, model)
    }
    unsafe fn evalm(&mut self, m: P, a: P) -> u128 {
        let mut out: P = std::ptr::null_mut();
        if !Z3_model_eval(self.c, m, a, true, &mut out) || out.is_null() {
            return 0;
        }
        Z3_inc_ref(self.c, out);
        let s = CStr::from_ptr(Z3_get_numeral_string(self.c, out)).to_string_lossy();
        s.parse::<u128>().unwrap_or(0)
    }
    unsafe fn extract(&mut self, m: P, pc: &[E], cond: E) -> Model {
        let mut md = Model::default();
        let mut seen: FxMap<E, ()> = Default::default();
        let mut st: Vec<E> = pc.to_vec();
        st.push(cond);
        while let Some(e) = st.pop() {
            if seen.insert(e, ()).is_some() {
                continue;
            }
            match kind(e) {
                K::Var(id) => {
                    let a = self.t(e);
                    let v = self.evalm(m, a);
                    md.vars.insert(*id, v);
                }
                K::Sel(a, i) => {
                    let (a, i) = (*a, *i);
                    let ze = self.t(e);
                    let zi = self.t(i);
                    let v = self.evalm(m, ze);
                    let k = self.evalm(m, zi);
                    md.arrs.entry(a).or_default().insert(k as u64, v as u8);
                    st.push(i);
                }
                _ => kids(e, &mut st),
            }
        }
        md
    }
}
