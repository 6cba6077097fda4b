//! Textual LLVM IR reader.
//!
//! A module file is indexed first (functions by byte range, globals by their
//! line); a function body is parsed the first time it is executed.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Float(u16),
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u64, Rc<Ty>),
    Meta,
    Opaque,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta | Ty::Opaque => 0,
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => n * t.size(),
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                let mut al = 1;
                for t in ts.iter() {
                    let a = if *packed { 1 } else { t.align() };
                    al = al.max(a);
                    o = (o + a - 1) / a * a;
                    o += t.size();
                }
                (o + al - 1) / al * al
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => n * t.size(),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn field(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for (k, t) in ts.iter().enumerate() {
                    let a = if *packed { 1 } else { t.align() };
                    o = (o + a - 1) / a * a;
                    if k as u64 == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            _ => panic!("field of scalar"),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            Ty::Struct(ts, _) => ts.len(),
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..))
    }
    /// Width in bits of a scalar.
    pub fn width(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum C {
    Int(u16, u128),
    Null,
    Undef(Ty),
    Zero(Ty),
    Agg(Vec<C>, Ty),
    Str(Vec<u8>),
    Global(String),
    Gep(Box<C>, i64),
    IntToPtr(Box<C>),
    PtrToInt(Box<C>, u16),
    Bin(String, Box<C>, Box<C>, u16),
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    K(C),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinK {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    BitCast,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(String),
    Indirect(Op),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(BinK, Ty, u32, Op, Op),
    Icmp(Pred, Ty, u32, Op, Op),
    Cast(CastK, Ty, Ty, u32, Op),
    Load(u32, Ty, Op),
    Store(Ty, Op, Op),
    Gep(u32, Op, i64, Vec<(Op, u16, u64)>),
    Alloca(u32, u64, Option<Op>),
    Select(u32, Ty, Op, Op, Op),
    Extract(u32, Op, Vec<u64>, Ty),
    Insert(u32, Op, Op, Vec<u64>, Ty),
    ExtractElem(u32, Op, Op, Ty),
    InsertElem(u32, Op, Op, Op, Ty),
    Shuffle(u32, Op, Op, Vec<i64>, Ty),
    Call(Option<u32>, Ty, Callee, Vec<(Ty, Op)>, Option<usize>),
    Br(usize),
    CondBr(Op, usize, usize),
    Switch(Op, u16, usize, Vec<(u128, usize)>),
    Ret(Option<(Ty, Op)>),
    Unreachable,
    AtomicRmw(String, u32, Ty, Op, Op),
    CmpXchg(u32, Ty, Op, Op, Op),
    Freeze(u32, Ty, Op),
    Nop,
    Unsup(String),
}

pub struct Block {
    pub name: String,
    pub phis: Vec<(u32, Ty, Vec<(usize, Op)>)>,
    pub insts: Vec<Inst>,
}
pub struct Func {
    pub name: String,
    pub pretty: String,
    pub module: usize,
    pub params: Vec<(u32, Ty)>,
    pub ret: Ty,
    pub nslots: usize,
    pub blocks: Vec<Block>,
}

pub struct FnDef {
    pub module: usize,
    pub start: usize,
    pub end: usize,
    pub pretty: String,
    pub internal: bool,
}
pub struct GlobalDef {
    pub module: usize,
    pub line: (usize, usize),
    pub internal: bool,
}
pub struct Module {
    pub path: String,
    pub text: Rc<Vec<u8>>,
    pub fns: HashMap<String, FnDef>,
    pub globals: HashMap<String, GlobalDef>,
    pub types: HashMap<String, (usize, usize)>,
    pub decls: HashMap<String, String>,
}

fn find(hay: &[u8], from: usize, needle: &[u8]) -> Option<usize> {
    let n = needle.len();
    let mut i = from;
    while i + n <= hay.len() {
        if hay[i] == needle[0] && &hay[i..i + n] == needle {
            return Some(i);
        }
        i += 1;
    }
    None
}

/// Parse `"..."` or plain identifier at position i (after the sigil).
fn ident(t: &[u8], i: usize) -> (String, usize) {
    if i < t.len() && t[i] == b'"' {
        let mut j = i + 1;
        let mut out = Vec::new();
        while t[j] != b'"' {
            if t[j] == b'\\' {
                let h = std::str::from_utf8(&t[j + 1..j + 3]).unwrap();
                out.push(u8::from_str_radix(h, 16).unwrap());
                j += 3;
            } else {
                out.push(t[j]);
                j += 1;
            }
        }
        (String::from_utf8_lossy(&out).into_owned(), j + 1)
    } else {
        let mut j = i;
        while j < t.len()
            && (t[j].is_ascii_alphanumeric() || matches!(t[j], b'_' | b'.' | b'$' | b'-'))
        {
            j += 1;
        }
        (String::from_utf8_lossy(&t[i..j]).into_owned(), j)
    }
}

impl Module {
    pub fn index(path: &str, id: usize) -> Module {
        let text = std::fs::read(path).unwrap_or_else(|e| panic!("{path}: {e}"));
        let mut m = Module {
            path: path.to_string(),
            text: Rc::new(vec![]),
            fns: HashMap::new(),
            globals: HashMap::new(),
            types: HashMap::new(),
            decls: HashMap::new(),
        };
        let mut i = 0;
        let mut pretty = String::new();
        while i < text.len() {
            let eol = text[i..]
                .iter()
                .position(|c| *c == b'\n')
                .map(|p| i + p)
                .unwrap_or(text.len());
            match text[i] {
                b';' => {
                    let l = std::str::from_utf8(&text[i..eol]).unwrap_or("").trim();
                    if l != "; Function Attrs:" && !l.starts_with("; Function Attrs") {
                        pretty = l.trim_start_matches(';').trim().to_string();
                    }
                }
                b'd' if text[i..].starts_with(b"define ") => {
                    let at = find(&text, i, b"@").unwrap();
                    let (name, _) = ident(&text, at + 1);
                    let head = &text[i..at];
                    let internal = find(head, 0, b" internal ").is_some()
                        || find(head, 0, b" private ").is_some();
                    let end = find(&text, i, b"\n}\n").unwrap_or(text.len() - 2) + 2;
                    m.fns.insert(
                        name,
                        FnDef { module: id, start: i, end, pretty: std::mem::take(&mut pretty), internal },
                    );
                    i = end + 1;
                    continue;
                }
                b'd' if text[i..].starts_with(b"declare ") => {
                    let at = find(&text, i, b"@").unwrap();
                    let (name, _) = ident(&text, at + 1);
                    m.decls.insert(name, std::mem::take(&mut pretty));
                }
                b'@' => {
                    let (name, e) = ident(&text, i + 1);
                    let head = &text[e..eol.min(e + 40)];
                    let internal = find(head, 0, b" private ").is_some()
                        || find(head, 0, b" internal ").is_some();
                    m.globals.insert(name, GlobalDef { module: id, line: (e, eol), internal });
                }
                b'%' => {
                    let (name, e) = ident(&text, i + 1);
                    m.types.insert(name, (e, eol));
                }
                _ => {}
            }
            i = eol + 1;
        }
        m.text = Rc::new(text);
        m
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Loc(String),
    Glob(String),
    W(String),
    Num(String),
    Str(Vec<u8>),
    P(u8),
    Meta,
    Attr,
    Eol,
    End,
}

pub struct Lex {
    t: Rc<Vec<u8>>,
    i: usize,
    end: usize,
    pub tok: Tok,
}

impl Lex {
    pub fn new(t: Rc<Vec<u8>>, i: usize, end: usize) -> Lex {
        let mut l = Lex { t, i, end, tok: Tok::End };
        l.next();
        l
    }
    fn raw(&mut self) -> Tok {
        let t = self.t.clone();
        loop {
            if self.i >= self.end {
                return Tok::End;
            }
            let c = t[self.i];
            match c {
                b' ' | b'\t' | b'\r' => self.i += 1,
                b';' => {
                    while self.i < self.end && t[self.i] != b'\n' {
                        self.i += 1;
                    }
                }
                b'\n' => {
                    self.i += 1;
                    return Tok::Eol;
                }
                b'%' => {
                    let (n, e) = ident(&t, self.i + 1);
                    self.i = e;
                    return Tok::Loc(n);
                }
                b'@' => {
                    let (n, e) = ident(&t, self.i + 1);
                    self.i = e;
                    return Tok::Glob(n);
                }
                b'!' => {
                    // metadata reference or node: skip token
                    self.i += 1;
                    while self.i < self.end
                        && (t[self.i].is_ascii_alphanumeric() || matches!(t[self.i], b'.' | b'_'))
                    {
                        self.i += 1;
                    }
                    return Tok::Meta;
                }
                b'#' => {
                    self.i += 1;
                    while self.i < self.end && t[self.i].is_ascii_digit() {
                        self.i += 1;
                    }
                    return Tok::Attr;
                }
                b'"' => {
                    let mut j = self.i + 1;
                    let mut out = Vec::new();
                    while t[j] != b'"' {
                        if t[j] == b'\\' {
                            let h = std::str::from_utf8(&t[j + 1..j + 3]).unwrap();
                            out.push(u8::from_str_radix(h, 16).unwrap());
                            j += 3;
                        } else {
                            out.push(t[j]);
                            j += 1;
                        }
                    }
                    self.i = j + 1;
                    return Tok::Str(out);
                }
                b'c' if self.i + 1 < self.end && t[self.i + 1] == b'"' => {
                    self.i += 1;
                    return self.raw();
                }
                _ if c.is_ascii_digit()
                    || (c == b'-' && self.i + 1 < self.end && t[self.i + 1].is_ascii_digit()) =>
                {
                    let s = self.i;
                    self.i += 1;
                    while self.i < self.end
                        && (t[self.i].is_ascii_alphanumeric() || matches!(t[self.i], b'.' | b'+'))
                    {
                        self.i += 1;
                    }
                    let s = String::from_utf8_lossy(&t[s..self.i]).into_owned();
                    return Tok::Num(s);
                }
                _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' || c == b'.' => {
                    let s = self.i;
                    while self.i < self.end
                        && (t[self.i].is_ascii_alphanumeric()
                            || matches!(t[self.i], b'_' | b'.' | b'$' | b'-'))
                    {
                        self.i += 1;
                    }
                    let s = String::from_utf8_lossy(&t[s..self.i]).into_owned();
                    return Tok::W(s);
                }
                _ => {
                    self.i += 1;
                    return Tok::P(c);
                }
            }
        }
    }
    pub fn next(&mut self) -> Tok {
        let n = self.raw();
        std::mem::replace(&mut self.tok, n)
    }
    fn is_w(&self, s: &str) -> bool {
        matches!(&self.tok, Tok::W(w) if w == s)
    }
    fn eat_w(&mut self, s: &str) -> bool {
        if self.is_w(s) {
            self.next();
            true
        } else {
            false
        }
    }
    fn is_p(&self, c: u8) -> bool {
        self.tok == Tok::P(c)
    }
    fn eat_p(&mut self, c: u8) -> bool {
        if self.is_p(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn want_p(&mut self, c: u8) -> Result<(), String> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected '{}' got {:?}", c as char, self.tok))
        }
    }
    fn skip_line(&mut self) {
        while !matches!(self.tok, Tok::Eol | Tok::End) {
            self.next();
        }
    }
    fn skip_parens(&mut self) {
        // current token is '('
        let mut d = 0;
        loop {
            match &self.tok {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        self.next();
                        return;
                    }
                }
                Tok::End => return,
                _ => {}
            }
            self.next();
        }
    }
}

type R<T> = Result<T, String>;

pub struct Parser<'a> {
    pub m: &'a Module,
    pub lx: Lex,
    slots: HashMap<String, u32>,
}

fn parse_int(s: &str, w: u16) -> u128 {
    let v: u128 = if let Some(r) = s.strip_prefix('-') {
        (r.parse::<u128>().unwrap_or(0)).wrapping_neg()
    } else if let Some(r) = s.strip_prefix("u0x") {
        u128::from_str_radix(r, 16).unwrap_or(0)
    } else {
        s.parse::<u128>().unwrap_or(0)
    };
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}

fn is_type_start(t: &Tok) -> bool {
    match t {
        Tok::W(w) => {
            (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
                || matches!(
                    w.as_str(),
                    "void" | "ptr" | "float" | "double" | "half" | "fp128" | "metadata" | "label" | "token" | "x86_fp80" | "bfloat"
                )
        }
        Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') => true,
        _ => false,
    }
}

impl<'a> Parser<'a> {
    pub fn new(m: &'a Module, s: usize, e: usize) -> Parser<'a> {
        Parser { m, lx: Lex::new(m.text.clone(), s, e), slots: HashMap::new() }
    }
    fn err<T>(&self, s: &str) -> R<T> {
        Err(format!("{s}: at {:?}", self.lx.tok))
    }

    pub fn ty(&mut self) -> R<Ty> {
        let t = match self.lx.next() {
            Tok::W(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.lx.is_w("addrspace") {
                        self.lx.next();
                        self.lx.skip_parens();
                    }
                    Ty::Ptr
                }
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "half" | "bfloat" => Ty::Float(16),
                "fp128" => Ty::Float(128),
                "x86_fp80" => Ty::Float(128),
                "metadata" | "label" | "token" => Ty::Meta,
                "opaque" => Ty::Opaque,
                _ if w.starts_with('i') => {
                    let n = w[1..].parse::<u16>().map_err(|_| format!("type {w}"))?;
                    Ty::Int(n)
                }
                _ => return Err(format!("type {w}")),
            },
            Tok::P(b'[') => {
                let n = match self.lx.next() {
                    Tok::Num(n) => n.parse::<u64>().unwrap(),
                    t => return Err(format!("array len {t:?}")),
                };
                if !self.lx.eat_w("x") {
                    return self.err("array x");
                }
                let t = self.ty()?;
                self.lx.want_p(b']')?;
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P(b'{') => {
                let ts = self.ty_list(b'}')?;
                Ty::Struct(Rc::new(ts), false)
            }
            Tok::P(b'<') => {
                if self.lx.eat_p(b'{') {
                    let ts = self.ty_list(b'}')?;
                    self.lx.want_p(b'>')?;
                    Ty::Struct(Rc::new(ts), true)
                } else {
                    let n = match self.lx.next() {
                        Tok::Num(n) => n.parse::<u64>().unwrap(),
                        t => return Err(format!("vector len {t:?}")),
                    };
                    if !self.lx.eat_w("x") {
                        return self.err("vector x");
                    }
                    let t = self.ty()?;
                    self.lx.want_p(b'>')?;
                    Ty::Vec(n, Rc::new(t))
                }
            }
            Tok::Loc(n) => {
                let (s, e) = *self.m.types.get(&n).ok_or(format!("type %{n}"))?;
                let mut p = Parser::new(self.m, s, e);
                p.lx.want_p(b'=')?;
                if !p.lx.eat_w("type") {
                    return Err("type def".into());
                }
                p.ty()?
            }
            t => return Err(format!("type? {t:?}")),
        };
        Ok(t)
    }
    fn ty_list(&mut self, close: u8) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.lx.eat_p(close) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.lx.eat_p(b',') {
                continue;
            }
            self.lx.want_p(close)?;
            return Ok(v);
        }
    }

    fn slot(&mut self, n: String) -> u32 {
        let k = self.slots.len() as u32;
        *self.slots.entry(n).or_insert(k)
    }

    /// A value of a known type.
    fn val(&mut self, ty: &Ty) -> R<Op> {
        if let Tok::Loc(_) = self.lx.tok {
            if let Tok::Loc(n) = self.lx.next() {
                return Ok(Op::R(self.slot(n)));
            }
        }
        if *ty == Ty::Meta {
            // metadata operand: skip up to , or )
            let mut d = 0;
            loop {
                match &self.lx.tok {
                    Tok::P(b'(') | Tok::P(b'{') => d += 1,
                    Tok::P(b'}') => d -= 1,
                    Tok::P(b')') if d == 0 => break,
                    Tok::P(b')') => d -= 1,
                    Tok::P(b',') if d == 0 => break,
                    Tok::End | Tok::Eol => break,
                    _ => {}
                }
                self.lx.next();
            }
            return Ok(Op::K(C::Int(1, 0)));
        }
        Ok(Op::K(self.cst(ty)?))
    }

    pub fn cst(&mut self, ty: &Ty) -> R<C> {
        match self.lx.next() {
            Tok::Num(n) => match ty {
                Ty::Int(w) => Ok(C::Int(*w, parse_int(&n, *w))),
                Ty::Float(w) => {
                    if let Some(h) = n.strip_prefix("0x") {
                        let h = h.trim_start_matches(|c: char| matches!(c, 'K' | 'L' | 'M' | 'H' | 'R'));
                        Ok(C::Int(*w, u128::from_str_radix(h, 16).unwrap_or(0)))
                    } else {
                        let f: f64 = n.parse().unwrap_or(0.0);
                        Ok(C::Int(*w, if *w == 32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 }))
                    }
                }
                _ => Err(format!("num for {ty:?}")),
            },
            Tok::Glob(n) => Ok(C::Global(n)),
            Tok::Str(s) => Ok(C::Str(s)),
            Tok::W(w) => match w.as_str() {
                "true" => Ok(C::Int(1, 1)),
                "false" => Ok(C::Int(1, 0)),
                "null" => Ok(C::Null),
                "undef" | "poison" => Ok(C::Undef(ty.clone())),
                "zeroinitializer" => Ok(C::Zero(ty.clone())),
                "splat" => {
                    self.lx.want_p(b'(')?;
                    let t = self.ty()?;
                    let c = self.cst(&t)?;
                    self.lx.want_p(b')')?;
                    Ok(C::Agg(vec![c; ty.nfields()], ty.clone()))
                }
                "getelementptr" => {
                    self.skip_words();
                    self.lx.want_p(b'(')?;
                    let sty = self.ty()?;
                    self.lx.want_p(b',')?;
                    self.ty()?;
                    self.skip_words_keep_const();
                    let base = self.cst(&Ty::Ptr)?;
                    let mut idx = vec![];
                    while self.lx.eat_p(b',') {
                        self.lx.eat_w("inrange");
                        let t = self.ty()?;
                        match self.cst(&t)? {
                            C::Int(w, v) => {
                                let s = if w < 64 { (((v as u64) << (64 - w)) as i64) >> (64 - w) } else { v as u64 as i64 };
                                idx.push(s)
                            }
                            _ => return Err("const gep index".into()),
                        }
                    }
                    self.lx.want_p(b')')?;
                    let mut off = 0i64;
                    let mut cur = sty;
                    for (k, i) in idx.iter().enumerate() {
                        if k == 0 {
                            off += i * cur.size() as i64;
                        } else {
                            let (o, t) = cur.field(*i as u64);
                            off += o as i64;
                            cur = t;
                        }
                    }
                    Ok(C::Gep(Box::new(base), off))
                }
                "inttoptr" => {
                    self.lx.want_p(b'(')?;
                    let t = self.ty()?;
                    let c = self.cst(&t)?;
                    if !self.lx.eat_w("to") {
                        return self.err("inttoptr to");
                    }
                    self.ty()?;
                    self.lx.want_p(b')')?;
                    Ok(C::IntToPtr(Box::new(c)))
                }
                "ptrtoint" | "ptrtoaddr" => {
                    self.lx.want_p(b'(')?;
                    let t = self.ty()?;
                    let c = self.cst(&t)?;
                    if !self.lx.eat_w("to") {
                        return self.err("ptrtoint to");
                    }
                    let t = self.ty()?;
                    self.lx.want_p(b')')?;
                    Ok(C::PtrToInt(Box::new(c), t.width()))
                }
                "sub" | "add" | "mul" | "xor" | "and" | "or" | "shl" => {
                    self.skip_words();
                    self.lx.want_p(b'(')?;
                    let t = self.ty()?;
                    let a = self.cst(&t)?;
                    self.lx.want_p(b',')?;
                    let t2 = self.ty()?;
                    let b = self.cst(&t2)?;
                    self.lx.want_p(b')')?;
                    Ok(C::Bin(w, Box::new(a), Box::new(b), t.width()))
                }
                "trunc" | "bitcast" | "addrspacecast" => {
                    self.lx.want_p(b'(')?;
                    let t = self.ty()?;
                    let c = self.cst(&t)?;
                    if !self.lx.eat_w("to") {
                        return self.err("cast to");
                    }
                    let t2 = self.ty()?;
                    self.lx.want_p(b')')?;
                    if w == "trunc" {
                        Ok(C::PtrToInt(Box::new(c), t2.width()))
                    } else {
                        Ok(c)
                    }
                }
                _ => Err(format!("const {w}")),
            },
            Tok::P(b'{') => {
                let v = self.cst_list(b'}')?;
                Ok(C::Agg(v, ty.clone()))
            }
            Tok::P(b'[') => {
                let v = self.cst_list(b']')?;
                Ok(C::Agg(v, ty.clone()))
            }
            Tok::P(b'<') => {
                if self.lx.eat_p(b'{') {
                    let v = self.cst_list(b'}')?;
                    self.lx.want_p(b'>')?;
                    Ok(C::Agg(v, ty.clone()))
                } else {
                    let v = self.cst_list(b'>')?;
                    Ok(C::Agg(v, ty.clone()))
                }
            }
            t => Err(format!("const? {t:?}")),
        }
    }
    fn cst_list(&mut self, close: u8) -> R<Vec<C>> {
        let mut v = vec![];
        if self.lx.eat_p(close) {
            return Ok(v);
        }
        loop {
            let t = self.ty()?;
            v.push(self.cst(&t)?);
            if self.lx.eat_p(b',') {
                continue;
            }
            self.lx.want_p(close)?;
            return Ok(v);
        }
    }

    fn skip_words(&mut self) {
        // flags such as nuw nsw inbounds exact samesign volatile ...
        loop {
            match &self.lx.tok {
                Tok::W(w) if !is_type_start(&Tok::W(w.clone())) => {
                    self.lx.next();
                    if self.lx.is_p(b'(') && !is_type_start(&self.lx.tok) {
                        // inrange(-8, 16)
                        // only skip when preceded by a flag word with arguments
                        // (getelementptr handles its own parenthesis)
                        let save = self.lx.i;
                        let t = self.lx.tok.clone();
                        // heuristic: attribute arguments contain no type as first token or are numbers
                        self.lx.next();
                        if matches!(self.lx.tok, Tok::Num(_)) {
                            while !self.lx.is_p(b')') {
                                self.lx.next();
                            }
                            self.lx.next();
                        } else {
                            self.lx.i = save;
                            self.lx.tok = t;
                            return;
                        }
                    }
                }
                _ => return,
            }
        }
    }
    fn skip_words_keep_const(&mut self) {
        self.param_attrs();
    }

    /// Parameter/return attributes before a value or type.
    fn param_attrs(&mut self) {
        loop {
            match &self.lx.tok {
                Tok::W(w) => {
                    if is_type_start(&self.lx.tok)
                        || matches!(
                            w.as_str(),
                            "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat"
                                | "getelementptr" | "inttoptr" | "ptrtoint" | "sub" | "add" | "mul" | "xor"
                                | "and" | "or" | "shl" | "trunc" | "bitcast" | "addrspacecast" | "asm" | "ptrtoaddr"
                        )
                    {
                        return;
                    }
                    let w = w.clone();
                    self.lx.next();
                    if w == "align" {
                        if let Tok::Num(_) = self.lx.tok {
                            self.lx.next();
                        }
                    }
                    if self.lx.is_p(b'(') {
                        self.lx.skip_parens();
                    }
                }
                Tok::Str(_) => {
                    self.lx.next();
                    if self.lx.eat_p(b'=') {
                        self.lx.next();
                    }
                }
                _ => return,
            }
        }
    }

    fn typed(&mut self) -> R<(Ty, Op)> {
        let t = self.ty()?;
        let v = self.val(&t)?;
        Ok((t, v))
    }

    fn label(&mut self, labels: &mut HashMap<String, usize>) -> R<usize> {
        if !self.lx.eat_w("label") {
            return self.err("label");
        }
        match self.lx.next() {
            Tok::Loc(n) => {
                let k = labels.len();
                Ok(*labels.entry(n).or_insert(k))
            }
            t => Err(format!("label {t:?}")),
        }
    }

    pub fn function(mut self, def: &FnDef, name: &str) -> R<Func> {
        // header
        if !self.lx.eat_w("define") {
            return self.err("define");
        }
        // linkage, attrs up to the return type
        self.param_attrs();
        let ret = self.ty()?;
        match self.lx.next() {
            Tok::Glob(_) => {}
            t => return Err(format!("fn name {t:?}")),
        }
        self.lx.want_p(b'(')?;
        let mut params = vec![];
        let mut argno = 0;
        if !self.lx.eat_p(b')') {
            loop {
                if self.lx.is_p(b'.') || self.lx.is_w("...") {
                    self.lx.next();
                    while !self.lx.is_p(b')') {
                        self.lx.next();
                    }
                } else {
                    let t = self.ty()?;
                    self.param_attrs();
                    let n = if let Tok::Loc(_) = self.lx.tok {
                        match self.lx.next() {
                            Tok::Loc(n) => n,
                            _ => unreachable!(),
                        }
                    } else {
                        let n = format!("{argno}");
                        n
                    };
                    if n.bytes().all(|c| c.is_ascii_digit()) {
                        argno += 1;
                    }
                    let s = self.slot(n);
                    params.push((s, t));
                }
                if self.lx.eat_p(b',') {
                    continue;
                }
                self.lx.want_p(b')')?;
                break;
            }
        }
        // skip to '{' at end of header line
        loop {
            if self.lx.is_p(b'{') {
                self.lx.next();
                if self.lx.tok == Tok::Eol {
                    break;
                }
            } else if self.lx.tok == Tok::End {
                return self.err("header");
            } else {
                self.lx.next();
            }
        }
        let mut labels: HashMap<String, usize> = HashMap::new();
        let mut blocks: Vec<Option<Block>> = vec![];
        let mut cur: Option<(usize, Block)> = None;
        let mut first = true;
        loop {
            while self.lx.tok == Tok::Eol {
                self.lx.next();
            }
            if self.lx.is_p(b'}') || self.lx.tok == Tok::End {
                break;
            }
            // label?
            let lab = match &self.lx.tok {
                Tok::W(w) => Some(w.clone()),
                Tok::Num(w) => Some(w.clone()),
                Tok::Str(s) => Some(String::from_utf8_lossy(s).into_owned()),
                _ => None,
            };
            if let Some(l) = lab {
                let is_label = self.lx.i < self.lx.end && self.lx.t[self.lx.i] == b':';
                if is_label {
                    self.lx.next();
                    self.lx.next();
                    self.lx.skip_line();
                    if let Some((k, b)) = cur.take() {
                        while blocks.len() <= k {
                            blocks.push(None);
                        }
                        blocks[k] = Some(b);
                    }
                    let n = labels.len();
                    let k = *labels.entry(l.clone()).or_insert(n);
                    if first {
                        // entry must be block 0
                        debug_assert!(k == 0);
                        first = false;
                    }
                    cur = Some((k, Block { name: l, phis: vec![], insts: vec![] }));
                    continue;
                }
            }
            if cur.is_none() {
                first = false;
                let n = labels.len();
                // implicit entry label is numbered after the arguments
                labels.insert(format!("{argno}"), n);
                cur = Some((n, Block { name: "entry".into(), phis: vec![], insts: vec![] }));
            }
            let save_line = self.lx.i;
            let r = self.inst(&mut labels, &mut cur.as_mut().unwrap().1);
            if let Err(e) = r {
                let mut s = save_line;
                while s > 0 && self.lx.t[s - 1] != b'\n' {
                    s -= 1;
                }
                let mut e2 = s;
                while e2 < self.lx.end && self.lx.t[e2] != b'\n' {
                    e2 += 1;
                }
                let line = String::from_utf8_lossy(&self.lx.t[s..e2]).into_owned();
                // a multi-line instruction (switch/landingpad) would desynchronise; these parse fully above
                cur.as_mut().unwrap().1.insts.push(Inst::Unsup(format!("{e} in {line}")));
            }
            self.lx.skip_line();
        }
        if let Some((k, b)) = cur.take() {
            while blocks.len() <= k {
                blocks.push(None);
            }
            blocks[k] = Some(b);
        }
        while blocks.len() < labels.len() {
            blocks.push(None);
        }
        let blocks = blocks
            .into_iter()
            .map(|b| b.unwrap_or(Block { name: "?".into(), phis: vec![], insts: vec![Inst::Unsup("missing block".into())] }))
            .collect();
        Ok(Func {
            name: name.to_string(),
            pretty: if def.pretty.is_empty() { name.to_string() } else { def.pretty.clone() },
            module: def.module,
            params,
            ret,
            nslots: self.slots.len(),
            blocks,
        })
    }

    fn inst(&mut self, labels: &mut HashMap<String, usize>, b: &mut Block) -> R<()> {
        let mut dst: Option<u32> = None;
        if let Tok::Loc(_) = self.lx.tok {
            if let Tok::Loc(n) = self.lx.next() {
                dst = Some(self.slot(n));
            }
            self.lx.want_p(b'=')?;
        }
        let op = match self.lx.next() {
            Tok::W(w) => w,
            t => return Err(format!("inst {t:?}")),
        };
        let d = dst.unwrap_or(u32::MAX);
        let bin = |s: &str| -> Option<BinK> {
            Some(match s {
                "add" => BinK::Add,
                "sub" => BinK::Sub,
                "mul" => BinK::Mul,
                "udiv" => BinK::UDiv,
                "sdiv" => BinK::SDiv,
                "urem" => BinK::URem,
                "srem" => BinK::SRem,
                "shl" => BinK::Shl,
                "lshr" => BinK::LShr,
                "ashr" => BinK::AShr,
                "and" => BinK::And,
                "or" => BinK::Or,
                "xor" => BinK::Xor,
                _ => return None,
            })
        };
        if let Some(k) = bin(&op) {
            self.skip_words();
            let t = self.ty()?;
            let a = self.val(&t)?;
            self.lx.want_p(b',')?;
            let c = self.val(&t)?;
            b.insts.push(Inst::Bin(k, t, d, a, c));
            return Ok(());
        }
        match op.as_str() {
            "icmp" => {
                self.lx.eat_w("samesign");
                let p = match self.lx.next() {
                    Tok::W(w) => match w.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => return Err(format!("pred {w}")),
                    },
                    t => return Err(format!("pred {t:?}")),
                };
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.lx.want_p(b',')?;
                let c = self.val(&t)?;
                b.insts.push(Inst::Icmp(p, t, d, a, c));
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                self.skip_words();
                let (t, a) = self.typed()?;
                if !self.lx.eat_w("to") {
                    return self.err("cast to");
                }
                let t2 = self.ty()?;
                let k = match op.as_str() {
                    "trunc" => CastK::Trunc,
                    "zext" => CastK::ZExt,
                    "sext" => CastK::SExt,
                    "ptrtoint" | "ptrtoaddr" => CastK::PtrToInt,
                    "inttoptr" => CastK::IntToPtr,
                    _ => CastK::BitCast,
                };
                b.insts.push(Inst::Cast(k, t, t2, d, a));
            }
            "load" => {
                self.lx.eat_w("atomic");
                self.lx.eat_w("volatile");
                let t = self.ty()?;
                self.lx.want_p(b',')?;
                let (_, p) = self.typed()?;
                b.insts.push(Inst::Load(d, t, p));
            }
            "store" => {
                self.lx.eat_w("atomic");
                self.lx.eat_w("volatile");
                let (t, v) = self.typed()?;
                self.lx.want_p(b',')?;
                let (_, p) = self.typed()?;
                b.insts.push(Inst::Store(t, v, p));
            }
            "getelementptr" => {
                self.skip_words();
                let sty = self.ty()?;
                self.lx.want_p(b',')?;
                let (_, p) = self.typed()?;
                let mut coff = 0i64;
                let mut idxs = vec![];
                let mut cur = sty;
                let mut k = 0;
                while self.lx.eat_p(b',') {
                    if self.lx.tok == Tok::Meta {
                        break;
                    }
                    let (t, v) = self.typed()?;
                    let w = t.width();
                    if k == 0 {
                        match &v {
                            Op::K(C::Int(w, n)) => {
                                let s = if *w < 64 { (((*n as u64) << (64 - w)) as i64) >> (64 - w) } else { *n as u64 as i64 };
                                coff += s * cur.size() as i64
                            }
                            _ => idxs.push((v, w, cur.size())),
                        }
                    } else {
                        match &v {
                            Op::K(C::Int(_, n)) => {
                                let (o, t) = cur.field(*n as u64);
                                coff += o as i64;
                                cur = t;
                            }
                            _ => {
                                let (_, t) = cur.field(0);
                                idxs.push((v, w, t.size()));
                                cur = t;
                            }
                        }
                    }
                    k += 1;
                }
                b.insts.push(Inst::Gep(d, p, coff, idxs));
            }
            "alloca" => {
                self.lx.eat_w("inalloca");
                let t = self.ty()?;
                let mut cnt = None;
                if self.lx.eat_p(b',') && is_type_start(&self.lx.tok) {
                    let (_, v) = self.typed()?;
                    cnt = Some(v);
                }
                b.insts.push(Inst::Alloca(d, t.size(), cnt));
            }
            "select" => {
                self.skip_words();
                let (ct, c) = self.typed()?;
                if ct != Ty::Int(1) {
                    return Err("vector select".into());
                }
                self.lx.want_p(b',')?;
                let (t, x) = self.typed()?;
                self.lx.want_p(b',')?;
                let (_, y) = self.typed()?;
                b.insts.push(Inst::Select(d, t, c, x, y));
            }
            "freeze" => {
                let (t, x) = self.typed()?;
                b.insts.push(Inst::Freeze(d, t, x));
            }
            "extractvalue" => {
                let (t, x) = self.typed()?;
                let mut v = vec![];
                while self.lx.eat_p(b',') {
                    match self.lx.next() {
                        Tok::Num(n) => v.push(n.parse().unwrap()),
                        _ => break,
                    }
                }
                b.insts.push(Inst::Extract(d, x, v, t));
            }
            "insertvalue" => {
                let (t, x) = self.typed()?;
                self.lx.want_p(b',')?;
                let (_, y) = self.typed()?;
                let mut v = vec![];
                while self.lx.eat_p(b',') {
                    match self.lx.next() {
                        Tok::Num(n) => v.push(n.parse().unwrap()),
                        _ => break,
                    }
                }
                b.insts.push(Inst::Insert(d, x, y, v, t));
            }
            "extractelement" => {
                let (t, x) = self.typed()?;
                self.lx.want_p(b',')?;
                let (_, i) = self.typed()?;
                b.insts.push(Inst::ExtractElem(d, x, i, t));
            }
            "insertelement" => {
                let (t, x) = self.typed()?;
                self.lx.want_p(b',')?;
                let (_, y) = self.typed()?;
                self.lx.want_p(b',')?;
                let (_, i) = self.typed()?;
                b.insts.push(Inst::InsertElem(d, x, y, i, t));
            }
            "shufflevector" => {
                let (t, x) = self.typed()?;
                self.lx.want_p(b',')?;
                let (_, y) = self.typed()?;
                self.lx.want_p(b',')?;
                let mt = self.ty()?;
                let m = self.cst(&mt)?;
                let n = mt.nfields();
                let idx = match m {
                    C::Agg(v, _) => v
                        .iter()
                        .map(|c| match c {
                            C::Int(_, v) => *v as i64,
                            _ => -1,
                        })
                        .collect(),
                    C::Zero(_) => vec![0; n],
                    _ => vec![-1; n],
                };
                b.insts.push(Inst::Shuffle(d, x, y, idx, t));
            }
            "tail" | "musttail" | "notail" | "call" => {
                if op != "call" {
                    self.lx.eat_w("call");
                }
                let i = self.call(dst)?;
                b.insts.push(i);
            }
            "invoke" => {
                let mut i = self.call(dst)?;
                // operand bundles skipped in call(); may be on the next line
                while self.lx.tok == Tok::Eol {
                    self.lx.next();
                }
                if !self.lx.eat_w("to") {
                    return self.err("invoke to");
                }
                let n = self.label(labels)?;
                if !self.lx.eat_w("unwind") {
                    return self.err("invoke unwind");
                }
                let _ = self.label(labels)?;
                if let Inst::Call(_, _, _, _, nb) = &mut i {
                    *nb = Some(n);
                }
                b.insts.push(i);
            }
            "br" => {
                if self.lx.is_w("label") {
                    let l = self.label(labels)?;
                    b.insts.push(Inst::Br(l));
                } else {
                    let (_, c) = self.typed()?;
                    self.lx.want_p(b',')?;
                    let t = self.label(labels)?;
                    self.lx.want_p(b',')?;
                    let f = self.label(labels)?;
                    b.insts.push(Inst::CondBr(c, t, f));
                }
            }
            "switch" => {
                let (t, v) = self.typed()?;
                self.lx.want_p(b',')?;
                let dflt = self.label(labels)?;
                self.lx.want_p(b'[')?;
                let mut cases = vec![];
                loop {
                    while self.lx.tok == Tok::Eol {
                        self.lx.next();
                    }
                    if self.lx.eat_p(b']') {
                        break;
                    }
                    let ct = self.ty()?;
                    let c = match self.cst(&ct)? {
                        C::Int(_, v) => v,
                        _ => return Err("switch case".into()),
                    };
                    self.lx.want_p(b',')?;
                    let l = self.label(labels)?;
                    cases.push((c, l));
                }
                b.insts.push(Inst::Switch(v, t.width(), dflt, cases));
            }
            "ret" => {
                let t = self.ty()?;
                if t == Ty::Void {
                    b.insts.push(Inst::Ret(None));
                } else {
                    let v = self.val(&t)?;
                    b.insts.push(Inst::Ret(Some((t, v))));
                }
            }
            "unreachable" => b.insts.push(Inst::Unreachable),
            "fence" => b.insts.push(Inst::Nop),
            "atomicrmw" => {
                self.lx.eat_w("volatile");
                let o = match self.lx.next() {
                    Tok::W(w) => w,
                    t => return Err(format!("rmw {t:?}")),
                };
                let (_, p) = self.typed()?;
                self.lx.want_p(b',')?;
                let (t, v) = self.typed()?;
                b.insts.push(Inst::AtomicRmw(o, d, t, p, v));
            }
            "cmpxchg" => {
                self.lx.eat_w("weak");
                self.lx.eat_w("volatile");
                let (_, p) = self.typed()?;
                self.lx.want_p(b',')?;
                let (t, c) = self.typed()?;
                self.lx.want_p(b',')?;
                let (_, n) = self.typed()?;
                b.insts.push(Inst::CmpXchg(d, t, p, c, n));
            }
            "phi" => {
                self.skip_words();
                let t = self.ty()?;
                let mut v = vec![];
                loop {
                    self.lx.want_p(b'[')?;
                    let x = self.val(&t)?;
                    self.lx.want_p(b',')?;
                    let l = match self.lx.next() {
                        Tok::Loc(n) => {
                            let k = labels.len();
                            *labels.entry(n).or_insert(k)
                        }
                        t => return Err(format!("phi label {t:?}")),
                    };
                    self.lx.want_p(b']')?;
                    v.push((l, x));
                    if self.lx.is_p(b',') {
                        self.lx.next();
                        if self.lx.tok == Tok::Meta {
                            break;
                        }
                        continue;
                    }
                    break;
                }
                b.phis.push((d, t, v));
            }
            "landingpad" => {
                // may continue on following lines
                self.lx.skip_line();
                loop {
                    let save = self.lx.i;
                    let tok = self.lx.tok.clone();
                    while self.lx.tok == Tok::Eol {
                        self.lx.next();
                    }
                    if self.lx.is_w("cleanup") || self.lx.is_w("catch") || self.lx.is_w("filter") {
                        self.lx.skip_line();
                    } else {
                        self.lx.i = save;
                        self.lx.tok = tok;
                        break;
                    }
                }
                b.insts.push(Inst::Unsup("landingpad".into()));
            }
            _ => return Err(format!("instruction {op}")),
        }
        Ok(())
    }

    fn call(&mut self, dst: Option<u32>) -> R<Inst> {
        // fast-math flags, cconv, ret attrs
        self.param_attrs();
        let rt = self.ty()?;
        // optional function type "(...)" for varargs
        if self.lx.is_p(b'(') {
            self.lx.skip_parens();
        }
        let callee = match self.lx.next() {
            Tok::Glob(n) => Callee::Direct(n),
            Tok::Loc(n) => Callee::Indirect(Op::R(self.slot(n))),
            Tok::W(w) if w == "inttoptr" => {
                self.lx.want_p(b'(')?;
                let t = self.ty()?;
                let c = self.cst(&t)?;
                self.lx.eat_w("to");
                self.ty()?;
                self.lx.want_p(b')')?;
                Callee::Indirect(Op::K(C::IntToPtr(Box::new(c))))
            }
            Tok::W(w) if w == "asm" => {
                return Ok(Inst::Unsup("asm".into()));
            }
            t => return Err(format!("callee {t:?}")),
        };
        self.lx.want_p(b'(')?;
        let mut args = vec![];
        if !self.lx.eat_p(b')') {
            loop {
                let t = self.ty()?;
                self.param_attrs();
                let v = self.val(&t)?;
                args.push((t, v));
                if self.lx.eat_p(b',') {
                    continue;
                }
                self.lx.want_p(b')')?;
                break;
            }
        }
        // trailing attrs / bundles until end of line or 'to'
        loop {
            match &self.lx.tok {
                Tok::Attr | Tok::Str(_) => {
                    self.lx.next();
                }
                Tok::P(b'[') => {
                    while !self.lx.is_p(b']') {
                        self.lx.next();
                    }
                    self.lx.next();
                }
                Tok::W(w) if w != "to" => {
                    self.lx.next();
                    if self.lx.is_p(b'(') {
                        self.lx.skip_parens();
                    }
                }
                _ => break,
            }
        }
        Ok(Inst::Call(dst, rt, callee, args, None))
    }

    /// Initialiser of a global: returns (is_constant, type, value) or an alias target.
    pub fn global(mut self) -> R<(Ty, Option<C>)> {
        self.lx.want_p(b'=')?;
        loop {
            match self.lx.next() {
                Tok::W(w) => match w.as_str() {
                    "global" | "constant" => {
                        let t = self.ty()?;
                        if matches!(self.lx.tok, Tok::P(b',') | Tok::End | Tok::Eol) {
                            return Ok((t, None));
                        }
                        let c = self.cst(&t)?;
                        return Ok((t, Some(c)));
                    }
                    "alias" => {
                        let t = self.ty()?;
                        self.lx.want_p(b',')?;
                        self.ty()?;
                        let c = self.cst(&Ty::Ptr)?;
                        return Ok((Ty::Void, Some(C::Agg(vec![c], t))));
                    }
                    _ => {
                        if self.lx.is_p(b'(') {
                            self.lx.skip_parens();
                        }
                    }
                },
                Tok::End => return Err("global".into()),
                _ => {}
            }
        }
    }
}
