//! Parser for the textual LLVM IR that rustc writes: types, globals, constants, functions.
//! Function bodies are parsed the first time they are executed.
use crate::expr::*;
use std::cell::{OnceCell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u32, Rc<Ty>),
    Other,
}

pub fn align_up(x: u64, a: u64) -> u64 {
    x.div_ceil(a) * a
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(n, t) => n * t.bits(),
            _ => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64).div_ceil(8).next_power_of_two().min(16),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => ((self.bits() as u64).div_ceil(8)).next_power_of_two(),
            _ => 1,
        }
    }
    /// bytes a load or store touches
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64).div_ceil(8),
            Ty::Vec(..) => (self.bits() as u64).div_ceil(8),
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(_) => align_up(self.store_size(), self.align()),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    o += t.size();
                }
                if *packed {
                    o
                } else {
                    align_up(o, self.align())
                }
            }
            Ty::Vec(..) => align_up(self.store_size(), self.align()),
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field of scalar"),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(f, _) => &f[i],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => panic!("element of scalar"),
        }
    }
    pub fn is_float(&self) -> bool {
        matches!(self, Ty::F32 | Ty::F64)
    }
}

/// A runtime value: a scalar (pointers and floats are bit patterns) or an aggregate.
#[derive(Clone, Debug)]
pub enum V {
    I(E),
    A(Rc<Vec<V>>),
}

impl V {
    pub fn e(&self) -> E {
        match self {
            V::I(e) => *e,
            V::A(_) => panic!("unsupported: aggregate used as a scalar"),
        }
    }
}

pub fn zero_of(t: &Ty) -> V {
    match t {
        Ty::Void | Ty::Other => V::I(E::C(0, 1)),
        Ty::Arr(n, e) => V::A(Rc::new(vec![zero_of(e); *n as usize])),
        Ty::Vec(n, e) => V::A(Rc::new(vec![zero_of(e); *n as usize])),
        Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(zero_of).collect())),
        _ => V::I(konst(0, t.bits())),
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Zext,
    Sext,
    Trunc,
    Bit,
    PtrInt,
    FpTrunc,
    FpExt,
    UiFp,
    SiFp,
    FpUi,
    FpSi,
}

#[derive(Clone, Debug)]
pub enum Callee {
    F(u32),
    Ind(Op),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(u32, B, Ty, Op, Op),
    FBin(u32, FB, Ty, Op, Op),
    FNeg(u32, Ty, Op),
    ICmp(u32, &'static str, Ty, Op, Op),
    FCmp(u32, &'static str, Ty, Op, Op),
    Cast(u32, Cast, Ty, Ty, Op),
    Select(u32, Op, Op, Op),
    Load(u32, Ty, Op),
    Store(Ty, Op, Op),
    Gep(u32, Op, u64, Vec<(Op, u64)>),
    Alloca(u32, u64),
    Call {
        dst: Option<u32>,
        callee: Callee,
        args: Vec<Op>,
        ret: Ty,
        normal: Option<u32>,
    },
    Br(u32),
    CBr(Op, u32, u32),
    Switch(Op, u32, Vec<(u128, u32)>),
    Ret(Option<Op>),
    Unreachable,
    ExtractV(u32, Op, Vec<usize>),
    InsertV(u32, Op, Op, Vec<usize>),
    ExtractE(u32, Op, Op),
    InsertE(u32, Op, Op, Op),
    Shuffle(u32, Op, Op, Vec<usize>, usize),
    Rmw(u32, String, Ty, Op, Op),
    CmpXchg(u32, Ty, Op, Op, Op),
    Copy(u32, Op),
    Nop,
    LandingPad,
}

pub struct Phi {
    pub dst: u32,
    pub inc: Vec<(u32, Op)>,
}
pub struct Block {
    pub phis: Vec<Phi>,
    pub ins: Vec<I>,
}
pub struct Body {
    pub blocks: Vec<Block>,
    pub nregs: usize,
    pub nparams: usize,
}

pub struct Func {
    pub name: String,
    pub ret: Ty,
    pub head: usize, // text offset of the parameter list
    pub body: Option<(usize, usize)>,
    pub parsed: OnceCell<Rc<Body>>,
}

pub struct Global {
    pub name: String,
    pub size: u64,
    pub ty: Ty,
    pub init: Option<(usize, usize)>,
    pub constant: bool,
    pub tls: bool,
}

pub struct Module {
    pub text: &'static str,
    pub funcs: Vec<Func>,
    pub fmap: HashMap<&'static str, u32>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<&'static str, u32>,
    pub tmap: HashMap<&'static str, (usize, usize)>,
    pub tcache: RefCell<HashMap<String, Ty>>,
    pub aliases: HashMap<&'static str, &'static str>,
}

pub const OFF: u64 = 0x10000;
pub const FUNC_ID: u64 = 0x3f00_0000;
pub const STACK_ID: u64 = 0x4000_0000;

pub fn func_addr(i: u32) -> u64 {
    (FUNC_ID << 32) | (OFF + 16 * i as u64)
}
pub fn global_addr(i: u32) -> u64 {
    ((i as u64 + 1) << 32) | OFF
}

pub struct Ps<'m> {
    pub m: &'m Module,
    pub s: &'m [u8],
    pub i: usize,
    locals: HashMap<&'m str, u32>,
    blocks: HashMap<&'m str, u32>,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

const VALUE_KW: &[&str] = &[
    "true", "false", "null", "undef", "poison", "zeroinitializer", "none", "getelementptr",
    "inttoptr", "ptrtoint", "blockaddress", "asm", "c", "splat", "sub", "add", "xor", "trunc",
    "bitcast", "addrspacecast", "no_cfi", "dso_local_equivalent", "mul", "shl", "and", "or",
    "icmp", "select",
];

impl<'m> Ps<'m> {
    pub fn new(m: &'m Module, s: &'m str) -> Self {
        Ps {
            m,
            s: s.as_bytes(),
            i: 0,
            locals: HashMap::new(),
            blocks: HashMap::new(),
        }
    }
    fn err<T>(&self, what: &str) -> T {
        let e = (self.i + 160).min(self.s.len());
        panic!(
            "unsupported: IR parse: {what} at `{}`",
            String::from_utf8_lossy(&self.s[self.i.min(e)..e])
        )
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\n') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            let e = self.i + t.len();
            if is_id(t.as_bytes()[t.len() - 1]) && e < self.s.len() && is_id(self.s[e]) {
                return false;
            }
            self.i = e;
            true
        } else {
            false
        }
    }
    fn need(&mut self, t: &str) {
        if !self.eat(t) {
            self.err::<()>(&format!("expected {t}"))
        }
    }
    fn peek_ident(&mut self) -> &'m str {
        self.ws();
        let mut j = self.i;
        while j < self.s.len() && is_id(self.s[j]) {
            j += 1;
        }
        unsafe { std::str::from_utf8_unchecked(&self.s[self.i..j]) }
    }
    fn ident(&mut self) -> &'m str {
        let r = self.peek_ident();
        self.i += r.len();
        r
    }
    /// after a sigil: plain or quoted name
    fn name(&mut self) -> &'m str {
        if self.s[self.i] == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while self.s[j] != b'"' {
                j += 1;
            }
            self.i = j + 1;
            unsafe { std::str::from_utf8_unchecked(&self.s[st..j]) }
        } else {
            let st = self.i;
            while self.i < self.s.len() && is_id(self.s[self.i]) {
                self.i += 1;
            }
            unsafe { std::str::from_utf8_unchecked(&self.s[st..self.i]) }
        }
    }
    fn balanced(&mut self) {
        // at an opening parenthesis
        let mut d = 0;
        loop {
            let c = self.s[self.i];
            match c {
                b'(' | b'[' | b'{' => d += 1,
                b')' | b']' | b'}' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn at_type(&mut self) -> bool {
        let c = self.peek();
        match c {
            b'{' | b'[' | b'<' | b'%' => true,
            _ => {
                let id = self.peek_ident();
                matches!(
                    id,
                    "ptr" | "void" | "float" | "double" | "half" | "label" | "metadata" | "token"
                        | "fp128" | "x86_fp80" | "bfloat"
                ) || (id.len() > 1
                    && id.starts_with('i')
                    && id[1..].bytes().all(|b| b.is_ascii_digit()))
            }
        }
    }
    pub fn ty(&mut self) -> Ty {
        match self.peek() {
            b'{' => {
                self.i += 1;
                let f = self.ty_list(b'}');
                Ty::Struct(Rc::new(f), false)
            }
            b'[' => {
                self.i += 1;
                let n = self.ident().parse::<u64>().unwrap_or_else(|_| self.err("count"));
                self.need("x");
                let t = self.ty();
                self.need("]");
                Ty::Arr(n, Rc::new(t))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let f = self.ty_list(b'}');
                    self.need(">");
                    return Ty::Struct(Rc::new(f), true);
                }
                let n = self.ident().parse::<u32>().unwrap_or_else(|_| self.err("count"));
                self.need("x");
                let t = self.ty();
                self.need(">");
                Ty::Vec(n, Rc::new(t))
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                if let Some(t) = self.m.tcache.borrow().get(n) {
                    return t.clone();
                }
                let Some(&(a, b)) = self.m.tmap.get(n) else {
                    return Ty::Other;
                };
                let t = Ps::new(self.m, &self.m.text[a..b]).ty();
                self.m.tcache.borrow_mut().insert(n.to_string(), t.clone());
                t
            }
            _ => {
                let id = self.ident();
                match id {
                    "ptr" => {
                        if self.eat("addrspace(") {
                            while self.s[self.i] != b')' {
                                self.i += 1
                            }
                            self.i += 1;
                        }
                        Ty::Ptr
                    }
                    "void" => Ty::Void,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "opaque" | "label" | "metadata" | "token" | "half" | "fp128" | "x86_fp80"
                    | "bfloat" => Ty::Other,
                    _ if id.starts_with('i') && id.len() > 1 => {
                        Ty::Int(id[1..].parse().unwrap_or_else(|_| self.err("type")))
                    }
                    _ => self.err("type"),
                }
            }
        }
    }
    fn ty_list(&mut self, end: u8) -> Vec<Ty> {
        let mut v = vec![];
        if self.peek() == end {
            self.i += 1;
            return v;
        }
        loop {
            v.push(self.ty());
            let c = self.peek();
            self.i += 1;
            if c == end {
                return v;
            }
            if c != b',' {
                self.err::<()>("type list");
            }
        }
    }
    fn skip_attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'#' || c == b'"' {
                // attribute group or string attribute
                if c == b'#' {
                    self.i += 1;
                    self.ident();
                } else {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1
                    }
                    self.i += 1;
                    if self.s[self.i] == b'=' {
                        self.i += 2;
                        while self.s[self.i] != b'"' {
                            self.i += 1
                        }
                        self.i += 1;
                    }
                }
                continue;
            }
            let id = self.peek_ident();
            if id.is_empty()
                || id.as_bytes()[0].is_ascii_digit()
                || id.as_bytes()[0] == b'-'
                || VALUE_KW.contains(&id)
            {
                return;
            }
            self.i += id.len();
            if id == "align" {
                if self.peek() != b'(' {
                    self.ident();
                    continue;
                }
            }
            if self.i < self.s.len() && self.s[self.i] == b'(' {
                self.balanced();
            }
        }
    }
    fn reg(&mut self, n: &'m str) -> u32 {
        let k = self.locals.len() as u32;
        *self.locals.entry(n).or_insert(k)
    }
    fn block(&mut self, n: &'m str) -> u32 {
        match self.blocks.get(n) {
            Some(b) => *b,
            None => self.err(&format!("unknown block {n}")),
        }
    }
    pub fn tyval(&mut self) -> (Ty, Op) {
        let t = self.ty();
        if t == Ty::Other {
            // metadata argument: skipped by the caller's list scanner
            return (t, Op::K(V::I(E::C(0, 1))));
        }
        self.skip_attrs();
        let v = self.val(&t);
        (t, v)
    }
    pub fn val(&mut self, t: &Ty) -> Op {
        if self.peek() == b'%' {
            self.i += 1;
            let n = self.name();
            return Op::R(self.reg(n));
        }
        Op::K(self.konst(t))
    }
    fn gname(&mut self) -> E {
        let mut n = self.name();
        while let Some(a) = self.m.aliases.get(n) {
            n = a;
        }
        if let Some(&f) = self.m.fmap.get(n) {
            return E::C(func_addr(f), 64);
        }
        if let Some(&g) = self.m.gmap.get(n) {
            return E::C(global_addr(g), 64);
        }
        self.err(&format!("unknown global {n}"))
    }
    pub fn konst(&mut self, t: &Ty) -> V {
        let c = self.peek();
        match c {
            b'@' => {
                self.i += 1;
                return V::I(self.gname());
            }
            b'{' | b'[' | b'<' => {
                self.i += 1;
                let mut close = match c {
                    b'{' => b'}',
                    b'[' => b']',
                    _ => b'>',
                };
                if c == b'<' && self.peek() == b'{' {
                    self.i += 1;
                    close = b'}';
                }
                let mut v = vec![];
                if self.peek() == close {
                    self.i += 1;
                } else {
                    loop {
                        let et = self.ty();
                        self.skip_attrs();
                        v.push(self.konst(&et));
                        let d = self.peek();
                        self.i += 1;
                        if d == close {
                            break;
                        }
                        if d != b',' {
                            self.err::<()>("aggregate constant");
                        }
                    }
                }
                if c == b'<' && close == b'}' {
                    self.need(">");
                }
                return V::A(Rc::new(v));
            }
            b'c' if self.s[self.i + 1] == b'"' => {
                self.i += 2;
                let mut v = vec![];
                loop {
                    let b = self.s[self.i];
                    if b == b'"' {
                        self.i += 1;
                        break;
                    }
                    if b == b'\\' && self.s[self.i + 1] == b'\\' {
                        v.push(V::I(E::C(b as u64, 8)));
                        self.i += 2;
                    } else if b == b'\\' {
                        let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                        v.push(V::I(E::C(u8::from_str_radix(h, 16).unwrap() as u64, 8)));
                        self.i += 3;
                    } else {
                        v.push(V::I(E::C(b as u64, 8)));
                        self.i += 1;
                    }
                }
                return V::A(Rc::new(v));
            }
            _ => {}
        }
        let id = self.peek_ident();
        if id.is_empty() {
            return self.err("constant");
        }
        let b0 = id.as_bytes()[0];
        if b0.is_ascii_digit() || b0 == b'-' {
            self.i += id.len();
            if t.is_float() {
                if let Some(h) = id.strip_prefix("0x") {
                    let bits = u64::from_str_radix(h, 16).unwrap_or_else(|_| self.err("float"));
                    let v = if *t == Ty::F32 {
                        // a float constant is written as the double with the same value
                        let d = f64::from_bits(bits);
                        (d as f32).to_bits() as u128
                    } else {
                        bits as u128
                    };
                    return V::I(konst(v, t.bits()));
                }
                // decimal: 1.000000e+00 (the exponent sign ends an identifier)
                let mut txt = id.to_string();
                if self.i < self.s.len() && self.s[self.i] == b'+' {
                    self.i += 1;
                    txt.push('+');
                    txt.push_str(self.ident());
                }
                let d: f64 = txt.parse().unwrap_or_else(|_| self.err("float"));
                let v = if *t == Ty::F32 {
                    (d as f32).to_bits() as u128
                } else {
                    d.to_bits() as u128
                };
                return V::I(konst(v, t.bits()));
            }
            let v: u128 = if let Some(n) = id.strip_prefix('-') {
                (n.parse::<u128>().unwrap_or_else(|_| self.err("integer"))).wrapping_neg()
            } else {
                id.parse::<u128>().unwrap_or_else(|_| self.err("integer"))
            };
            return V::I(konst(v, t.bits()));
        }
        self.i += id.len();
        match id {
            "true" => V::I(E::C(1, 1)),
            "false" => V::I(E::C(0, 1)),
            "null" | "undef" | "poison" | "zeroinitializer" | "none" => zero_of(t),
            "splat" => {
                self.need("(");
                let et = self.ty();
                let v = self.konst(&et);
                self.need(")");
                match t {
                    Ty::Vec(n, _) => V::A(Rc::new(vec![v; *n as usize])),
                    _ => self.err("splat"),
                }
            }
            "no_cfi" | "dso_local_equivalent" => self.konst(t),
            "getelementptr" => {
                self.skip_attrs();
                self.need("(");
                let bt = self.ty();
                self.need(",");
                self.ty();
                let base = self.konst(&Ty::Ptr).e();
                let mut off: u64 = 0;
                let mut cur = bt;
                let mut first = true;
                while self.peek() == b',' {
                    self.i += 1;
                    self.eat("inrange");
                    let it = self.ty();
                    let v = cval(self.konst(&it).e()).unwrap();
                    let sv = sext_val(v, it.bits()) as i64;
                    if first {
                        off = off.wrapping_add((cur.size() as i64).wrapping_mul(sv) as u64);
                        first = false;
                    } else {
                        off = off.wrapping_add(match &cur {
                            Ty::Struct(..) => cur.field_off(sv as usize),
                            _ => (cur.elem(0).size() as i64).wrapping_mul(sv) as u64,
                        });
                        let n = cur.elem(match &cur {
                            Ty::Struct(..) => sv as usize,
                            _ => 0,
                        })
                        .clone();
                        cur = n;
                    }
                }
                self.need(")");
                V::I(bin(B::Add, base, E::C(off, 64)))
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "addrspacecast" | "trunc" | "zext" | "sext" => {
                self.skip_attrs();
                self.need("(");
                let ft = self.ty();
                let v = self.konst(&ft);
                self.need("to");
                let tt = self.ty();
                self.need(")");
                match &v {
                    V::I(e) => V::I(match id {
                        "sext" => sext(*e, tt.bits()),
                        "trunc" => extract(*e, 0, tt.bits()),
                        _ => {
                            let w = tt.bits();
                            if w <= width(*e) {
                                extract(*e, 0, w)
                            } else {
                                zext(*e, w)
                            }
                        }
                    }),
                    _ => self.err("aggregate cast constant"),
                }
            }
            "sub" | "add" | "xor" | "mul" | "shl" | "and" | "or" => {
                self.eat("nuw");
                self.eat("nsw");
                self.need("(");
                let at = self.ty();
                let a = self.konst(&at).e();
                self.need(",");
                let bt = self.ty();
                let b = self.konst(&bt).e();
                self.need(")");
                let op = match id {
                    "sub" => B::Sub,
                    "add" => B::Add,
                    "xor" => B::Xor,
                    "mul" => B::Mul,
                    "shl" => B::Shl,
                    "and" => B::And,
                    _ => B::Or,
                };
                V::I(bin(op, a, b))
            }
            _ => {
                self.i -= id.len();
                self.err("constant")
            }
        }
    }
    fn label(&mut self) -> u32 {
        self.need("label");
        self.need("%");
        let n = self.name();
        self.block(n)
    }
    fn skip_flags(&mut self) {
        loop {
            let id = self.peek_ident();
            if matches!(
                id,
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "fast" | "nnan"
                    | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "inbounds"
                    | "nusw" | "inrange" | "volatile" | "atomic" | "weak" | "inalloca"
                    | "syncscope"
            ) {
                self.i += id.len();
                if self.i < self.s.len() && self.s[self.i] == b'(' {
                    self.balanced();
                }
            } else {
                return;
            }
        }
    }
    fn instr(&mut self) -> Result<I, Phi> {
        let mut dst = None;
        if self.peek() == b'%' {
            self.i += 1;
            let n = self.name();
            self.need("=");
            dst = Some(self.reg(n));
        }
        let d = dst.unwrap_or(0);
        let mut op = self.ident();
        if matches!(op, "tail" | "musttail" | "notail") {
            op = self.ident();
        }
        let b = |p: &mut Self, o: B| {
            p.skip_flags();
            let t = p.ty();
            let a = p.val(&t);
            p.need(",");
            let c = p.val(&t);
            I::Bin(d, o, t, a, c)
        };
        let fb = |p: &mut Self, o: FB| {
            p.skip_flags();
            let t = p.ty();
            let a = p.val(&t);
            p.need(",");
            let c = p.val(&t);
            I::FBin(d, o, t, a, c)
        };
        let cast = |p: &mut Self, c: Cast| {
            p.skip_flags();
            let (f, v) = p.tyval();
            p.need("to");
            let t = p.ty();
            I::Cast(d, c, f, t, v)
        };
        Ok(match op {
            "add" => b(self, B::Add),
            "sub" => b(self, B::Sub),
            "mul" => b(self, B::Mul),
            "udiv" => b(self, B::UDiv),
            "sdiv" => b(self, B::SDiv),
            "urem" => b(self, B::URem),
            "srem" => b(self, B::SRem),
            "shl" => b(self, B::Shl),
            "lshr" => b(self, B::LShr),
            "ashr" => b(self, B::AShr),
            "and" => b(self, B::And),
            "or" => b(self, B::Or),
            "xor" => b(self, B::Xor),
            "fadd" => fb(self, FB::Add),
            "fsub" => fb(self, FB::Sub),
            "fmul" => fb(self, FB::Mul),
            "fdiv" => fb(self, FB::Div),
            "frem" => fb(self, FB::Rem),
            "fneg" => {
                self.skip_flags();
                let (t, v) = self.tyval();
                I::FNeg(d, t, v)
            }
            "zext" => cast(self, Cast::Zext),
            "sext" => cast(self, Cast::Sext),
            "trunc" => cast(self, Cast::Trunc),
            "bitcast" => cast(self, Cast::Bit),
            "ptrtoint" | "inttoptr" | "addrspacecast" => cast(self, Cast::PtrInt),
            "fptrunc" => cast(self, Cast::FpTrunc),
            "fpext" => cast(self, Cast::FpExt),
            "uitofp" => cast(self, Cast::UiFp),
            "sitofp" => cast(self, Cast::SiFp),
            "fptoui" => cast(self, Cast::FpUi),
            "fptosi" => cast(self, Cast::FpSi),
            "icmp" => {
                self.skip_flags();
                let p = self.ident();
                let t = self.ty();
                let a = self.val(&t);
                self.need(",");
                let c = self.val(&t);
                let p = ["eq", "ne", "ult", "ule", "ugt", "uge", "slt", "sle", "sgt", "sge"]
                    .into_iter()
                    .find(|x| *x == p)
                    .unwrap_or_else(|| self.err("icmp"));
                I::ICmp(d, p, t, a, c)
            }
            "fcmp" => {
                self.skip_flags();
                let p = self.ident();
                let t = self.ty();
                let a = self.val(&t);
                self.need(",");
                let c = self.val(&t);
                let p = [
                    "oeq", "one", "olt", "ole", "ogt", "oge", "ord", "ueq", "une", "ult", "ule",
                    "ugt", "uge", "uno",
                ]
                .into_iter()
                .find(|x| *x == p)
                .unwrap_or_else(|| self.err("fcmp"));
                I::FCmp(d, p, t, a, c)
            }
            "select" => {
                self.skip_flags();
                let (_, c) = self.tyval();
                self.need(",");
                let (_, x) = self.tyval();
                self.need(",");
                let (_, y) = self.tyval();
                I::Select(d, c, x, y)
            }
            "load" => {
                self.skip_flags();
                let t = self.ty();
                self.need(",");
                let (_, p) = self.tyval();
                I::Load(d, t, p)
            }
            "store" => {
                self.skip_flags();
                let (t, v) = self.tyval();
                self.need(",");
                let (_, p) = self.tyval();
                I::Store(t, v, p)
            }
            "getelementptr" => {
                self.skip_flags();
                let bt = self.ty();
                self.need(",");
                let (_, base) = self.tyval();
                let mut off = 0u64;
                let mut dynv = vec![];
                let mut cur = bt;
                let mut first = true;
                while self.peek() == b',' {
                    self.i += 1;
                    if self.peek() == b'!' {
                        break;
                    }
                    let (it, v) = self.tyval();
                    let stride;
                    let next;
                    if first {
                        stride = cur.size();
                        next = cur.clone();
                        first = false;
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                let Op::K(k) = &v else {
                                    return self.err("struct index");
                                };
                                let k = cval(k.e()).unwrap() as usize;
                                off = off.wrapping_add(cur.field_off(k));
                                cur = cur.elem(k).clone();
                                continue;
                            }
                            _ => {
                                stride = cur.elem(0).size();
                                next = cur.elem(0).clone();
                            }
                        }
                    }
                    match &v {
                        Op::K(k) => {
                            let k = sext_val(cval(k.e()).unwrap(), it.bits()) as i64;
                            off = off.wrapping_add((stride as i64).wrapping_mul(k) as u64);
                        }
                        Op::R(_) => dynv.push((v, stride)),
                    }
                    cur = next;
                }
                I::Gep(d, base, off, dynv)
            }
            "alloca" => {
                self.skip_flags();
                let t = self.ty();
                let mut n = 1;
                if self.eat(",") && self.at_type() {
                    let (_, c) = self.tyval();
                    match c {
                        Op::K(v) => n = cval(v.e()).unwrap() as u64,
                        _ => return self.err("dynamic alloca"),
                    }
                }
                I::Alloca(d, t.size() * n)
            }
            "br" => {
                if self.peek_ident() == "label" {
                    I::Br(self.label())
                } else {
                    let (_, c) = self.tyval();
                    self.need(",");
                    let a = self.label();
                    self.need(",");
                    let b = self.label();
                    I::CBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tyval();
                self.need(",");
                let dflt = self.label();
                self.need("[");
                let mut cs = vec![];
                while self.peek() != b']' {
                    let ct = self.ty();
                    let k = cval(self.konst(&ct).e()).unwrap();
                    self.need(",");
                    let l = self.label();
                    cs.push((k & mask(t.bits()), l));
                }
                I::Switch(v, dflt, cs)
            }
            "ret" => {
                let t = self.ty();
                if t == Ty::Void {
                    I::Ret(None)
                } else {
                    I::Ret(Some(self.val(&t)))
                }
            }
            "unreachable" => I::Unreachable,
            "resume" => I::Unreachable,
            "phi" => {
                self.skip_flags();
                let t = self.ty();
                let mut inc = vec![];
                loop {
                    self.need("[");
                    let v = self.val(&t);
                    self.need(",");
                    self.need("%");
                    let n = self.name();
                    let bl = self.block(n);
                    self.need("]");
                    inc.push((bl, v));
                    if self.peek() != b',' {
                        break;
                    }
                    self.i += 1;
                    if self.peek() != b'[' {
                        break;
                    }
                }
                return Err(Phi { dst: d, inc });
            }
            "extractvalue" => {
                let (_, v) = self.tyval();
                let mut ix = vec![];
                while self.peek() == b',' {
                    self.i += 1;
                    if self.peek() == b'!' {
                        break;
                    }
                    ix.push(self.ident().parse().unwrap_or_else(|_| self.err("index")));
                }
                I::ExtractV(d, v, ix)
            }
            "insertvalue" => {
                let (_, v) = self.tyval();
                self.need(",");
                let (_, x) = self.tyval();
                let mut ix = vec![];
                while self.peek() == b',' {
                    self.i += 1;
                    if self.peek() == b'!' {
                        break;
                    }
                    ix.push(self.ident().parse().unwrap_or_else(|_| self.err("index")));
                }
                I::InsertV(d, v, x, ix)
            }
            "extractelement" => {
                let (_, v) = self.tyval();
                self.need(",");
                let (_, k) = self.tyval();
                I::ExtractE(d, v, k)
            }
            "insertelement" => {
                let (_, v) = self.tyval();
                self.need(",");
                let (_, x) = self.tyval();
                self.need(",");
                let (_, k) = self.tyval();
                I::InsertE(d, v, x, k)
            }
            "shufflevector" => {
                let (t, v) = self.tyval();
                self.need(",");
                let (_, x) = self.tyval();
                self.need(",");
                let mt = self.ty();
                self.skip_attrs();
                let m = self.konst(&mt);
                let V::A(m) = m else {
                    return self.err("shuffle mask");
                };
                let m = m.iter().map(|v| cval(v.e()).unwrap() as usize).collect();
                let Ty::Vec(n, _) = t else {
                    return self.err("shuffle");
                };
                I::Shuffle(d, v, x, m, n as usize)
            }
            "atomicrmw" => {
                self.skip_flags();
                let o = self.ident().to_string();
                let (_, p) = self.tyval();
                self.need(",");
                let (t, v) = self.tyval();
                I::Rmw(d, o, t, p, v)
            }
            "cmpxchg" => {
                self.skip_flags();
                let (_, p) = self.tyval();
                self.need(",");
                let (t, a) = self.tyval();
                self.need(",");
                let (_, c) = self.tyval();
                I::CmpXchg(d, t, p, a, c)
            }
            "freeze" => {
                let (_, v) = self.tyval();
                I::Copy(d, v)
            }
            "fence" => I::Nop,
            "landingpad" => I::LandingPad,
            "call" | "invoke" => {
                self.skip_flags();
                while !self.at_type() {
                    let id = self.ident();
                    if id.is_empty() {
                        return self.err("call");
                    }
                    if id == "cc" || id == "align" {
                        self.ident();
                    }
                    if self.s[self.i] == b'(' {
                        self.balanced();
                    }
                }
                let ret = self.ty();
                if self.peek() == b'(' {
                    self.balanced();
                }
                let c = self.peek();
                let callee;
                if c == b'@' {
                    self.i += 1;
                    let mut n = self.name();
                    while let Some(a) = self.m.aliases.get(n) {
                        n = a;
                    }
                    callee = match self.m.fmap.get(n) {
                        Some(f) => Callee::F(*f),
                        None => return self.err(&format!("unknown callee {n}")),
                    };
                } else if c == b'%' {
                    callee = Callee::Ind(self.val(&Ty::Ptr));
                } else if self.eat("asm") {
                    let st = self.i;
                    while self.peek() != b'(' {
                        if self.s[self.i] == b'"' {
                            self.i += 1;
                            while self.s[self.i] != b'"' {
                                self.i += 1;
                            }
                        }
                        self.i += 1;
                    }
                    callee = Callee::Asm(
                        String::from_utf8_lossy(&self.s[st..self.i]).trim().to_string(),
                    );
                } else {
                    callee = Callee::Ind(Op::K(self.konst(&Ty::Ptr)));
                }
                self.need("(");
                let mut args = vec![];
                if self.peek() == b')' {
                    self.i += 1;
                } else {
                    loop {
                        let (t, v) = self.tyval();
                        if t == Ty::Other {
                            // metadata: skip to the next comma or closing parenthesis
                            let mut dep = 0;
                            loop {
                                let c = self.s[self.i];
                                if c == b'"' {
                                    self.i += 1;
                                    while self.s[self.i] != b'"' {
                                        self.i += 1;
                                    }
                                }
                                if dep == 0 && (c == b',' || c == b')') {
                                    break;
                                }
                                if c == b'(' || c == b'{' {
                                    dep += 1;
                                }
                                if c == b')' || c == b'}' {
                                    dep -= 1;
                                }
                                self.i += 1;
                            }
                        }
                        args.push(v);
                        let c = self.peek();
                        self.i += 1;
                        if c == b')' {
                            break;
                        }
                        if c != b',' {
                            self.err::<()>("call arguments");
                        }
                    }
                }
                let mut normal = None;
                if op == "invoke" {
                    while !self.eat("to label %") {
                        self.i += 1;
                        if self.i >= self.s.len() {
                            return self.err("invoke");
                        }
                    }
                    let n = self.name();
                    normal = Some(self.block(n));
                }
                I::Call { dst, callee, args, ret, normal }
            }
            _ => return self.err(&format!("instruction {op}")),
        })
    }
}

impl Module {
    pub fn load(text: String) -> Module {
        let text: &'static str = Box::leak(text.into_boxed_str());
        let mut m = Module {
            text,
            funcs: vec![],
            fmap: HashMap::new(),
            globals: vec![],
            gmap: HashMap::new(),
            tmap: HashMap::new(),
            tcache: RefCell::new(HashMap::new()),
            aliases: HashMap::new(),
        };
        let mut pos = 0;
        let mut gl = vec![];
        while pos < text.len() {
            let end = text[pos..].find('\n').map(|x| pos + x).unwrap_or(text.len());
            let line = &text[pos..end];
            let b = line.as_bytes();
            let mut next = end + 1;
            if b.is_empty() {
            } else if b[0] == b'@' {
                let mut p = Ps::new(&m, &text[pos + 1..end]);
                let name = p.name();
                let name: &'static str = unsafe { std::mem::transmute(name) };
                let rest = p.i + pos + 1;
                if text[rest..end].contains(" alias ") {
                    // alias: last @name on the line
                    let at = text[rest..end].rfind('@').unwrap() + rest + 1;
                    let mut q = Ps::new(&m, &text[at..end]);
                    let tgt = q.name();
                    let tgt: &'static str = unsafe { std::mem::transmute(tgt) };
                    m.aliases.insert(name, tgt);
                } else {
                    m.gmap.insert(name, gl.len() as u32);
                    gl.push((name, rest, end));
                }
            } else if b[0] == b'%' {
                let mut p = Ps::new(&m, &text[pos + 1..end]);
                let name = p.name();
                let name: &'static str = unsafe { std::mem::transmute(name) };
                let at = line.find("= type ").map(|x| x + 7).unwrap_or(line.len());
                m.tmap.insert(name, (pos + at, end));
            } else if line.starts_with("declare ") || line.starts_with("define ") {
                let at = line.find('@').unwrap();
                let mut p = Ps::new(&m, &text[pos + at + 1..end]);
                let name = p.name();
                let name: &'static str = unsafe { std::mem::transmute(name) };
                let head = pos + at + 1 + p.i;
                let mut body = None;
                if line.starts_with("define ") {
                    let e = text[end..].find("\n}\n").map(|x| end + x + 1).unwrap_or(text.len());
                    body = Some((end + 1, e));
                    next = e + 2;
                }
                m.fmap.insert(name, m.funcs.len() as u32);
                m.funcs.push(Func {
                    name: name.to_string(),
                    ret: Ty::Void,
                    head,
                    body,
                    parsed: OnceCell::new(),
                });
            }
            pos = next;
        }
        let mut gv = vec![];
        for (name, a, b) in gl {
            let mut p = Ps::new(&m, &text[a..b]);
            p.need("=");
            let mut ext = false;
            let mut tls = false;
            let constant;
            loop {
                let id = p.ident();
                match id {
                    "external" | "extern_weak" => ext = true,
                    "thread_local" => {
                        tls = true;
                        if p.s[p.i] == b'(' {
                            p.balanced()
                        }
                    }
                    "global" => {
                        constant = false;
                        break;
                    }
                    "constant" => {
                        constant = true;
                        break;
                    }
                    "" => p.err("global"),
                    _ => {
                        if p.s[p.i] == b'(' {
                            p.balanced()
                        }
                    }
                }
            }
            let ty = p.ty();
            p.ws();
            let at = a + p.i;
            gv.push(Global {
                name: name.to_string(),
                size: ty.size(),
                ty,
                init: if ext { None } else { Some((at, b)) },
                constant,
                tls,
            });
        }
        m.globals = gv;
        m
    }

    pub fn global_init(&self, g: u32) -> V {
        let gl = &self.globals[g as usize];
        match gl.init {
            None => zero_of(&gl.ty),
            Some((a, b)) => {
                let mut p = Ps::new(self, &self.text[a..b]);
                p.konst(&gl.ty)
            }
        }
    }

    pub fn body(&self, f: u32) -> Rc<Body> {
        let fu = &self.funcs[f as usize];
        fu.parsed
            .get_or_init(|| {
                let (a, b) = fu.body.expect("body");
                Rc::new(self.parse_body(fu, a, b))
            })
            .clone()
    }

    fn parse_body(&self, fu: &Func, a: usize, b: usize) -> Body {
        let mut p = Ps::new(self, &self.text[fu.head..a]);
        // parameters
        let mut np = 0;
        p.need("(");
        if p.peek() == b')' {
            p.i += 1;
        } else {
            loop {
                if p.eat("...") {
                    break;
                }
                let _ = p.ty();
                p.skip_attrs();
                if p.peek() == b'%' {
                    p.i += 1;
                    let n = p.name();
                    let r = p.reg(n);
                    assert_eq!(r, np);
                }
                np += 1;
                let c = p.peek();
                p.i += 1;
                if c == b')' {
                    break;
                }
            }
        }
        let text = &self.text[a..b];
        // logical lines
        let mut labels: Vec<&str> = vec![];
        let mut lines: Vec<(usize, usize, usize)> = vec![]; // block, start, end
        let mut pos = 0;
        while pos < text.len() {
            let end = text[pos..].find('\n').map(|x| pos + x).unwrap_or(text.len());
            let l = &text[pos..end];
            let lb = l.as_bytes();
            if lb.is_empty() || lb[0] == b';' || l.starts_with("    #dbg_") {
            } else if lb[0] != b' ' {
                let mut q = Ps::new(self, l);
                let n = q.name();
                labels.push(n);
            } else if lb.len() > 2 && lb[2] != b' ' && lb[2] != b']' {
                if labels.is_empty() {
                    labels.push("\u{1}entry");
                }
                lines.push((labels.len() - 1, pos, end));
            } else if let Some(x) = lines.last_mut() {
                x.2 = end;
            }
            pos = end + 1;
        }
        for (i, l) in labels.iter().enumerate() {
            p.blocks.insert(l, i as u32);
        }
        if labels[0] == "\u{1}entry" {
            // an unnamed entry block is numbered after the parameters
            let t = text.find("; preds").map(|_| ()).is_some();
            let _ = t;
            let nm: &'static str = Box::leak(np.to_string().into_boxed_str());
            p.blocks.entry(nm).or_insert(0);
        }
        let mut blocks: Vec<Block> = labels
            .iter()
            .map(|_| Block { phis: vec![], ins: vec![] })
            .collect();
        for (bl, s, e) in lines {
            p.s = text[s..e].as_bytes();
            p.i = 0;
            match p.instr() {
                Ok(I::Nop) => {}
                Ok(i) => blocks[bl].ins.push(i),
                Err(ph) => blocks[bl].phis.push(ph),
            }
        }
        Body {
            blocks,
            nregs: p.locals.len(),
            nparams: np as usize,
        }
    }
}
