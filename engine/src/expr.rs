//! Hash-consed bit-vector expression DAG with a light simplifier.
use std::collections::HashMap;

/// An expression handle: a constant of at most 64 bits, or a node of the arena.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum E {
    C(u64, u8),
    S(u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum P {
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FB {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Min,
    Max,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FU {
    Neg,
    Abs,
    Trunc, // f64 -> f32
    Ext,   // f32 -> f64
    FromU, // int -> float (width of node decides)
    FromS,
    Floor,
    Ceil,
    RoundTrunc,
    Sqrt,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum H {
    Sha256,
    Sha512,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FP {
    Oeq,
    Olt,
    Ole,
    Uno,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Sym(u32),
    Wide(u128),
    Bin(B, E, E),
    Cmp(P, E, E),
    Ite(E, E, E),
    Ext(E, u16),
    Cat(E, E),
    Zx(E),
    Sx(E),
    FBin(FB, E, E),
    FUn(FU, E),
    FCmp(FP, E, E),
    /// float to int, saturating (signed?)
    FToI(bool, E),
    /// a word of the result of one compression step of a hash function over interned arguments
    Hash(H, u8, u32),
}

pub struct Cx {
    pub nodes: Vec<N>,
    pub ws: Vec<u16>,
    /// an upper bound of the unsigned value
    pub mx: Vec<u128>,
    map: HashMap<(N, u16), u32, Fx>,
    /// width of each input symbol
    pub syms: Vec<u16>,
    pub has_float: bool,
    /// arguments of the compression steps: 8 state words, then the bytes of the block
    exts: HashMap<(u32, u16, u16), E, Fx>,
    /// compression steps of known arguments, with their results
    hseen: Vec<(H, Vec<u128>, [u128; 8])>,
    pub hargs: Vec<std::rc::Rc<[E]>>,
    hmap: HashMap<std::rc::Rc<[E]>, u32, Fx>,
}

#[derive(Clone, Copy, Default)]
pub struct Fx;
pub struct FxH(u64);
impl std::hash::BuildHasher for Fx {
    type Hasher = FxH;
    fn build_hasher(&self) -> FxH {
        FxH(0)
    }
}
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, n: u8) {
        self.write_u64(n as u64)
    }
    fn write_u16(&mut self, n: u16) {
        self.write_u64(n as u64)
    }
    fn write_u32(&mut self, n: u32) {
        self.write_u64(n as u64)
    }
    fn write_u64(&mut self, n: u64) {
        self.0 = (self.0.rotate_left(5) ^ n).wrapping_mul(0x517cc1b727220a95)
    }
    fn write_usize(&mut self, n: usize) {
        self.write_u64(n as u64)
    }
    fn write_isize(&mut self, n: isize) {
        self.write_u64(n as u64)
    }
    fn write_u128(&mut self, n: u128) {
        self.write_u64(n as u64);
        self.write_u64((n >> 64) as u64)
    }
}

static mut CX: *mut Cx = std::ptr::null_mut();

pub fn cx() -> &'static mut Cx {
    unsafe {
        if CX.is_null() {
            CX = Box::into_raw(Box::new(Cx {
                nodes: vec![N::Wide(0)],
                ws: vec![0],
                mx: vec![0],
                map: HashMap::default(),
                syms: vec![],
                has_float: false,
                exts: HashMap::default(),
                hseen: vec![],
                hargs: vec![],
                hmap: HashMap::default(),
            }));
        }
        &mut *CX
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn width(e: E) -> u32 {
    match e {
        E::C(_, w) => w as u32,
        E::S(i) => cx().ws[i as usize] as u32,
    }
}

pub fn node(i: u32) -> N {
    cx().nodes[i as usize]
}

fn mk(n: N, w: u32) -> E {
    let c = cx();
    let w = w as u16;
    if let Some(&i) = c.map.get(&(n, w)) {
        return E::S(i);
    }
    let i = c.nodes.len() as u32;
    c.nodes.push(n);
    c.ws.push(w);
    c.mx.push(bound(n, w as u32));
    c.map.insert((n, w), i);
    E::S(i)
}

/// An upper bound of the unsigned value of an expression.
pub fn umax(e: E) -> u128 {
    match e {
        E::C(v, _) => v as u128,
        E::S(i) => cx().mx[i as usize],
    }
}
fn ones(v: u128) -> u128 {
    if v == 0 { 0 } else { u128::MAX >> v.leading_zeros() }
}
fn bits(v: u128) -> u32 {
    128 - v.leading_zeros()
}
fn bound(n: N, w: u32) -> u128 {
    let m = mask(w);
    if w > 128 {
        return u128::MAX;
    }
    match n {
        N::Wide(v) => v,
        N::Zx(a) => umax(a).min(m),
        N::Ite(_, a, b) => umax(a).max(umax(b)),
        N::Ext(a, lo) => {
            if width(a) > 128 {
                return m;
            }
            let u = umax(a) >> lo;
            if u <= m { u } else { m }
        }
        N::Cat(h, l) => (umax(h) << width(l)) | umax(l),
        N::Bin(op, a, b) => {
            let (x, y) = (umax(a), umax(b));
            match op {
                B::Add => x.checked_add(y).filter(|s| *s <= m).unwrap_or(m),
                B::Mul => x.checked_mul(y).filter(|s| *s <= m).unwrap_or(m),
                B::And => x.min(y),
                B::Or | B::Xor => ones(x | y),
                B::UDiv => match cval(b) {
                    Some(c) if c > 0 => x / c,
                    _ => m,
                },
                B::URem => match cval(b) {
                    Some(c) if c > 0 => x.min(c - 1),
                    _ => x,
                },
                B::LShr => x,
                _ => m,
            }
        }
        _ => m,
    }
}

impl H {
    pub fn word(self) -> u32 {
        match self {
            H::Sha256 => 32,
            H::Sha512 => 64,
        }
    }
    pub fn block(self) -> usize {
        match self {
            H::Sha256 => 64,
            H::Sha512 => 128,
        }
    }
    fn compute(self, v: &[u128]) -> [u128; 8] {
        let mut out = [0u128; 8];
        let b: Vec<u8> = v[8..].iter().map(|x| *x as u8).collect();
        match self {
            H::Sha256 => {
                let mut s = [0u32; 8];
                for i in 0..8 {
                    s[i] = v[i] as u32;
                }
                sha2::compress256(&mut s, &[*sha2::digest::generic_array::GenericArray::from_slice(&b)]);
                for i in 0..8 {
                    out[i] = s[i] as u128;
                }
            }
            H::Sha512 => {
                let mut s = [0u64; 8];
                for i in 0..8 {
                    s[i] = v[i] as u64;
                }
                sha2::compress512(&mut s, &[*sha2::digest::generic_array::GenericArray::from_slice(&b)]);
                for i in 0..8 {
                    out[i] = s[i] as u128;
                }
            }
        }
        out
    }
}
/// One compression step: the new state.
pub fn compress(h: H, args: &[E]) -> [E; 8] {
    let w = h.word();
    let mut out = [E::C(0, w as u8); 8];
    let c: Option<Vec<u128>> = args.iter().map(|e| cval(*e)).collect();
    if let Some(v) = c {
        let r = h.compute(&v);
        let seen = &mut cx().hseen;
        if !seen.iter().any(|s| s.0 == h && s.2 == r) {
            seen.push((h, v, r));
        }
        for i in 0..8 {
            out[i] = konst(r[i], w);
        }
        return out;
    }
    let key: std::rc::Rc<[E]> = args.into();
    let c = cx();
    let id = match c.hmap.get(&key) {
        Some(i) => *i,
        None => {
            c.hargs.push(key.clone());
            c.hmap.insert(key, c.hargs.len() as u32 - 1);
            c.hargs.len() as u32 - 1
        }
    };
    for i in 0..8 {
        out[i] = mk(N::Hash(h, i as u8, id), w);
    }
    out
}
/// Part of a hash result: (function, word, low bit, width of the part, arguments)
fn hash_piece(e: E) -> Option<(H, u8, u32, u32, u32)> {
    let E::S(i) = e else { return None };
    match node(i) {
        N::Hash(h, k, a) => Some((h, k, 0, h.word(), a)),
        N::Ext(x, lo) => match x {
            E::S(j) => match node(j) {
                N::Hash(h, k, a) => Some((h, k, lo as u32, width(e), a)),
                _ => None,
            },
            _ => None,
        },
        _ => None,
    }
}

pub fn sym(idx: u32, w: u32) -> E {
    let c = cx();
    while c.syms.len() <= idx as usize {
        c.syms.push(0);
    }
    c.syms[idx as usize] = w as u16;
    mk(N::Sym(idx), w)
}

pub fn konst(v: u128, w: u32) -> E {
    let v = v & mask(w);
    if w <= 64 {
        E::C(v as u64, w as u8)
    } else if w <= 128 {
        mk(N::Wide(v), w)
    } else {
        // very wide constants are concatenations
        if v == 0 {
            cat(konst(0, w - 64), konst(0, 64))
        } else {
            cat(konst(0, w - 128), konst(v, 128))
        }
    }
}

#[inline]
pub fn cval(e: E) -> Option<u128> {
    match e {
        E::C(v, _) => Some(v as u128),
        E::S(i) => match node(i) {
            N::Wide(v) => Some(v),
            _ => None,
        },
    }
}

pub fn sext_val(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn fold_bin(op: B, a: u128, b: u128, w: u32) -> u128 {
    let m = mask(w);
    let r = match op {
        B::Add => a.wrapping_add(b),
        B::Sub => a.wrapping_sub(b),
        B::Mul => a.wrapping_mul(b),
        B::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        B::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        B::SDiv => {
            let (x, y) = (sext_val(a, w), sext_val(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        B::SRem => {
            let (x, y) = (sext_val(a, w), sext_val(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        B::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        B::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        B::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sext_val(a, w) >> s) as u128
        }
        B::And => a & b,
        B::Or => a | b,
        B::Xor => a ^ b,
    };
    r & m
}

fn commutes(op: B) -> bool {
    matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor)
}

pub fn bin(op: B, a: E, b: E) -> E {
    if let (E::C(x, w), E::C(y, _)) = (a, b) {
        // hot path
        let w32 = w as u32;
        let m = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
        match op {
            B::Add => return E::C(x.wrapping_add(y) & m, w),
            B::Sub => return E::C(x.wrapping_sub(y) & m, w),
            B::And => return E::C(x & y, w),
            B::Or => return E::C(x | y, w),
            B::Xor => return E::C(x ^ y, w),
            _ => return konst(fold_bin(op, x as u128, y as u128, w32), w32),
        }
    }
    let w = width(a);
    debug_assert_eq!(w, width(b));
    let (ca, cb) = (cval(a), cval(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        return konst(fold_bin(op, x, y, w), w);
    }
    // constants to the right
    if ca.is_some() && commutes(op) {
        return bin(op, b, a);
    }
    if let Some(c) = cb {
        let m = mask(w);
        match op {
            B::Add | B::Sub | B::Or | B::Xor | B::Shl | B::LShr | B::AShr if c == 0 => return a,
            B::And if c == 0 => return b,
            B::And if c == m => return a,
            B::Or if c == m => return b,
            B::Mul if c == 0 => return b,
            B::Mul | B::UDiv | B::SDiv if c == 1 => return a,
            B::URem if c == 1 => return konst(0, w),
            B::Shl | B::LShr if c >= w as u128 => return konst(0, w),
            _ => {}
        }
        match op {
            B::Sub => return bin(B::Add, a, konst((!c).wrapping_add(1), w)),
            B::Mul if c == m && w > 1 => return bin(B::Sub, konst(0, w), a),
            B::Mul if c.is_power_of_two() => {
                return bin(B::Shl, a, konst(c.trailing_zeros() as u128, w))
            }
            B::UDiv if c.is_power_of_two() => {
                return bin(B::LShr, a, konst(c.trailing_zeros() as u128, w))
            }
            B::URem if c.is_power_of_two() => return bin(B::And, a, konst(c - 1, w)),
            _ => {}
        }
        if let E::S(i) = a {
            match (op, node(i)) {
                (B::Add, N::Bin(B::Add, x, y)) => {
                    if let Some(d) = cval(y) {
                        return bin(B::Add, x, konst(c.wrapping_add(d), w));
                    }
                }
                (B::And, N::Bin(B::And, x, y)) => {
                    if let Some(d) = cval(y) {
                        return bin(B::And, x, konst(c & d, w));
                    }
                }
                (B::Or, N::Bin(B::Or, x, y)) => {
                    if let Some(d) = cval(y) {
                        return bin(B::Or, x, konst(c | d, w));
                    }
                }
                (B::Xor, N::Bin(B::Xor, x, y)) => {
                    if let Some(d) = cval(y) {
                        return bin(B::Xor, x, konst(c ^ d, w));
                    }
                }
                (B::Shl, N::Bin(B::Shl, x, y)) => {
                    if let Some(d) = cval(y) {
                        if c + d < w as u128 {
                            return bin(B::Shl, x, konst(c + d, w));
                        } else {
                            return konst(0, w);
                        }
                    }
                }
                // an exact multiple
                (B::UDiv | B::URem, N::Bin(B::Mul, x, y)) if c > 0 && w <= 128 => {
                    if let Some(d) = cval(y) {
                        if d % c == 0 && umax(x).checked_mul(d).is_some_and(|v| v <= m) {
                            return match op {
                                B::UDiv => bin(B::Mul, x, konst(d / c, w)),
                                _ => konst(0, w),
                            };
                        }
                    }
                }
                (B::And, N::Zx(x)) => {
                    let xw = width(x);
                    return zext(bin(B::And, x, konst(c, xw)), w);
                }
                (B::LShr, N::Zx(x)) => {
                    let xw = width(x);
                    if c >= xw as u128 {
                        return konst(0, w);
                    }
                    return zext(bin(B::LShr, x, konst(c, xw)), w);
                }
                (_, N::Ite(g, x, y)) if cval(x).is_some() && cval(y).is_some() => {
                    return ite(g, bin(op, x, b), bin(op, y, b));
                }
                _ => {}
            }
        }
        // shifts by constants as concatenations: keeps byte structure visible
        match op {
            B::Shl if w <= 128 => {
                let k = c as u32;
                return cat(extract(a, 0, w - k), konst(0, k));
            }
            B::LShr => {
                let k = c as u32;
                return zext(extract(a, k, w - k), w);
            }
            B::And => {
                // mask of low bits
                let t = (!c).trailing_zeros();
                if c == mask(t) && t > 0 && t < w {
                    return zext(extract(a, 0, t), w);
                }
                // contiguous mask with low zeros
                let z = c.trailing_zeros();
                let ones = ((c >> z) + 1).trailing_zeros();
                if (c >> z) == mask(ones) && z > 0 && z + ones <= w {
                    let mid = extract(a, z, ones);
                    let lo = cat(mid, konst(0, z));
                    return zext(lo, w);
                }
            }
            B::Or | B::Xor | B::Add => {
                // zext(x) | (c with no overlapping bits) => concatenation
                if let E::S(i) = a {
                    match node(i) {
                        N::Zx(x) => {
                            let xw = width(x);
                            if c & mask(xw) == 0 && w <= 128 {
                                return cat(konst(c >> xw, w - xw), x);
                            }
                        }
                        N::Cat(h, l) => {
                            if let Some(0) = cval(l) {
                                let lw = width(l);
                                if c >> lw == 0 {
                                    return cat(h, konst(c, lw));
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    } else {
        match op {
            B::Sub | B::Xor if a == b => return konst(0, w),
            B::And | B::Or if a == b => return a,
            _ => {}
        }
        if matches!(op, B::Or | B::Add | B::Xor) && w <= 128 {
            if let Some(r) = disjoint_or(a, b, w) {
                return r;
            }
            if let Some(r) = disjoint_or(b, a, w) {
                return r;
            }
        }
        if w == 1 && op == B::Or {
            if is_not(a, b) {
                return E::C(1, 1);
            }
        }
        if w == 1 && op == B::And {
            if is_not(a, b) {
                return E::C(0, 1);
            }
        }
    }
    let (a, b) = if commutes(op) && cb.is_none() && key(a) > key(b) {
        (b, a)
    } else {
        (a, b)
    };
    if w > 8 && w <= 128 && matches!(op, B::Add | B::Mul | B::UDiv | B::URem | B::Or | B::Xor | B::And) {
        let (x, y) = (umax(a), umax(b));
        let r = bound(N::Bin(op, a, b), w);
        let k = bits(x.max(y).max(r)).max(1);
        if k < w && (k <= w / 2 || bits(r) == 0) && free(a) && free(b) {
            if r == 0 {
                return konst(0, w);
            }
            return zext(bin(op, extract(a, 0, k), extract(b, 0, k)), w);
        }
    }
    mk(N::Bin(op, a, b), w)
}
/// narrowing costs nothing
fn free(e: E) -> bool {
    match e {
        E::C(..) => true,
        E::S(i) => matches!(node(i), N::Zx(_)),
    }
}

fn is_not(a: E, b: E) -> bool {
    not1(a) == b
}

fn key(e: E) -> u64 {
    match e {
        E::C(v, _) => v,
        E::S(i) => (1 << 40) + i as u64,
    }
}

/// a = high part shifted left over zeros, b = zero-extended low part
fn disjoint_or(a: E, b: E, w: u32) -> Option<E> {
    let (E::S(i), E::S(j)) = (a, b) else {
        return None;
    };
    match (node(i), node(j)) {
        (N::Cat(h, l), N::Zx(x)) => {
            if let Some(0) = cval(l) {
                let lw = width(l);
                let xw = width(x);
                if xw <= lw {
                    return Some(cat(h, zext(x, lw)));
                }
            }
            None
        }
        (N::Zx(y), N::Zx(x)) => {
            // both zero-extended: narrow
            let n = width(x).max(width(y));
            if n < w {
                let (p, q) = (zext(y, n), zext(x, n));
                if let (E::S(_), E::S(_)) = (p, q) {
                    if let Some(r) = disjoint_or(p, q, n) {
                        return Some(zext(r, w));
                    }
                    if let Some(r) = disjoint_or(q, p, n) {
                        return Some(zext(r, w));
                    }
                }
            }
            None
        }
        _ => None,
    }
}

pub fn not1(a: E) -> E {
    bin(B::Xor, a, E::C(1, 1))
}

pub fn cmp(p: P, a: E, b: E) -> E {
    if let (E::C(x, w), E::C(y, _)) = (a, b) {
        let r = match p {
            P::Eq => x == y,
            P::Ult => x < y,
            P::Ule => x <= y,
            _ => {
                let (x, y) = (sext_val(x as u128, w as u32), sext_val(y as u128, w as u32));
                match p {
                    P::Slt => x < y,
                    _ => x <= y,
                }
            }
        };
        return E::C(r as u64, 1);
    }
    let w = width(a);
    debug_assert_eq!(w, width(b));
    let (ca, cb) = (cval(a), cval(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        let r = match p {
            P::Eq => x == y,
            P::Ult => x < y,
            P::Ule => x <= y,
            P::Slt => sext_val(x, w) < sext_val(y, w),
            P::Sle => sext_val(x, w) <= sext_val(y, w),
        };
        return E::C(r as u64, 1);
    }
    if a == b {
        return E::C(matches!(p, P::Eq | P::Ule | P::Sle) as u64, 1);
    }
    if p == P::Eq && ca.is_some() {
        return cmp(P::Eq, b, a);
    }
    if w <= 128 {
        if let Some(c) = cb {
            match p {
                P::Eq if c > umax(a) => return E::C(0, 1),
                P::Ult if c > umax(a) => return E::C(1, 1),
                P::Ule if c >= umax(a) => return E::C(1, 1),
                _ => {}
            }
        }
        if let Some(c) = ca {
            match p {
                P::Ult if c >= umax(b) => return E::C(0, 1),
                P::Ule if c > umax(b) => return E::C(0, 1),
                _ => {}
            }
        }
    }
    // comparisons against constants
    match (p, ca, cb) {
        (P::Ult, _, Some(0)) => return E::C(0, 1),
        (P::Ult, _, Some(1)) => return cmp(P::Eq, a, konst(0, w)),
        (P::Ule, Some(0), _) => return E::C(1, 1),
        (P::Ule, _, Some(c)) if c == mask(w) => return E::C(1, 1),
        (P::Ule, _, Some(c)) => return cmp(P::Ult, a, konst(c + 1, w)),
        (P::Ult, Some(c), _) if c == mask(w) => return E::C(0, 1),
        (P::Ule, Some(c), _) => return not1(cmp(P::Ult, b, konst(c, w))),
        (P::Ult, Some(c), _) => return not1(cmp(P::Ult, b, konst(c + 1, w))),
        (P::Slt, Some(c), _) if c == mask(w) >> 1 => return E::C(0, 1),
        (P::Slt, Some(c), _) => return not1(cmp(P::Slt, b, konst(c.wrapping_add(1), w))),
        (P::Sle, Some(c), _) => return not1(cmp(P::Slt, b, konst(c, w))),
        (P::Sle, _, Some(c)) if c == mask(w) >> 1 => return E::C(1, 1),
        (P::Sle, _, Some(c)) => return cmp(P::Slt, a, konst(c.wrapping_add(1), w)),
        _ => {}
    }
    if let (E::S(i), Some(c)) = (a, cb) {
        match node(i) {
            N::Zx(x) => {
                let xw = width(x);
                match p {
                    P::Eq => {
                        if c > mask(xw) {
                            return E::C(0, 1);
                        }
                        return cmp(P::Eq, x, konst(c, xw));
                    }
                    P::Ult => {
                        if c > mask(xw) {
                            return E::C(1, 1);
                        }
                        return cmp(P::Ult, x, konst(c, xw));
                    }
                    P::Slt => {
                        if sext_val(c, w) <= 0 {
                            return E::C(0, 1);
                        }
                        if c > mask(xw) {
                            return E::C(1, 1);
                        }
                        return cmp(P::Ult, x, konst(c, xw));
                    }
                    _ => {}
                }
            }
            N::Bin(B::Mul, x, y) if matches!(p, P::Eq | P::Ult) => {
                if let Some(d) = cval(y) {
                    if d > 0 && umax(x).checked_mul(d).is_some_and(|v| v <= mask(w)) {
                        return match p {
                            P::Eq if c % d != 0 => E::C(0, 1),
                            P::Eq => cmp(P::Eq, x, konst(c / d, w)),
                            _ => cmp(P::Ult, x, konst(c.div_ceil(d), w)),
                        };
                    }
                }
            }
            N::Sx(x) if p == P::Eq => {
                let xw = width(x);
                let back = sext_val(c & mask(xw), xw) as u128 & mask(w);
                if back != c {
                    return E::C(0, 1);
                }
                return cmp(P::Eq, x, konst(c, xw));
            }
            N::Bin(B::Add, x, y) if p == P::Eq => {
                if let Some(d) = cval(y) {
                    return cmp(P::Eq, x, konst(c.wrapping_sub(d), w));
                }
            }
            N::Bin(B::Add, x, y) if p == P::Ult => {
                // no wrap-around
                if let Some(d) = cval(y) {
                    if umax(x).checked_add(d).is_some_and(|v| v <= mask(w)) {
                        if c <= d {
                            return E::C(0, 1);
                        }
                        return cmp(P::Ult, x, konst(c - d, w));
                    }
                }
            }
            N::Bin(B::Xor, x, y) if p == P::Eq => {
                if let Some(d) = cval(y) {
                    return cmp(P::Eq, x, konst(c ^ d, w));
                }
                if c == 0 {
                    return cmp(P::Eq, x, y);
                }
            }
            N::Bin(B::Or, ..) if p == P::Slt && c == 0 && w > 1 => {
                return cmp(P::Eq, extract(a, w - 1, 1), E::C(1, 1));
            }
            N::Bin(B::Sub, x, y) if p == P::Eq && c == 0 => return cmp(P::Eq, x, y),
            N::Bin(B::Or, x, y) if p == P::Eq && c == 0 => {
                return bin(
                    B::And,
                    cmp(P::Eq, x, konst(0, w)),
                    cmp(P::Eq, y, konst(0, w)),
                );
            }
            N::Cat(h, l) if p == P::Eq => {
                let lw = width(l);
                let hw = width(h);
                return bin(
                    B::And,
                    cmp(P::Eq, h, konst(c >> lw, hw)),
                    cmp(P::Eq, l, konst(c, lw)),
                );
            }
            N::Ite(g, x, y) => {
                let (cx_, cy) = (cval(x), cval(y));
                if cx_.is_some() || cy.is_some() {
                    return ite(g, cmp(p, x, b), cmp(p, y, b));
                }
            }
            _ => {}
        }
        if w == 1 && p == P::Eq {
            return if c == 1 { a } else { not1(a) };
        }
    }
    if p == P::Eq {
        // an ideal hash: equal results come from equal inputs
        if let (Some(x), Some(c)) = (hash_piece(a), cb) {
            let l = cx().hargs[x.4 as usize].clone();
            let mut acc = E::C(0, 1);
            for (h, v, r) in cx().hseen.iter() {
                if *h != x.0 || (r[x.1 as usize] >> x.2) & mask(x.3) != c {
                    continue;
                }
                if l.iter().zip(v).any(|(e, c)| cval(*e).is_some_and(|d| d != *c)) {
                    continue;
                }
                let mut one = E::C(1, 1);
                for (e, c) in l.iter().zip(v.clone()) {
                    one = bin(B::And, one, cmp(P::Eq, *e, konst(c, width(*e))));
                }
                acc = bin(B::Or, acc, one);
            }
            return acc;
        }
        if let (Some(x), Some(y)) = (hash_piece(a), hash_piece(b)) {
            if (x.0, x.1, x.2, x.3) == (y.0, y.1, y.2, y.3) {
                let (l, r) = (cx().hargs[x.4 as usize].clone(), cx().hargs[y.4 as usize].clone());
                let mut acc = E::C(1, 1);
                for k in 0..l.len() {
                    let c = cmp(P::Eq, l[k], r[k]);
                    if c == E::C(0, 1) {
                        return c;
                    }
                    acc = bin(B::And, acc, c);
                }
                return acc;
            }
        }
        if let (E::S(i), E::S(j)) = (a, b) {
            match (node(i), node(j)) {
                (N::Zx(x), N::Zx(y)) if width(x) == width(y) => return cmp(P::Eq, x, y),
                (N::Bin(B::Xor, x, y), _) if x == b => return cmp(P::Eq, y, konst(0, w)),
                (N::Bin(B::Xor, x, y), _) if y == b => return cmp(P::Eq, x, konst(0, w)),
                (_, N::Bin(B::Xor, x, y)) if x == a => return cmp(P::Eq, y, konst(0, w)),
                (_, N::Bin(B::Xor, x, y)) if y == a => return cmp(P::Eq, x, konst(0, w)),
                (N::Cat(h, l), N::Cat(h2, l2)) if width(l) == width(l2) => {
                    return bin(B::And, cmp(P::Eq, h, h2), cmp(P::Eq, l, l2));
                }
                (N::Bin(B::Add, x, y), N::Bin(B::Add, x2, y2))
                    if x == x2 && cval(y).is_some() && cval(y2).is_some() =>
                {
                    return cmp(P::Eq, y, y2);
                }
                _ => {}
            }
        }
        let (a, b) = if cb.is_none() && key(a) > key(b) {
            (b, a)
        } else {
            (a, b)
        };
        return mk(N::Cmp(p, a, b), 1);
    }
    if let (E::S(i), E::S(j)) = (a, b) {
        if let (N::Zx(x), N::Zx(y)) = (node(i), node(j)) {
            if width(x) == width(y) {
                let q = match p {
                    P::Slt => P::Ult,
                    P::Sle => P::Ule,
                    o => o,
                };
                return cmp(q, x, y);
            }
        }
    }
    mk(N::Cmp(p, a, b), 1)
}

pub fn ite(g: E, a: E, b: E) -> E {
    if let E::C(v, _) = g {
        return if v & 1 == 1 { a } else { b };
    }
    if a == b {
        return a;
    }
    let w = width(a);
    debug_assert_eq!(w, width(b));
    if let E::S(i) = g {
        if let N::Bin(B::Xor, x, y) = node(i) {
            if y == E::C(1, 1) {
                return ite(x, b, a);
            }
        }
    }
    if w == 1 {
        match (a, b) {
            (E::C(1, _), E::C(0, _)) => return g,
            (E::C(0, _), E::C(1, _)) => return not1(g),
            (E::C(1, _), _) => return bin(B::Or, g, b),
            (E::C(0, _), _) => return bin(B::And, not1(g), b),
            (_, E::C(0, _)) => return bin(B::And, g, a),
            (_, E::C(1, _)) => return bin(B::Or, not1(g), a),
            _ => {}
        }
    }
    if let E::S(i) = a {
        if let N::Ite(g2, x, _) = node(i) {
            if g2 == g {
                return ite(g, x, b);
            }
        }
    }
    if let E::S(i) = b {
        if let N::Ite(g2, _, y) = node(i) {
            if g2 == g {
                return ite(g, a, y);
            }
        }
    }
    mk(N::Ite(g, a, b), w)
}

pub fn extract(a: E, lo: u32, w: u32) -> E {
    let E::S(i) = a else { return extract_(a, lo, w) };
    if let N::Bin(..) | N::Ite(..) = node(i) {
        let k = (i, lo as u16, w as u16);
        if let Some(r) = cx().exts.get(&k) {
            return *r;
        }
        let r = extract_(a, lo, w);
        cx().exts.insert(k, r);
        return r;
    }
    extract_(a, lo, w)
}
fn extract_(a: E, lo: u32, w: u32) -> E {
    // the sign of x | -x: is x other than 0?
    if w == 1 && lo + 1 == width(a) && lo > 0 {
        if let E::S(i) = a {
            if let N::Bin(B::Or, x, y) = node(i) {
                for (x, y) in [(x, y), (y, x)] {
                    if let E::S(j) = y {
                        if let N::Bin(B::Sub, z, x2) = node(j) {
                            if cval(z) == Some(0) && x2 == x {
                                return not1(cmp(P::Eq, x, konst(0, width(x))));
                            }
                        }
                    }
                }
            }
        }
    }
    let aw = width(a);
    assert!(lo + w <= aw && w > 0, "bad extract");
    if lo == 0 && w == aw {
        return a;
    }
    if aw <= 128 && lo < 128 {
        let u = umax(a);
        if u >> lo == 0 {
            return konst(0, w);
        }
        let k = bits(u >> lo);
        if k < w && matches!(a, E::S(_)) {
            return zext(extract(a, lo, k), w);
        }
    }
    match a {
        E::C(v, _) => konst((v >> lo) as u128, w),
        E::S(i) => match node(i) {
            N::Wide(v) => konst(v >> lo, w),
            N::Ext(x, l2) => extract(x, l2 as u32 + lo, w),
            N::Cat(h, l) => {
                let lw = width(l);
                if lo >= lw {
                    extract(h, lo - lw, w)
                } else if lo + w <= lw {
                    extract(l, lo, w)
                } else {
                    cat(extract(h, 0, lo + w - lw), extract(l, lo, lw - lo))
                }
            }
            N::Zx(x) => {
                let xw = width(x);
                if lo >= xw {
                    konst(0, w)
                } else if lo + w <= xw {
                    extract(x, lo, w)
                } else {
                    zext(extract(x, lo, xw - lo), w)
                }
            }
            N::Sx(x) => {
                let xw = width(x);
                if lo + w <= xw {
                    extract(x, lo, w)
                } else if lo < xw {
                    sext(extract(x, lo, xw - lo), w)
                } else {
                    sext(extract(x, xw - 1, 1), w)
                }
            }
            N::Ite(g, x, y) => {
                if cval(x).is_some() || cval(y).is_some() {
                    return ite(g, extract(x, lo, w), extract(y, lo, w));
                }
                mk(N::Ext(a, lo as u16), w)
            }
            N::Bin(op @ (B::And | B::Or | B::Xor), x, y) => {
                bin(op, extract(x, lo, w), extract(y, lo, w))
            }
            N::Bin(op @ (B::Add | B::Sub | B::Mul), x, y) if lo == 0 => {
                bin(op, extract(x, 0, w), extract(y, 0, w))
            }
            _ => mk(N::Ext(a, lo as u16), w),
        },
    }
}

/// A piece of a value on its way to memory: kept such that `cat` can put it together again.
pub fn piece(a: E, lo: u32, w: u32) -> E {
    if lo == 0 && w == width(a) {
        return a;
    }
    if let E::S(i) = a {
        let u = umax(a);
        if matches!(node(i), N::Bin(..)) && width(a) <= 128 && u >> lo != 0 && bits(u >> lo) >= w {
            return mk(N::Ext(a, lo as u16), w);
        }
    }
    extract(a, lo, w)
}

pub fn cat(h: E, l: E) -> E {
    let (hw, lw) = (width(h), width(l));
    let w = hw + lw;
    let (ch, cl) = (cval(h), cval(l));
    if let (Some(x), Some(y)) = (ch, cl) {
        if w <= 128 {
            return konst((x << lw) | y, w);
        }
    }
    if ch == Some(0) {
        return zext(l, w);
    }
    if let E::S(i) = h {
        match node(i) {
            N::Zx(x) => return zext(cat(x, l), w),
            N::Ite(g, a, b) => {
                if let E::S(j) = l {
                    if let N::Ite(g2, c, d) = node(j) {
                        if g == g2 {
                            return ite(g, cat(a, c), cat(b, d));
                        }
                    }
                } else if cval(a).is_some() && cval(b).is_some() {
                    return ite(g, cat(a, l), cat(b, l));
                }
            }
            _ => {}
        }
    } else if let E::S(j) = l {
        if let N::Ite(g, c, d) = node(j) {
            if cval(c).is_some() && cval(d).is_some() {
                return ite(g, cat(h, c), cat(h, d));
            }
        }
    }
    if let (E::S(i), E::S(j)) = (h, l) {
        let (x, lo1, wi) = match node(i) {
            N::Ext(x, lo) => (x, lo as u32, hw),
            _ => (h, 0, hw),
        };
        let _ = wi;
        match node(j) {
            N::Ext(y, lo2) if y == x && lo2 as u32 + lw == lo1 => {
                return piece(x, lo2 as u32, w);
            }
            N::Cat(m, l2) => {
                // (h ++ (m ++ l2)) where h,m adjacent
                if let (N::Ext(x, lo1), E::S(k)) = (node(i), m) {
                    if let N::Ext(y, lo2) = node(k) {
                        if x == y && lo2 as u32 + width(m) == lo1 as u32 {
                            return cat(piece(x, lo2 as u32, hw + width(m)), l2);
                        }
                    }
                }
            }
            _ => {}
        }
        // x itself followed by its sign/zero pieces is left alone
        if let N::Ext(x, lo1) = node(i) {
            if x == l && lo1 == 0 {
                // no simplification
            }
        }
        if let N::Sx(x) = node(i) {
            let _ = x;
        }
    }
    mk(N::Cat(h, l), w)
}

pub fn zext(a: E, w: u32) -> E {
    let aw = width(a);
    if aw == w {
        return a;
    }
    if let Some(v) = cval(a) {
        if w <= 128 {
            return konst(v, w);
        }
    }
    if let E::S(i) = a {
        if let N::Zx(x) = node(i) {
            return zext(x, w);
        }
    }
    mk(N::Zx(a), w)
}

pub fn sext(a: E, w: u32) -> E {
    let aw = width(a);
    if aw == w {
        return a;
    }
    if let Some(v) = cval(a) {
        return konst(sext_val(v, aw) as u128, w);
    }
    if let E::S(i) = a {
        match node(i) {
            N::Zx(x) => return zext(x, w),
            N::Sx(x) => return sext(x, w),
            _ => {}
        }
    }
    mk(N::Sx(a), w)
}

// ---------- floats (as bit patterns) ----------
fn f32v(v: u128) -> f32 {
    f32::from_bits(v as u32)
}
fn f64v(v: u128) -> f64 {
    f64::from_bits(v as u64)
}
pub fn fbin_fold(op: FB, a: u128, b: u128, w: u32) -> u128 {
    macro_rules! go {
        ($f:ident) => {{
            let (x, y) = ($f(a), $f(b));
            (match op {
                FB::Add => x + y,
                FB::Sub => x - y,
                FB::Mul => x * y,
                FB::Div => x / y,
                FB::Rem => x % y,
                FB::Min => x.min(y),
                FB::Max => x.max(y),
            })
            .to_bits() as u128
        }};
    }
    if w == 32 {
        go!(f32v)
    } else {
        go!(f64v)
    }
}
pub fn fbin(op: FB, a: E, b: E) -> E {
    let w = width(a);
    if let (Some(x), Some(y)) = (cval(a), cval(b)) {
        return konst(fbin_fold(op, x, y, w), w);
    }
    if let (FB::Div, Some(0), Some((l, _))) = (op, cval(b), frange(a, 12)) {
        if l >= 0.0 {
            // 0/0 is no number; the processor's is negative
            let (nan, inf) = if w == 32 {
                (0xffc0_0000, f32::INFINITY.to_bits() as u128)
            } else {
                (0xfff8_0000_0000_0000, f64::INFINITY.to_bits() as u128)
            };
            return ite(fcmp(FP::Oeq, a, b), konst(nan, w), konst(inf, w));
        }
    }
    cx().has_float = true;
    mk(N::FBin(op, a, b), w)
}
pub fn fcmp_fold(p: FP, a: u128, b: u128, w: u32) -> bool {
    macro_rules! go {
        ($f:ident) => {{
            let (x, y) = ($f(a), $f(b));
            match p {
                FP::Oeq => x == y,
                FP::Olt => x < y,
                FP::Ole => x <= y,
                FP::Uno => x.is_nan() || y.is_nan(),
            }
        }};
    }
    if w == 32 {
        go!(f32v)
    } else {
        go!(f64v)
    }
}
/// Bounds of a value that is a number for sure. Rounding is monotonic, so that what the bounds
/// are rounded to bounds what is between them.
fn frange(e: E, depth: u32) -> Option<(f64, f64)> {
    let w = width(e);
    let i = match e {
        E::C(v, _) => {
            let x = if w == 32 { f32v(v as u128) as f64 } else { f64v(v as u128) };
            return if x.is_nan() { None } else { Some((x, x)) };
        }
        E::S(i) => i,
    };
    if depth == 0 {
        return None;
    }
    let round = |x: f64| if w == 32 { x as f32 as f64 } else { x };
    match node(i) {
        N::FUn(FU::FromU, a) => {
            let bits = match a {
                E::S(k) => match node(k) {
                    N::Zx(b) => width(b),
                    _ => width(a),
                },
                _ => width(a),
            };
            Some((0.0, 2f64.powi(bits as i32)))
        }
        N::FUn(FU::FromS, a) => {
            let m = 2f64.powi(width(a) as i32 - 1);
            Some((-m, m))
        }
        N::FUn(FU::Ext, a) => frange(a, depth - 1),
        N::FUn(FU::Trunc, a) => frange(a, depth - 1).map(|(l, h)| (round(l), round(h))),
        N::Bin(B::And, a, m) if cval(m) == Some(mask(w) >> 1) => {
            let (l, h) = frange(a, depth - 1)?;
            let top = l.abs().max(h.abs());
            Some((if l <= 0.0 && h >= 0.0 { 0.0 } else { l.abs().min(h.abs()) }, top))
        }
        // the same without the sign's bit
        N::Cat(E::C(0, 1), E::S(k)) | N::Zx(E::S(k)) => match node(k) {
            N::Ext(a, 0) if width(a) == w && width(E::S(k)) == w - 1 => {
                let (l, h) = frange(a, depth - 1)?;
                Some((0.0, l.abs().max(h.abs())))
            }
            _ => None,
        },
        N::Ite(_, a, b) => {
            let (x, y) = (frange(a, depth - 1)?, frange(b, depth - 1)?);
            Some((x.0.min(y.0), x.1.max(y.1)))
        }
        N::FBin(op, a, b) => {
            let (x, y) = (frange(a, depth - 1)?, frange(b, depth - 1)?);
            if [x.0, x.1, y.0, y.1].iter().any(|v| v.is_infinite()) {
                return None;
            }
            let at = |p: f64, q: f64| {
                let bits = |v: f64| if w == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 };
                let r = fbin_fold(op, bits(p), bits(q), w);
                if w == 32 { f32v(r) as f64 } else { f64v(r) }
            };
            match op {
                FB::Div if y.0 <= 0.0 && y.1 >= 0.0 => return None,
                FB::Rem => return None,
                _ => {}
            }
            let v = [at(x.0, y.0), at(x.0, y.1), at(x.1, y.0), at(x.1, y.1)];
            if v.iter().any(|v| v.is_nan()) {
                return None;
            }
            Some((v.iter().copied().fold(f64::INFINITY, f64::min), v.iter().copied().fold(f64::NEG_INFINITY, f64::max)))
        }
        _ => None,
    }
}
pub fn fcmp(p: FP, a: E, b: E) -> E {
    if cval(a).is_none() || cval(b).is_none() {
        let (x, y) = (frange(a, 12), frange(b, 12));
        // the integer itself is as good: it is 0 where its number is
        for (x, y) in [(a, b), (b, a)] {
            if let (E::S(i), Some(0), FP::Oeq) = (x, cval(y), p) {
                if let N::FUn(FU::FromU | FU::FromS, v) = node(i) {
                    return cmp(P::Eq, v, konst(0, width(v)));
                }
            }
        }
        if let (Some(x), Some(y)) = (x, y) {
            let known = match p {
                FP::Uno => Some(false),
                FP::Oeq if a == b => Some(true),
                FP::Oeq if x.1 < y.0 || y.1 < x.0 => Some(false),
                FP::Olt if x.1 < y.0 => Some(true),
                FP::Olt if x.0 >= y.1 || a == b => Some(false),
                FP::Ole if x.1 <= y.0 || a == b => Some(true),
                FP::Ole if x.0 > y.1 => Some(false),
                _ => None,
            };
            if let Some(k) = known {
                return E::C(k as u64, 1);
            }
        }
    }
    if let (Some(x), Some(y)) = (cval(a), cval(b)) {
        return E::C(fcmp_fold(p, x, y, width(a)) as u64, 1);
    }
    cx().has_float = true;
    mk(N::FCmp(p, a, b), 1)
}
pub fn fun_fold(op: FU, a: u128, aw: u32, w: u32) -> u128 {
    match op {
        FU::Trunc => (f64v(a) as f32).to_bits() as u128,
        FU::Ext => (f32v(a) as f64).to_bits() as u128,
        FU::FromU => {
            if w == 32 {
                (a as f32).to_bits() as u128
            } else {
                (a as f64).to_bits() as u128
            }
        }
        FU::FromS => {
            let s = sext_val(a, aw);
            if w == 32 {
                (s as f32).to_bits() as u128
            } else {
                (s as f64).to_bits() as u128
            }
        }
        FU::Neg => (a ^ (1u128 << (w - 1))) & mask(w),
        FU::Abs => a & (mask(w) >> 1),
        _ => {
            if w == 32 {
                let x = f32v(a);
                (match op {
                    FU::Floor => x.floor(),
                    FU::Ceil => x.ceil(),
                    FU::Sqrt => x.sqrt(),
                    _ => x.trunc(),
                })
                .to_bits() as u128
            } else {
                let x = f64v(a);
                (match op {
                    FU::Floor => x.floor(),
                    FU::Ceil => x.ceil(),
                    FU::Sqrt => x.sqrt(),
                    _ => x.trunc(),
                })
                .to_bits() as u128
            }
        }
    }
}
pub fn fun(op: FU, a: E, w: u32) -> E {
    if let Some(v) = cval(a) {
        return konst(fun_fold(op, v, width(a), w), w);
    }
    match op {
        FU::Neg => return bin(B::Xor, a, konst(1u128 << (w - 1), w)),
        FU::Abs => return bin(B::And, a, konst(mask(w) >> 1, w)),
        _ => {}
    }
    if let E::S(i) = a {
        if let N::Ite(g, x, y) = node(i) {
            if cval(x).is_some() || cval(y).is_some() {
                return ite(g, fun(op, x, w), fun(op, y, w));
            }
        }
    }
    cx().has_float = true;
    mk(N::FUn(op, a), w)
}
pub fn ftoi_fold(signed: bool, a: u128, aw: u32, w: u32) -> u128 {
    let x = if aw == 32 { f32v(a) as f64 } else { f64v(a) };
    let r = if signed {
        let lo = -(2f64.powi(w as i32 - 1));
        let hi = 2f64.powi(w as i32 - 1);
        if x.is_nan() {
            0
        } else if x < lo {
            1u128 << (w - 1)
        } else if x >= hi {
            (1u128 << (w - 1)) - 1
        } else {
            (x as i128) as u128
        }
    } else if x.is_nan() || x <= 0.0 {
        0
    } else if x >= 2f64.powi(w as i32) {
        mask(w)
    } else {
        x as u128
    };
    r & mask(w)
}
pub fn ftoi(signed: bool, a: E, w: u32) -> E {
    if let Some(v) = cval(a) {
        return konst(ftoi_fold(signed, v, width(a), w), w);
    }
    cx().has_float = true;
    mk(N::FToI(signed, a), w)
}

/// Evaluates under an assignment of the input symbols (missing ones are 0).
pub fn eval(e: E, model: &[u128], memo: &mut HashMap<u32, u128, Fx>) -> u128 {
    match e {
        E::C(v, _) => v as u128,
        E::S(i) => {
            if let Some(&v) = memo.get(&i) {
                return v;
            }
            let w = cx().ws[i as usize] as u32;
            let r = match node(i) {
                N::Sym(s) => model.get(s as usize).copied().unwrap_or(0) & mask(w),
                N::Wide(v) => v,
                N::Bin(op, a, b) => {
                    let x = eval(a, model, memo);
                    let y = eval(b, model, memo);
                    fold_bin(op, x, y, w)
                }
                N::Cmp(p, a, b) => {
                    let x = eval(a, model, memo);
                    let y = eval(b, model, memo);
                    let aw = width(a);
                    (match p {
                        P::Eq => x == y,
                        P::Ult => x < y,
                        P::Ule => x <= y,
                        P::Slt => sext_val(x, aw) < sext_val(y, aw),
                        P::Sle => sext_val(x, aw) <= sext_val(y, aw),
                    }) as u128
                }
                N::Ite(g, a, b) => {
                    if eval(g, model, memo) == 1 {
                        eval(a, model, memo)
                    } else {
                        eval(b, model, memo)
                    }
                }
                N::Ext(a, lo) => {
                    if width(a) > 128 {
                        panic!("unsupported: eval of value wider than 128 bits")
                    }
                    (eval(a, model, memo) >> lo) & mask(w)
                }
                N::Cat(h, l) => {
                    if w > 128 {
                        panic!("unsupported: eval of value wider than 128 bits")
                    }
                    (eval(h, model, memo) << width(l)) | eval(l, model, memo)
                }
                N::Zx(a) => eval(a, model, memo),
                N::Sx(a) => sext_val(eval(a, model, memo), width(a)) as u128 & mask(w),
                N::FBin(op, a, b) => {
                    fbin_fold(op, eval(a, model, memo), eval(b, model, memo), w)
                }
                N::FUn(op, a) => fun_fold(op, eval(a, model, memo), width(a), w),
                N::FCmp(p, a, b) => {
                    fcmp_fold(p, eval(a, model, memo), eval(b, model, memo), width(a)) as u128
                }
                N::FToI(s, a) => ftoi_fold(s, eval(a, model, memo), width(a), w),
                N::Hash(h, k, a) => {
                    let args = cx().hargs[a as usize].clone();
                    let v: Vec<u128> = args.iter().map(|e| eval(*e, model, memo)).collect();
                    h.compute(&v)[k as usize]
                }
            };
            memo.insert(i, r);
            r
        }
    }
}

thread_local! {
    static SYMSETS: std::cell::RefCell<Vec<Option<std::rc::Rc<[u64]>>>> =
        const { std::cell::RefCell::new(Vec::new()) };
}
/// The input symbols an expression depends on, as a bit set.
pub fn symset(e: E) -> std::rc::Rc<[u64]> {
    let i = match e {
        E::C(..) => return std::rc::Rc::from(vec![]),
        E::S(i) => i as usize,
    };
    if let Some(Some(s)) = SYMSETS.with(|c| c.borrow().get(i).cloned()) {
        return s;
    }
    if let N::Hash(_, _, a) = node(i as u32) {
        let mut v: Vec<u64> = vec![];
        for k in cx().hargs[a as usize].clone().iter() {
            let s = symset(*k);
            if s.len() > v.len() {
                v.resize(s.len(), 0);
            }
            for (x, y) in v.iter_mut().zip(s.iter()) {
                *x |= y;
            }
        }
        return keep(i, std::rc::Rc::from(v));
    }
    let kids: [Option<E>; 3] = match node(i as u32) {
        N::Sym(s) => {
            let mut v = vec![0u64; s as usize / 64 + 1];
            v[s as usize / 64] |= 1 << (s % 64);
            let r: std::rc::Rc<[u64]> = std::rc::Rc::from(v);
            return keep(i, r);
        }
        N::Wide(_) => [None, None, None],
        N::Bin(_, a, b) => [Some(a), Some(b), None],
        N::Cmp(_, a, b) => [Some(a), Some(b), None],
        N::FCmp(_, a, b) => [Some(a), Some(b), None],
        N::FBin(_, a, b) => [Some(a), Some(b), None],
        N::Cat(a, b) => [Some(a), Some(b), None],
        N::Ite(a, b, c) => [Some(a), Some(b), Some(c)],
        N::Ext(a, _) => [Some(a), None, None],
        N::Zx(a) | N::Sx(a) => [Some(a), None, None],
        N::FUn(_, a) | N::FToI(_, a) => [Some(a), None, None],
        N::Hash(..) => [None, None, None],
    };
    let mut acc: std::rc::Rc<[u64]> = std::rc::Rc::from(vec![]);
    for k in kids.into_iter().flatten() {
        let s = symset(k);
        if s.len() == 0 {
            continue;
        }
        let sub = |a: &[u64], b: &[u64]| {
            a.len() <= b.len() && a.iter().zip(b).all(|(x, y)| x & !y == 0)
        };
        if sub(&s, &acc) {
            continue;
        }
        if sub(&acc, &s) {
            acc = s;
            continue;
        }
        let mut v = vec![0u64; s.len().max(acc.len())];
        for (i, x) in s.iter().enumerate() {
            v[i] |= x;
        }
        for (i, x) in acc.iter().enumerate() {
            v[i] |= x;
        }
        acc = std::rc::Rc::from(v);
    }
    keep(i, acc)
}
fn keep(i: usize, r: std::rc::Rc<[u64]>) -> std::rc::Rc<[u64]> {
    SYMSETS.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() <= i {
            c.resize(i + 1 + i / 2, None);
        }
        c[i] = Some(r.clone());
    });
    r
}
