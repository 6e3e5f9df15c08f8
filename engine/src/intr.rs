//! LLVM intrinsics, the C library calls std makes, and the harness interface.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum K {
    Def,
    Nop,
    /// returns a constant of the call's type
    Ret(u64),
    Arg(usize),
    Memcpy,
    Memset,
    Memcmp(bool),
    Strlen,
    Malloc,
    MallocAligned,
    Calloc,
    RustZeroed,
    Realloc,
    RustRealloc,
    Free,
    PosixMemalign,
    Panic,
    Abort,
    Ov(B, bool),
    Sat(B, bool),
    MinMax(&'static str),
    Abs,
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    Bitrev,
    Fsh(bool),
    Cmp3(bool),
    Assume,
    LoadRel,
    ObjSize,
    PtrMask,
    Reduce(&'static str),
    FpSat(bool),
    FUn(FU),
    FBin(FB),
    Fma,
    CopySign,
    GetRandom,
    RandomKeys,
    ClockGettime,
    Write,
    Sx(&'static str),
    Tls,
    KeyCreate,
    Errno,
    NoFile,
    PthreadCreate,
    PthreadJoin,
    PthreadSelf,
    Syscall,
    Yield,
    Nanosleep(usize),
    Unsupported,
    /// compression of n blocks: (state, blocks, n)
    Compress(H),
}

pub fn kind_of(n: &str, defined: bool) -> K {
    let sx = [
        "sx_u8", "sx_u16", "sx_u32", "sx_u64", "sx_bool", "sx_assume", "sx_assert", "sx_cover",
        "sx_observe", "sx_panics_ok", "sx_conc", "sx_symbolic", "sx_try", "sx_clock", "sx_fail",
        "sx_fill", "sx_range", "sx_idle", "sx_explore", "ringrtc_verif_lock",
    ];
    if let Some(s) = sx.iter().find(|s| **s == n) {
        return K::Sx(s);
    }
    if n.contains("4core9panicking") && !n.contains("$") {
        return K::Panic;
    }
    if n.contains("18handle_alloc_error")
        || n.contains("rust_begin_unwind")
        || n.contains("11begin_panic")
        || n.contains("begin_panic_handler")
    {
        return K::Panic;
    }
    if n.ends_with("___rust_alloc") || n == "__rust_alloc" || n.ends_with("__rdl_alloc") {
        return K::Malloc;
    }
    if n.ends_with("___rust_alloc_zeroed") || n == "__rust_alloc_zeroed" || n.ends_with("__rdl_alloc_zeroed") {
        return K::RustZeroed;
    }
    if n.ends_with("___rust_dealloc") || n == "__rust_dealloc" || n.ends_with("__rdl_dealloc") {
        return K::Free;
    }
    if n.ends_with("___rust_realloc") || n == "__rust_realloc" || n.ends_with("__rdl_realloc") {
        return K::RustRealloc;
    }
    if n.contains("___rust_no_alloc_shim_is_unstable") {
        return K::Nop;
    }
    if n.contains("20hashmap_random_keys") {
        return K::RandomKeys;
    }
    if n.contains("3std2io5stdio6_print") || n.contains("3std2io5stdio7_eprint") {
        return K::Nop;
    }
    if n.contains("4sha26sha25611compress256") {
        return K::Compress(H::Sha256);
    }
    if n.contains("4sha26sha51211compress512") {
        return K::Compress(H::Sha512);
    }
    if defined {
        return K::Def;
    }
    if let Some(r) = n.strip_prefix("llvm.") {
        let st = |p: &str| r.starts_with(p);
        if st("lifetime") || st("experimental.noalias") || st("dbg") || st("prefetch") || st("x86.sse2.pause") || st("invariant") || st("x86.sse2.") && st("x86.sse2.lfence") {
            return K::Nop;
        }
        if st("memcpy") || st("memmove") {
            return K::Memcpy;
        }
        if st("memset") {
            return K::Memset;
        }
        if st("assume") {
            return K::Assume;
        }
        if st("launder") || st("strip.invariant") || st("expect") || st("ssa.copy") {
            return K::Arg(0);
        }
        if st("threadlocal.address") {
            return K::Tls;
        }
        if st("is.constant") {
            return K::Ret(0);
        }
        if st("objectsize") {
            return K::ObjSize;
        }
        for (p, op, s) in [
            ("uadd.with", B::Add, false),
            ("usub.with", B::Sub, false),
            ("umul.with", B::Mul, false),
            ("sadd.with", B::Add, true),
            ("ssub.with", B::Sub, true),
            ("smul.with", B::Mul, true),
        ] {
            if st(p) {
                return K::Ov(op, s);
            }
        }
        for (p, op, s) in [
            ("uadd.sat", B::Add, false),
            ("usub.sat", B::Sub, false),
            ("sadd.sat", B::Add, true),
            ("ssub.sat", B::Sub, true),
        ] {
            if st(p) {
                return K::Sat(op, s);
            }
        }
        for p in ["umin", "umax", "smin", "smax"] {
            if st(p) {
                return K::MinMax(match p {
                    "umin" => "umin",
                    "umax" => "umax",
                    "smin" => "smin",
                    _ => "smax",
                });
            }
        }
        if st("abs") {
            return K::Abs;
        }
        if st("ctpop") {
            return K::Ctpop;
        }
        if st("ctlz") {
            return K::Ctlz;
        }
        if st("cttz") {
            return K::Cttz;
        }
        if st("bswap") {
            return K::Bswap;
        }
        if st("bitreverse") {
            return K::Bitrev;
        }
        if st("fshl") {
            return K::Fsh(true);
        }
        if st("fshr") {
            return K::Fsh(false);
        }
        if st("ucmp") {
            return K::Cmp3(false);
        }
        if st("scmp") {
            return K::Cmp3(true);
        }
        if st("trap") || st("ubsantrap") {
            return K::Abort;
        }
        if st("load.relative") {
            return K::LoadRel;
        }
        if st("ptrmask") {
            return K::PtrMask;
        }
        for p in ["add", "or", "and", "xor", "umin", "umax", "smin", "smax", "mul"] {
            if r.strip_prefix("vector.reduce.").map(|q| q.starts_with(p)).unwrap_or(false) {
                return K::Reduce(match p {
                    "add" => "add",
                    "or" => "or",
                    "and" => "and",
                    "xor" => "xor",
                    "mul" => "mul",
                    "umin" => "umin",
                    "umax" => "umax",
                    "smin" => "smin",
                    _ => "smax",
                });
            }
        }
        if st("fptoui.sat") {
            return K::FpSat(false);
        }
        if st("fptosi.sat") {
            return K::FpSat(true);
        }
        if st("fabs") {
            return K::FUn(FU::Abs);
        }
        if st("floor") {
            return K::FUn(FU::Floor);
        }
        if st("ceil") {
            return K::FUn(FU::Ceil);
        }
        if st("trunc") {
            return K::FUn(FU::RoundTrunc);
        }
        if st("sqrt") {
            return K::FUn(FU::Sqrt);
        }
        if st("minnum") || st("minimumnum") {
            return K::FBin(FB::Min);
        }
        if st("maxnum") || st("maximumnum") {
            return K::FBin(FB::Max);
        }
        if st("fmuladd") {
            return K::Fma;
        }
        if st("copysign") {
            return K::CopySign;
        }
        return K::Unsupported;
    }
    match n {
        "malloc" => K::Malloc,
        "aligned_alloc" | "memalign" => K::MallocAligned,
        "calloc" => K::Calloc,
        "realloc" => K::Realloc,
        "free" => K::Free,
        "posix_memalign" => K::PosixMemalign,
        "memcpy" | "memmove" => K::Memcpy,
        "memset" => K::Memset,
        "memcmp" => K::Memcmp(false),
        "bcmp" => K::Memcmp(true),
        "strlen" => K::Strlen,
        "abort" | "_exit" | "exit" => K::Abort,
        "getrandom" => K::GetRandom,
        "clock_gettime" => K::ClockGettime,
        "write" | "writev" => K::Write,
        "__cxa_thread_atexit_impl" | "pthread_setspecific"
        | "pthread_key_delete" | "getenv" | "pthread_getspecific" | "pthread_mutex_lock"
        | "pthread_mutex_unlock" | "pthread_mutex_init" | "pthread_mutex_destroy"
        | "pthread_mutexattr_init" | "pthread_mutexattr_settype" | "pthread_mutexattr_destroy"
        | "pthread_atfork" | "pthread_detach" | "pthread_attr_init" | "pthread_attr_destroy" | "pthread_attr_setstacksize"
        | "pthread_setname_np" | "prctl" | "dlsym" | "sigaltstack" => K::Ret(0),
        "sysconf" => K::Ret(4096),
        "getpid" => K::Ret(1),
        "gettid" | "pthread_self" => K::PthreadSelf,
        "__errno_location" => K::Errno,
        // there are no files
        "open" | "open64" | "openat" | "openat64" | "stat64" | "lstat64" | "fstatat64" | "statvfs64" | "readlink"
        | "access" | "sched_getaffinity" | "uname" | "sysinfo" => K::NoFile,
        "opendir" | "realpath" => K::Ret(0),
        "pthread_key_create" => K::KeyCreate,
        "pthread_create" => K::PthreadCreate,
        "pthread_join" => K::PthreadJoin,
        "syscall" => K::Syscall,
        "sched_yield" => K::Yield,
        "nanosleep" => K::Nanosleep(0),
        "clock_nanosleep" => K::Nanosleep(2),
        "fmod" => K::FBin(FB::Rem),
        _ => K::Unsupported,
    }
}

fn fsh(left: bool, x: E, y: E, s: E) -> E {
    let w = width(x);
    let s = bin(B::URem, s, konst(w as u128, w));
    let full = cat(x, y);
    let sw = zext(s, 2 * w);
    if let Some(c) = cval(s) {
        let c = c as u32;
        if c == 0 {
            if left { x } else { y }
        } else if left {
            extract(full, w - c, w)
        } else {
            extract(full, c, w)
        }
    } else if left {
        extract(bin(B::Shl, full, sw), w, w)
    } else {
        extract(bin(B::LShr, full, sw), 0, w)
    }
}

fn or_v(a: E, b: E) -> E {
    bin(B::Or, a, b)
}

pub fn overflow(op: B, signed: bool, a: E, b: E) -> (E, E) {
    let w = width(a);
    let r = bin(op, a, b);
    let ov = match (op, signed) {
        (B::Add, false) => cmp(P::Ult, r, a),
        (B::Sub, false) => cmp(P::Ult, a, b),
        (B::Mul, false) => {
            let full = bin(B::Mul, zext(a, 2 * w), zext(b, 2 * w));
            not1(cmp(P::Eq, extract(full, w, w), konst(0, w)))
        }
        (B::Mul, true) => {
            let full = bin(B::Mul, sext(a, 2 * w), sext(b, 2 * w));
            not1(cmp(P::Eq, full, sext(r, 2 * w)))
        }
        (B::Add, true) => {
            // operands agree in sign and the result does not
            let x = bin(B::And, bin(B::Xor, a, r), bin(B::Xor, b, r));
            extract(x, w - 1, 1)
        }
        _ => {
            let x = bin(B::And, bin(B::Xor, a, b), bin(B::Xor, a, r));
            extract(x, w - 1, 1)
        }
    };
    (r, ov)
}

fn popcount(e: E, w: u32) -> E {
    let mut acc = konst(0, w);
    for k in 0..w {
        acc = bin(B::Add, acc, zext(extract(e, k, 1), w));
    }
    acc
}
fn ctlz(e: E, w: u32) -> E {
    let mut r = konst(w as u128, w);
    for k in 0..w {
        r = ite(cmp(P::Eq, extract(e, k, 1), E::C(1, 1)), konst((w - 1 - k) as u128, w), r);
    }
    r
}
fn cttz(e: E, w: u32) -> E {
    let mut r = konst(w as u128, w);
    for k in (0..w).rev() {
        r = ite(cmp(P::Eq, extract(e, k, 1), E::C(1, 1)), konst(k as u128, w), r);
    }
    r
}
fn minmax(p: &str, a: E, b: E) -> E {
    match p {
        "umin" => ite(cmp(P::Ult, a, b), a, b),
        "umax" => ite(cmp(P::Ult, a, b), b, a),
        "smin" => ite(cmp(P::Slt, a, b), a, b),
        _ => ite(cmp(P::Slt, a, b), b, a),
    }
}

impl Exec {
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 || d == s {
            return Ok(());
        }
        let (o, off) = self.obj(st, s, n)?;
        let o = o.clone();
        let n = n as usize;
        let symbolic = o.symbolic(off, n);
        let (t, toff) = self.obj_mut(st, d, n as u64)?;
        t.b[toff..toff + n].copy_from_slice(&o.b[off..off + n]);
        if symbolic {
            if t.s.is_empty() {
                t.s = vec![0; t.b.len()];
            }
            t.s[toff..toff + n].copy_from_slice(&o.s[off..off + n]);
        } else if !t.s.is_empty() {
            t.s[toff..toff + n].fill(0);
        }
        Ok(())
    }

    fn str_at(&mut self, st: &mut State, a: E, n: E) -> Option<String> {
        let (a, n) = (cval(a)? as u64, cval(n)? as u64);
        if n > 400 {
            return None;
        }
        let b = self.read_bytes(st, a, n).ok()?;
        let v: Option<Vec<u8>> = b.iter().map(|e| cval(*e).map(|x| x as u8)).collect();
        let s = String::from_utf8(v?).ok()?;
        if s.chars().all(|c| !c.is_control()) {
            Some(s)
        } else {
            None
        }
    }

    fn panic_msg(&mut self, st: &mut State, f: u32, args: &[V]) -> String {
        let mut msg = short(&self.m.funcs[f as usize].name);
        let sc: Vec<E> = args.iter().filter_map(|v| if let V::I(e) = v { Some(*e) } else { None }).collect();
        if sc.len() >= 2 {
            if let Some(s) = self.str_at(st, sc[0], sc[1]) {
                if !s.is_empty() {
                    msg = s;
                }
            }
        }
        // core::fmt::Arguments: the first literal piece
        if let (Some(a), true) = (sc.first().and_then(|e| cval(*e)), msg.contains("panic_fmt")) {
            let w = |x: &mut Self, st: &mut State, a: u64| -> Option<u64> {
                cval(x.load_at(st, &Ty::Ptr, a).ok()?.e()).map(|v| v as u64)
            };
            if let Some(p) = w(self, st, a as u64) {
                if let (Some(x), Some(y)) = (w(self, st, p), w(self, st, p + 8)) {
                    if let Some(s) = self.str_at(st, E::C(x, 64), E::C(y, 64)) {
                        msg = s;
                    }
                }
            }
        }
        // Location: pointer, length, line, column
        for e in sc.iter().rev() {
            let Some(a) = cval(*e) else { continue };
            let a = a as u64;
            if a >> 32 == 0 || a >> 32 > self.m.globals.len() as u64 {
                continue;
            }
            let Ok(p) = self.load_at(st, &Ty::Ptr, a) else { continue };
            let Ok(n) = self.load_at(st, &Ty::Ptr, a + 8) else { continue };
            let Ok(l) = self.load_at(st, &Ty::Int(32), a + 16) else { continue };
            if let Some(s) = self.str_at(st, p.e(), n.e()) {
                if s.ends_with(".rs") {
                    return format!("{msg} at {}:{}", s, cval(l.e()).unwrap_or(0));
                }
            }
        }
        format!("{msg} in {}", self.where_(st))
    }

    fn timespec(&mut self, st: &mut State, p: u64) -> R<E> {
        let s = self.load_at(st, &Ty::Int(64), p)?.e();
        let n = self.load_at(st, &Ty::Int(64), p + 8)?.e();
        Ok(bin(B::Add, bin(B::Mul, s, konst(1_000_000_000, 64)), n))
    }
    pub fn intrinsic(
        &mut self,
        st: &mut State,
        k: K,
        f: u32,
        args: Vec<V>,
        ret: &Ty,
        dst: Option<u32>,
        normal: Option<u32>,
    ) -> R<()> {
        let a = |i: usize| args[i].e();
        let v: Option<V> = match k {
            K::Def => unreachable!(),
            K::Nop => Some(zero_of(ret)),
            K::Ret(x) => Some(match ret {
                Ty::Void => zero_of(ret),
                t => V::I(konst(x as u128, t.bits())),
            }),
            K::Arg(i) => Some(args[i].clone()),
            K::Memcpy => {
                let n = self.conc64(st, a(2))?;
                if n > 0 {
                    let d = self.conc64(st, a(0))?;
                    if n <= 16 && cval(a(1)).is_none() && !st.known.contains_key(&a(1)) {
                        // a table entry of symbolic index
                        let ty = Ty::Int(8 * n as u32);
                        let v = self.load(st, &ty, a(1))?;
                        self.store_at(st, &ty, d, &v)?;
                    } else {
                        let s = self.conc64(st, a(1))?;
                        self.copy(st, d, s, n)?;
                    }
                }
                Some(args[0].clone())
            }
            K::Compress(h) => {
                let n = self.conc64(st, a(2))?;
                let (s, mut p) = (self.conc64(st, a(0))?, self.conc64(st, a(1))?);
                let ty = Ty::Int(h.word());
                let wb = h.word() as u64 / 8;
                for _ in 0..n {
                    let mut args = vec![];
                    for i in 0..8 {
                        args.push(self.load_at(st, &ty, s + i * wb)?.e());
                    }
                    args.extend(self.read_bytes(st, p, h.block() as u64)?);
                    for (i, e) in compress(h, &args).into_iter().enumerate() {
                        self.store_at(st, &ty, s + i as u64 * wb, &V::I(e))?;
                    }
                    p += h.block() as u64;
                }
                None
            }
            K::Memset => {
                let n = self.conc64(st, a(2))?;
                if n > 0 {
                    let d = self.conc64(st, a(0))?;
                    let c = extract(a(1), 0, 8);
                    let (o, off) = self.obj_mut(st, d, n)?;
                    for i in 0..n as usize {
                        o.put(off + i, c);
                    }
                }
                Some(args[0].clone())
            }
            K::Memcmp(eq) => {
                let n = self.conc64(st, a(2))?;
                if n == 0 {
                    Some(V::I(konst(0, 32)))
                } else {
                    let x = self.conc64(st, a(0))?;
                    let y = self.conc64(st, a(1))?;
                    let x = self.read_bytes(st, x, n)?;
                    let y = self.read_bytes(st, y, n)?;
                    if eq {
                        let mut all = E::C(1, 1);
                        for (p, q) in x.iter().zip(&y) {
                            all = bin(B::And, all, cmp(P::Eq, *p, *q));
                        }
                        Some(V::I(ite(all, konst(0, 32), konst(1, 32))))
                    } else {
                        let mut r = konst(0, 32);
                        for (p, q) in x.iter().zip(&y).rev() {
                            let lt = ite(cmp(P::Ult, *p, *q), konst(u32::MAX as u128, 32), konst(1, 32));
                            r = ite(cmp(P::Eq, *p, *q), r, lt);
                        }
                        Some(V::I(r))
                    }
                }
            }
            K::Strlen => {
                let p = self.conc64(st, a(0))?;
                let mut n = 0u64;
                loop {
                    let b = self.read_bytes(st, p + n, 1)?[0];
                    if self.decide(st, cmp(P::Eq, b, E::C(0, 8)))? {
                        break;
                    }
                    n += 1;
                }
                Some(V::I(E::C(n, 64)))
            }
            K::Malloc => {
                let n = self.conc64(st, a(0))?;
                Some(V::I(E::C(self.malloc(st, n)?, 64)))
            }
            K::MallocAligned => {
                let n = self.conc64(st, a(1))?;
                Some(V::I(E::C(self.malloc(st, n)?, 64)))
            }
            K::RustZeroed => {
                let n = self.conc64(st, a(0))?;
                Some(V::I(E::C(self.malloc(st, n)?, 64)))
            }
            K::Calloc => {
                let n = self.conc64(st, a(0))?;
                let m = self.conc64(st, a(1))?;
                Some(V::I(E::C(self.malloc(st, n * m)?, 64)))
            }
            K::PosixMemalign => {
                let p = self.conc64(st, a(0))?;
                let n = self.conc64(st, a(2))?;
                let x = self.malloc(st, n)?;
                self.store_at(st, &Ty::Ptr, p, &V::I(E::C(x, 64)))?;
                Some(V::I(konst(0, 32)))
            }
            K::Realloc | K::RustRealloc => {
                let p = self.conc64(st, a(0))?;
                let n = self.conc64(st, if matches!(k, K::Realloc) { a(1) } else { a(3) })?;
                let x = self.malloc(st, n)?;
                if p != 0 {
                    let old = self.obj(st, p, 0)?.0.b.len() as u64;
                    self.copy(st, x, p, old.min(n))?;
                    self.free(st, p)?;
                }
                Some(V::I(E::C(x, 64)))
            }
            K::Free => {
                let p = self.conc64(st, a(0))?;
                self.free(st, p)?;
                Some(zero_of(ret))
            }
            K::Panic => {
                let m = self.panic_msg(st, f, &args);
                return self.panic_(st, m);
            }
            K::Abort => {
                let w = self.where_(st);
                return Err(Stop::End(End::Abort(format!("abort in {w}"))));
            }
            K::Ov(op, s) => {
                let (r, o) = overflow(op, s, a(0), a(1));
                Some(V::A(Rc::new(vec![V::I(r), V::I(o)])))
            }
            K::Sat(op, s) => Some(lift2(&args[0], &args[1], |x, y| {
                let w = width(x);
                let (r, o) = overflow(op, s, x, y);
                let lim = if !s {
                    konst(if op == B::Add { u128::MAX } else { 0 }, w)
                } else {
                    ite(
                        extract(x, w - 1, 1),
                        konst(1u128 << (w - 1), w),
                        konst((1u128 << (w - 1)) - 1, w),
                    )
                };
                ite(o, lim, r)
            })),
            K::MinMax(p) => Some(lift2(&args[0], &args[1], |x, y| minmax(p, x, y))),
            K::Abs => Some(lift1(&args[0], |x| {
                let w = width(x);
                ite(extract(x, w - 1, 1), bin(B::Sub, konst(0, w), x), x)
            })),
            K::Ctpop => Some(lift1(&args[0], |x| popcount(x, width(x)))),
            K::Ctlz => Some(lift1(&args[0], |x| ctlz(x, width(x)))),
            K::Cttz => Some(lift1(&args[0], |x| cttz(x, width(x)))),
            K::Bswap => Some(lift1(&args[0], |x| {
                let n = width(x) / 8;
                let mut r = extract(x, 0, 8);
                for i in 1..n {
                    r = cat(r, extract(x, 8 * i, 8));
                }
                r
            })),
            K::Bitrev => Some(lift1(&args[0], |x| {
                let n = width(x);
                let mut r = extract(x, 0, 1);
                for i in 1..n {
                    r = cat(r, extract(x, i, 1));
                }
                r
            })),
            K::Fsh(left) => {
                if let V::A(x) = &args[0] {
                    let n = x.len();
                    let at = |k: usize, i: usize| match &args[k] {
                        V::A(x) => x[i].e(),
                        V::I(e) => *e,
                    };
                    let r = (0..n).map(|i| V::I(fsh(left, at(0, i), at(1, i), at(2, i))));
                    Some(V::A(Rc::new(r.collect())))
                } else {
                    Some(V::I(fsh(left, a(0), a(1), a(2))))
                }
            }
            K::Cmp3(s) => {
                let w = ret.bits();
                let lt = cmp(if s { P::Slt } else { P::Ult }, a(0), a(1));
                let eq = cmp(P::Eq, a(0), a(1));
                Some(V::I(ite(lt, konst(u128::MAX, w), ite(eq, konst(0, w), konst(1, w)))))
            }
            K::Assume => Some(zero_of(ret)),
            K::LoadRel => {
                let p = a(0);
                let o = a(1);
                let o = if width(o) < 64 { sext(o, 64) } else { o };
                let r = self.load(st, &Ty::Int(32), bin(B::Add, p, o))?.e();
                Some(V::I(bin(B::Add, p, sext(r, 64))))
            }
            K::ObjSize => Some(V::I(konst(u128::MAX, ret.bits()))),
            K::PtrMask => Some(V::I(bin(B::And, a(0), a(1)))),
            K::Reduce(p) => {
                let V::A(x) = &args[0] else { return bail("vector.reduce") };
                let mut r = x[0].e();
                for y in &x[1..] {
                    let y = y.e();
                    r = match p {
                        "add" => bin(B::Add, r, y),
                        "mul" => bin(B::Mul, r, y),
                        "or" => or_v(r, y),
                        "and" => bin(B::And, r, y),
                        "xor" => bin(B::Xor, r, y),
                        _ => minmax(p, r, y),
                    };
                }
                Some(V::I(r))
            }
            K::FpSat(s) => {
                let w = ret.bits();
                Some(V::I(ftoi(s, a(0), w)))
            }
            K::FUn(op) => Some(lift1(&args[0], |x| fun(op, x, width(x)))),
            K::FBin(op) => Some(lift2(&args[0], &args[1], |x, y| fbin(op, x, y))),
            K::Fma => {
                let m = fbin(FB::Mul, a(0), a(1));
                Some(V::I(fbin(FB::Add, m, a(2))))
            }
            K::CopySign => {
                let (x, y) = (a(0), a(1));
                let w = width(x);
                Some(V::I(cat(extract(y, w - 1, 1), extract(x, 0, w - 1))))
            }
            K::GetRandom => {
                let p = self.conc64(st, a(0))?;
                let n = self.conc64(st, a(1))?;
                for i in 0..n {
                    st.rnd = st.rnd.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    let b = (st.rnd >> 33) & 0xff;
                    self.store_at(st, &Ty::Int(8), p + i, &V::I(E::C(b, 8)))?;
                }
                Some(V::I(konst(n as u128, ret.bits())))
            }
            K::RandomKeys => Some(V::A(Rc::new(vec![
                V::I(E::C(0x0123_4567_89ab_cdef, 64)),
                V::I(E::C(0xfedc_ba98_7654_3210, 64)),
            ]))),
            K::ClockGettime => {
                let p = self.conc64(st, a(1))?;
                let ns = st.clock;
                let g = konst(1_000_000_000, 64);
                self.store_at(st, &Ty::Int(64), p, &V::I(bin(B::UDiv, ns, g)))?;
                self.store_at(st, &Ty::Int(64), p + 8, &V::I(bin(B::URem, ns, g)))?;
                Some(V::I(konst(0, 32)))
            }
            K::Write => {
                // the output is dropped; everything is reported as written
                if self.m.funcs[f as usize].name == "write" {
                    Some(V::I(a(2)))
                } else {
                    let p = self.conc64(st, a(1))?;
                    let n = self.conc64(st, a(2))?;
                    let mut t = konst(0, 64);
                    for i in 0..n {
                        let l = self.load_at(st, &Ty::Int(64), p + 16 * i + 8)?.e();
                        t = bin(B::Add, t, l);
                    }
                    Some(V::I(t))
                }
            }
            K::Tls => {
                let p = self.conc64(st, a(0))?;
                Some(V::I(E::C(self.tls_addr(st, p)?, 64)))
            }
            K::Errno => Some(V::I(E::C(self.errno(st)?, 64))),
            K::NoFile => {
                let e = self.errno(st)?;
                self.store_at(st, &Ty::Int(32), e, &V::I(E::C(2, 32)))?;
                Some(V::I(konst((1u128 << ret.bits()) - 1, ret.bits())))
            }
            K::KeyCreate => {
                let p = self.conc64(st, a(0))?;
                st.keys += 1;
                self.store_at(st, &Ty::Int(32), p, &V::I(E::C(st.keys as u64, 32)))?;
                Some(V::I(konst(0, 32)))
            }
            K::PthreadSelf => Some(V::I(konst(st.cur as u128 + 1, ret.bits()))),
            K::PthreadCreate => {
                let h = self.conc64(st, a(0))?;
                let p = self.conc64(st, a(2))?;
                let k = ((p & 0xffff_ffff) - OFF) / 16;
                let t = self.spawn(st, k as u32, args[3].clone());
                self.store_at(st, &Ty::Int(64), h, &V::I(E::C(t as u64 + 1, 64)))?;
                Some(V::I(konst(0, 32)))
            }
            K::PthreadJoin => {
                let t = self.conc64(st, a(0))?;
                self.block(st, Wait::Join(t as usize - 1), dst, normal, 32);
                return Ok(());
            }
            K::Yield => {
                // it stays able to run, after the others
                Self::finish_call(st, dst, normal, Some(V::I(konst(0, 32))));
                st.resched = true;
                return Ok(());
            }
            K::Nanosleep(i) => {
                let p = self.conc64(st, a(i))?;
                let d = self.timespec(st, p)?;
                let d = if i == 0 { bin(B::Add, d, st.clock) } else { d };
                self.block(st, Wait::Sleep(d), dst, normal, 32);
                return Ok(());
            }
            K::Syscall => {
                let nr = self.conc64(st, a(0))?;
                match nr {
                    // futex
                    202 => {
                        let addr = self.conc64(st, a(1))?;
                        let op = self.conc64(st, extract(a(2), 0, 32))? & 0x7f;
                        match op {
                            0 | 9 => {
                                let v = self.load_at(st, &Ty::Int(32), addr)?.e();
                                let same = cmp(P::Eq, v, extract(a(3), 0, 32));
                                if self.decide(st, same)? {
                                    let tp = self.conc64(st, a(4))?;
                                    let d = if tp == 0 { None } else { Some(self.timespec(st, tp)?) };
                                    self.block(st, Wait::Futex(addr, d), dst, normal, 64);
                                    return Ok(());
                                }
                                let e = self.errno(st)?;
                                self.store_at(st, &Ty::Int(32), e, &V::I(E::C(11, 32)))?;
                                Some(V::I(E::C(u64::MAX, 64)))
                            }
                            1 => {
                                let n = self.conc64(st, extract(a(3), 0, 31))?;
                                let k = self.wake(st, addr, n);
                                Some(V::I(E::C(k, 64)))
                            }
                            _ => return bail(format!("futex operation {op}")),
                        }
                    }
                    318 => {
                        let p = self.conc64(st, a(1))?;
                        let n = self.conc64(st, a(2))?;
                        for i in 0..n {
                            st.rnd = st.rnd.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                            let b = (st.rnd >> 33) & 0xff;
                            self.store_at(st, &Ty::Int(8), p + i, &V::I(E::C(b, 8)))?;
                        }
                        Some(V::I(E::C(n, 64)))
                    }
                    186 => Some(V::I(E::C(st.cur as u64 + 1, 64))),
                    _ => return bail(format!("system call {nr} in {}", self.where_(st))),
                }
            }
            K::Sx(name) => match name {
                "ringrtc_verif_lock" => {
                    if st.explore > 0 {
                        st.stay = st.explore != u32::MAX;
                        st.resched = true;
                    }
                    None
                }
                "sx_idle" => {
                    self.block(st, Wait::Idle, dst, normal, 0);
                    return Ok(());
                }
                "sx_explore" => {
                    st.explore = cval(a(0)).unwrap_or(1) as u32;
                    Some(zero_of(ret))
                }
                "sx_u8" => Some(V::I(self.new_sym(st, 8))),
                "sx_u16" => Some(V::I(self.new_sym(st, 16))),
                "sx_u32" => Some(V::I(self.new_sym(st, 32))),
                "sx_u64" => Some(V::I(self.new_sym(st, 64))),
                "sx_bool" => {
                    // one input, nonzero = true
                    let s = self.new_sym(st, 1);
                    Some(V::I(if ret.bits() == 1 { s } else { zext(s, ret.bits()) }))
                }
                "sx_range" => {
                    // inclusive range of u64
                    let (lo, hi) = (a(0), a(1));
                    let (Some(l), Some(h)) = (cval(lo), cval(hi)) else {
                        return bail("sx_range needs constants");
                    };
                    if h == l {
                        // still an input, so that the replay reads the same list
                        st.inputs.push((u32::MAX, 64));
                        let _ = h;
                        return bail("sx_range of one value");
                    }
                    let mut w = 1;
                    while mask(w) < h - l {
                        w += 1;
                    }
                    let s = self.new_sym(st, w);
                    if mask(w) != h - l {
                        let c = cmp(P::Ule, s, konst(h - l, w));
                        self.assume_(st, c)?;
                    }
                    Some(V::I(bin(B::Add, zext(s, 64), konst(l, 64))))
                }
                "sx_fill" => {
                    let p = self.conc64(st, a(0))?;
                    let n = self.conc64(st, a(1))?;
                    for i in 0..n {
                        let s = self.new_sym(st, 8);
                        self.store_at(st, &Ty::Int(8), p + i, &V::I(s))?;
                    }
                    Some(zero_of(ret))
                }
                "sx_assume" => {
                    let c = extract(a(0), 0, 1);
                    self.assume_(st, c)?;
                    Some(zero_of(ret))
                }
                "sx_assert" => {
                    let c = extract(a(0), 0, 1);
                    let id = self.conc64(st, a(1))? as u32;
                    self.assert_(st, c, id)?;
                    Some(zero_of(ret))
                }
                "sx_fail" => {
                    let id = cval(a(0)).unwrap_or(0) as u32;
                    self.assert_(st, E::C(0, 1), id)?;
                    Some(zero_of(ret))
                }
                "sx_cover" => {
                    let id = self.conc64(st, a(0))? as u32;
                    st.covers.insert(id);
                    Some(zero_of(ret))
                }
                "sx_observe" => {
                    st.obs.push(a(0));
                    Some(zero_of(ret))
                }
                "sx_panics_ok" => {
                    st.panics_ok = cval(a(0)).unwrap_or(1) & 1 == 1;
                    Some(zero_of(ret))
                }
                "sx_conc" => {
                    let v = self.conc(st, a(0))?;
                    Some(V::I(konst(v, width(a(0)))))
                }
                "sx_symbolic" => Some(V::I(konst(1, ret.bits()))),
                "sx_clock" => {
                    st.clock = a(0);
                    Some(zero_of(ret))
                }
                "sx_try" => {
                    // fn(f: extern "C" fn(*mut u8), data: *mut u8) -> bool
                    let p = self.conc64(st, a(0))?;
                    let k = ((p & 0xffff_ffff) - OFF) / 16;
                    self.push_frame(st, k as u32, vec![args[1].clone()], dst, normal);
                    let n = st.frames.len() - 1;
                    Rc::make_mut(&mut st.frames[n]).catch = true;
                    return Ok(());
                }
                _ => return bail(format!("harness call {name}")),
            },
            K::Unsupported => {
                return bail(format!("call of {} in {}", self.m.funcs[f as usize].name, self.where_(st)))
            }
        };
        Self::finish_call(st, dst, normal, v);
        Ok(())
    }
}
