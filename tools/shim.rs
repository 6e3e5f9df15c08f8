//! Runs one harness natively with recorded inputs. Generated from /verif/tools/shim.rs.
extern crate hx;
use std::sync::Mutex;

unsafe extern "C" {
/*DECL*/
}

static IN: Mutex<(Vec<u128>, usize)> = Mutex::new((Vec::new(), 0));
static OK: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static IN_TRY: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);

static CLOCK: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1_000_000_000_000);

fn next() -> u128 {
    let mut g = IN.lock().unwrap();
    let i = g.1;
    g.1 += 1;
    g.0.get(i).copied().unwrap_or(0)
}

fn finish(what: &str, code: i32) -> ! {
    println!("{what}");
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}

#[unsafe(no_mangle)]
extern "C" fn sx_u8() -> u8 {
    next() as u8
}
#[unsafe(no_mangle)]
extern "C" fn sx_u16() -> u16 {
    next() as u16
}
#[unsafe(no_mangle)]
extern "C" fn sx_u32() -> u32 {
    next() as u32
}
#[unsafe(no_mangle)]
extern "C" fn sx_u64() -> u64 {
    next() as u64
}
#[unsafe(no_mangle)]
extern "C" fn sx_bool() -> bool {
    next() & 1 == 1
}
#[unsafe(no_mangle)]
extern "C" fn sx_range(lo: u64, hi: u64) -> u64 {
    let v = next() as u64 + lo;
    if v > hi {
        finish("ASSUME-FAILED range", 4)
    }
    v
}
#[unsafe(no_mangle)]
extern "C" fn sx_fill(p: *mut u8, n: usize) {
    for i in 0..n {
        unsafe { *p.add(i) = next() as u8 }
    }
}
#[unsafe(no_mangle)]
extern "C" fn sx_assume(c: bool) {
    if !c {
        finish("ASSUME-FAILED", 4)
    }
}
#[unsafe(no_mangle)]
extern "C" fn sx_assert(c: bool, id: u32) {
    if !c {
        finish(&format!("ASSERT-FAILED {id}"), 5)
    }
}
#[unsafe(no_mangle)]
extern "C" fn sx_cover(id: u32) {
    println!("COVER {id}");
}
#[unsafe(no_mangle)]
extern "C" fn sx_observe(v: u64) {
    println!("OBS {v}");
}
#[unsafe(no_mangle)]
extern "C" fn sx_panics_ok(on: bool) {
    OK.store(on, std::sync::atomic::Ordering::SeqCst);
}
#[unsafe(no_mangle)]
extern "C" fn sx_conc(v: u64) -> u64 {
    v
}
#[unsafe(no_mangle)]
extern "C" fn sx_clock(ns: u64) {
    CLOCK.store(ns, std::sync::atomic::Ordering::SeqCst);
}
/// What std reads the time with, in place of the C library's.
#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
#[unsafe(no_mangle)]
extern "C" fn clock_gettime(_clock: i32, ts: *mut Timespec) -> i32 {
    let ns = CLOCK.load(std::sync::atomic::Ordering::SeqCst);
    unsafe {
        (*ts).sec = (ns / 1_000_000_000) as i64;
        (*ts).nsec = (ns % 1_000_000_000) as i64;
    }
    0
}
/// Threads take turns, as under the executor: one runs until it waits for something, and the
/// next one is chosen by the recorded inputs. What std builds on comes here.
mod threads {
    use super::{CLOCK, Timespec, finish, next};
    use std::arch::asm;
    use std::ffi::{c_char, c_void};
    use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

    #[derive(Clone, Copy, PartialEq, Debug)]
    enum Wait {
        Ready,
        Woken,
        Futex(usize, Option<u64>),
        Sleep(u64),
        Join(usize),
        Idle,
        Done,
    }
    struct Thread {
        wait: Wait,
        go: *const AtomicU32,
    }
    struct Sched {
        threads: Vec<Thread>,
        cur: usize,
        explore: u32,
        stay: bool,
        waiters: Vec<usize>,
    }
    static mut SCHED: Option<Sched> = None;

    /// Only the thread whose turn it is comes here.
    #[allow(static_mut_refs)]
    fn sched() -> &'static mut Sched {
        unsafe {
            SCHED.get_or_insert_with(|| Sched {
                threads: vec![Thread { wait: Wait::Ready, go: Box::leak(Box::new(AtomicU32::new(0))) }],
                cur: 0,
                explore: 0,
                stay: false,
                waiters: vec![],
            })
        }
    }

    unsafe extern "C" {
        fn __errno_location() -> *mut i32;
        fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
    }

    unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
        let r;
        unsafe {
            asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
                in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
        }
        r
    }
    fn sleep(go: &AtomicU32) {
        while go.load(SeqCst) == 0 {
            unsafe { raw(202, go as *const _ as i64, 128, 0, 0, 0, 0) };
        }
        go.store(0, SeqCst);
    }
    fn rouse(go: *const AtomicU32) {
        unsafe {
            (*go).store(1, SeqCst);
            raw(202, go as i64, 129, 1, 0, 0, 0);
        }
    }

    /// Gives the turn away; returns how the wait ended when it comes back.
    fn block(w: Wait) -> Wait {
        let s = sched();
        let me = s.cur;
        if let Wait::Futex(..) = w {
            s.waiters.push(me);
        }
        s.threads[me].wait = w;
        let to = loop {
            let now = CLOCK.load(SeqCst);
            let n = s.threads.len();
            let ready = |t: &Thread| match t.wait {
                Wait::Ready | Wait::Woken => true,
                Wait::Futex(_, Some(d)) | Wait::Sleep(d) => d <= now,
                Wait::Join(x) => s.threads[x].wait == Wait::Done,
                _ => false,
            };
            let mut can: Vec<usize> = (0..n).filter(|t| ready(&s.threads[*t])).collect();
            if can.is_empty() {
                can.extend((0..n).find(|t| s.threads[*t].wait == Wait::Idle));
            }
            if can.is_empty() {
                let first = s.threads.iter().filter_map(|t| match t.wait {
                    Wait::Futex(_, d) => d,
                    Wait::Sleep(d) => Some(d),
                    _ => None,
                });
                match first.min() {
                    Some(d) => CLOCK.store(d, SeqCst),
                    None => finish("DEADLOCK", 8),
                }
                continue;
            }
            let default = if s.stay {
                me
            } else {
                *can.iter().find(|t| **t > me).unwrap_or(&can[0])
            };
            break if can.len() == 1 {
                can[0]
            } else if s.explore > 0 {
                let k = next() as usize;
                if k >= can.len() {
                    finish("ASSUME-FAILED schedule", 4)
                }
                if can[k] != default && s.explore != u32::MAX {
                    s.explore -= 1;
                }
                can[k]
            } else {
                default
            };
        };
        s.stay = false;
        if to != me {
            let mine = s.threads[me].go;
            s.cur = to;
            rouse(s.threads[to].go);
            if w == Wait::Done {
                loop {
                    // nothing this thread would still do belongs to the run
                    unsafe { raw(34, 0, 0, 0, 0, 0, 0) };
                }
            }
            sleep(unsafe { &*mine });
        }
        let s = sched();
        std::mem::replace(&mut s.threads[me].wait, Wait::Ready)
    }

    #[unsafe(no_mangle)]
    extern "C" fn sx_idle() {
        block(Wait::Idle);
    }
    #[unsafe(no_mangle)]
    extern "C" fn sx_explore(n: u32) {
        sched().explore = n;
    }
    #[unsafe(no_mangle)]
    extern "C" fn ringrtc_verif_lock() {
        let s = sched();
        if s.explore > 0 {
            s.stay = s.explore != u32::MAX;
            block(Wait::Ready);
        }
    }

    struct Start {
        me: usize,
        f: extern "C" fn(*mut c_void) -> *mut c_void,
        arg: *mut c_void,
    }
    extern "C" fn start(p: *mut c_void) -> *mut c_void {
        let s = unsafe { Box::from_raw(p as *mut Start) };
        // go is never moved; the list it is in may be
        let go = unsafe { &*GO[s.me].load(SeqCst) };
        sleep(go);
        (s.f)(s.arg);
        block(Wait::Done);
        std::ptr::null_mut()
    }
    static GO: [std::sync::atomic::AtomicPtr<AtomicU32>; 256] =
        [const { std::sync::atomic::AtomicPtr::new(std::ptr::null_mut()) }; 256];

    type Create = extern "C" fn(*mut u64, *const c_void, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> i32;
    #[unsafe(no_mangle)]
    extern "C" fn pthread_create(
        h: *mut u64,
        attr: *const c_void,
        f: extern "C" fn(*mut c_void) -> *mut c_void,
        arg: *mut c_void,
    ) -> i32 {
        let s = sched();
        let me = s.threads.len();
        let go: *mut AtomicU32 = Box::leak(Box::new(AtomicU32::new(0)));
        GO[me].store(go, SeqCst);
        s.threads.push(Thread { wait: Wait::Ready, go });
        let p = unsafe { dlsym(-1i64 as *mut c_void, c"pthread_create".as_ptr()) };
        let real: Create = unsafe { std::mem::transmute(p) };
        let mut id = 0u64;
        let b = Box::into_raw(Box::new(Start { me, f, arg }));
        let r = real(&mut id, attr, start, b as *mut c_void);
        unsafe { *h = me as u64 + 1 };
        r
    }
    #[unsafe(no_mangle)]
    extern "C" fn pthread_join(h: u64, _: *mut *mut c_void) -> i32 {
        block(Wait::Join(h as usize - 1));
        0
    }
    #[unsafe(no_mangle)]
    extern "C" fn pthread_detach(_: u64) -> i32 {
        0
    }
    #[unsafe(no_mangle)]
    extern "C" fn sched_yield() -> i32 {
        block(Wait::Ready);
        0
    }
    unsafe fn ns(t: *const Timespec) -> u64 {
        unsafe { ((*t).sec as u64).wrapping_mul(1_000_000_000).wrapping_add((*t).nsec as u64) }
    }
    #[unsafe(no_mangle)]
    unsafe extern "C" fn nanosleep(t: *const Timespec, _: *mut Timespec) -> i32 {
        let d = unsafe { ns(t) }.wrapping_add(CLOCK.load(SeqCst));
        block(Wait::Sleep(d));
        0
    }
    #[unsafe(no_mangle)]
    unsafe extern "C" fn clock_nanosleep(_: i32, flags: i32, t: *const Timespec, _: *mut Timespec) -> i32 {
        let d = unsafe { ns(t) };
        let d = if flags == 0 { d.wrapping_add(CLOCK.load(SeqCst)) } else { d };
        block(Wait::Sleep(d));
        0
    }
    #[unsafe(no_mangle)]
    unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
        unsafe {
            if n == 202 {
                match b & 0x7f {
                    0 | 9 => {
                        if (*(a as *const AtomicU32)).load(SeqCst) != c as u32 {
                            *__errno_location() = 11;
                            return -1;
                        }
                        let t = d as *const Timespec;
                        let deadline = if t.is_null() { None } else { Some(ns(t)) };
                        if let Wait::Futex(..) = block(Wait::Futex(a as usize, deadline)) {
                            let s = sched();
                            let me = s.cur;
                            s.waiters.retain(|x| *x != me);
                            *__errno_location() = 110;
                            return -1;
                        }
                        return 0;
                    }
                    1 => {
                        let s = sched();
                        let mut k = 0;
                        let mut i = 0;
                        while i < s.waiters.len() && k < c as u32 as i32 as i64 {
                            let t = s.waiters[i];
                            if matches!(s.threads[t].wait, Wait::Futex(x, _) if x == a as usize) {
                                s.threads[t].wait = Wait::Woken;
                                s.waiters.remove(i);
                                k += 1;
                            } else {
                                i += 1;
                            }
                        }
                        return k;
                    }
                    _ => finish("FUTEX", 9),
                }
            }
            let r = raw(n, a, b, c, d, e, f);
            if (-4095..0).contains(&r) {
                *__errno_location() = -r as i32;
                return -1;
            }
            r
        }
    }
}

#[unsafe(no_mangle)]
extern "C-unwind" fn sx_try(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> bool {
    IN_TRY.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(data)));
    IN_TRY.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
    r.is_err()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[2]).expect("inputs");
    let v = text
        .lines()
        .filter(|l| !l.starts_with('#') && !l.trim().is_empty())
        .map(|l| l.split_whitespace().last().unwrap().parse().expect("input"))
        .collect();
    *IN.lock().unwrap() = (v, 0);
    std::panic::set_hook(Box::new(|i| {
        if IN_TRY.load(std::sync::atomic::Ordering::SeqCst) > 0 {
            return;
        }
        let m = i.payload().downcast_ref::<String>().cloned().or_else(|| {
            i.payload().downcast_ref::<&str>().map(|s| s.to_string())
        });
        println!("# {} at {:?}", m.unwrap_or_default(), i.location());
        if OK.load(std::sync::atomic::Ordering::SeqCst) {
            finish("PANIC-OK", 0)
        }
        finish("PANIC", 6)
    }));
    match a[1].as_str() {
/*ARMS*/
        _ => finish("no such harness", 7),
    }
    finish("DONE", 0)
}
