//! The symbolic executor: states, memory, instructions.
use crate::expr::*;
use crate::intr::{kind_of, K};
use crate::ir::*;
use crate::solver::{Res, Slv};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub struct Model {
    pub v: Vec<u128>,
    memo: RefCell<HashMap<u32, u128, Fx>>,
}
impl Model {
    pub fn new(v: Vec<u128>) -> Rc<Model> {
        Rc::new(Model { v, memo: RefCell::new(HashMap::default()) })
    }
    pub fn eval(&self, e: E) -> u128 {
        eval(e, &self.v, &mut self.memo.borrow_mut())
    }
}

#[derive(Clone)]
pub struct Obj {
    pub b: Vec<u8>,
    pub s: Vec<u32>,
    pub ro: bool,
}
impl Obj {
    pub fn get(&self, i: usize) -> E {
        if self.s.is_empty() || self.s[i] == 0 {
            E::C(self.b[i] as u64, 8)
        } else {
            E::S(self.s[i])
        }
    }
    pub fn put(&mut self, i: usize, e: E) {
        match e {
            E::C(v, _) => {
                self.b[i] = v as u8;
                if !self.s.is_empty() {
                    self.s[i] = 0;
                }
            }
            E::S(n) => {
                if self.s.is_empty() {
                    self.s = vec![0; self.b.len()];
                }
                self.s[i] = n;
            }
        }
    }
    pub fn symbolic(&self, a: usize, n: usize) -> bool {
        !self.s.is_empty() && self.s[a..a + n].iter().any(|x| *x != 0)
    }
}

#[derive(Clone)]
pub enum Slot {
    Unloaded,
    Dead,
    Live(Rc<Obj>),
}

const CH: usize = 64;

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub body: Rc<Body>,
    pub blk: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub stk: usize,
    pub dst: Option<u32>,
    pub normal: Option<u32>,
    /// set by sx_try: a panic below this frame returns here
    pub catch: bool,
}

/// What a thread that is not running is waiting for.
#[derive(Clone, PartialEq, Debug)]
pub enum Wait {
    /// nothing: it can run
    Ready,
    /// woken from a wait that takes this result
    Woken,
    Futex(u64, Option<E>),
    Sleep(E),
    Join(usize),
    /// until nothing else can run
    Idle,
    Done,
}

#[derive(Clone)]
pub struct Thread {
    pub frames: Vec<Rc<Frame>>,
    pub stack: Vec<Rc<Obj>>,
    pub wait: Wait,
    /// where the result of the call it waits in goes
    pub dst: Option<u32>,
    pub normal: Option<u32>,
    pub bits: u32,
}

#[derive(Clone)]
pub struct State {
    /// every thread but the running one is complete here
    pub threads: Vec<Rc<Thread>>,
    pub cur: usize,
    pub resched: bool,
    pub keys: u32,
    /// How often the schedule may still differ from the default; MAX: always.
    pub explore: u32,
    /// The thread that runs now would go on by default.
    pub stay: bool,
    pub choice: Option<E>,
    pub waiters: Vec<usize>,
    pub tls: BTreeMap<(usize, u64), u64>,
    pub frames: Vec<Rc<Frame>>,
    pub heap: Vec<Rc<Vec<Slot>>>,
    pub nheap: usize,
    pub stack: Vec<Rc<Obj>>,
    pub pc: Vec<E>,
    pub facts: HashMap<E, bool, Fx>,
    pub known: HashMap<E, u128, Fx>,
    pub model: Rc<Model>,
    pub inputs: Vec<(u32, u32)>,
    pub obs: Vec<E>,
    pub covers: BTreeSet<u32>,
    pub steps: u64,
    pub depth: u32,
    pub panics_ok: bool,
    pub clock: E,
    pub rnd: u64,
}

#[derive(Debug, Clone)]
pub enum End {
    Done,
    Panic(String),
    Assume,
    Abort(String),
    Mem(String),
    Deadlock(String),
    Steps,
}
pub enum Stop {
    End(End),
    Err(String),
}
pub type R<T> = Result<T, Stop>;

pub fn bail<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Err(s.into()))
}

pub struct Violation {
    pub kind: String,
    pub id: u32,
    pub msg: String,
    pub inputs: Vec<(u32, u128)>,
    pub trace: Vec<String>,
}

pub struct Sample {
    pub inputs: Vec<(u32, u128)>,
    pub obs: Vec<u128>,
    pub end: String,
}

#[derive(Default)]
pub struct Stats {
    pub paths: BTreeMap<String, u64>,
    pub forks: u64,
    pub steps: u64,
    pub max_depth: u32,
    pub model_hits: u64,
    pub asserts: BTreeMap<u32, u64>,
    pub assert_solver: u64,
    pub covers: BTreeSet<u32>,
    pub panics_ok: BTreeMap<String, u64>,
}

pub struct Limits {
    pub steps: u64,
    pub paths: u64,
    pub secs: u64,
    pub samples: usize,
}

pub struct Exec {
    pub m: Module,
    pub kinds: Vec<K>,
    pub slv: Slv,
    pub work: Vec<State>,
    pub models: Vec<Rc<Model>>,
    pub symids: HashMap<(u32, u32), u32>,
    pub used: Vec<bool>,
    pub st: Stats,
    pub lim: Limits,
    pub violations: Vec<Violation>,
    pub vseen: BTreeSet<(String, u32)>,
    pub samples: Vec<Sample>,
    pub stop_first: bool,
    pub trace: bool,
    pub fork_log: bool,
    pub forks: std::collections::BTreeMap<String, u64>,
    pub prof: HashMap<u32, u64>,
}

impl Exec {
    pub fn new(m: Module, timeout_ms: u32, lim: Limits) -> Exec {
        let kinds = m.funcs.iter().map(|f| kind_of(&f.name, f.body.is_some())).collect();
        let n = m.funcs.len();
        Exec {
            m,
            kinds,
            slv: Slv::new(timeout_ms),
            work: vec![],
            models: vec![],
            symids: HashMap::new(),
            used: vec![false; n],
            st: Stats::default(),
            lim,
            violations: vec![],
            vseen: BTreeSet::new(),
            samples: vec![],
            stop_first: true,
            trace: false,
            fork_log: false,
            forks: Default::default(),
            prof: HashMap::new(),
        }
    }

    // ---------- memory ----------
    pub fn slot<'a>(&self, st: &'a mut State, id: usize) -> Option<&'a mut Slot> {
        let c = id / CH;
        if c >= st.heap.len() {
            return None;
        }
        Some(&mut Rc::make_mut(&mut st.heap[c])[id % CH])
    }
    fn load_global(&self, st: &mut State, id: usize) -> R<()> {
        let g = (id - 1) as u32;
        let gl = &self.m.globals[g as usize];
        let mut o = Obj { b: vec![0; gl.size as usize], s: vec![], ro: gl.constant };
        if gl.init.is_some() {
            let v = self.m.global_init(g);
            let ty = gl.ty.clone();
            put_val(&mut o, 0, &ty, &v);
        }
        *self.slot(st, id).unwrap() = Slot::Live(Rc::new(o));
        Ok(())
    }
    fn badmem<T>(&self, st: &State, what: &str, addr: u64, n: u64) -> R<T> {
        Err(Stop::End(End::Mem(format!(
            "{what} at {addr:#x} ({n} bytes) in {}",
            self.where_(st)
        ))))
    }
    pub fn where_(&self, st: &State) -> String {
        st.frames
            .iter()
            .rev()
            .take(5)
            .map(|f| short(&self.m.funcs[f.f as usize].name))
            .collect::<Vec<_>>()
            .join(" < ")
    }
    fn stack_pos(id: u64) -> (usize, usize) {
        let k = id - STACK_ID;
        ((k >> 22) as usize, (k & 0x3f_ffff) as usize)
    }
    /// The object holding [addr, addr+n) and the offset.
    pub fn obj<'a>(&self, st: &'a mut State, addr: u64, n: u64) -> R<(&'a Rc<Obj>, usize)> {
        let id = addr >> 32;
        let off = (addr & 0xffff_ffff).wrapping_sub(OFF);
        if id >= STACK_ID {
            let (t, k) = Self::stack_pos(id);
            let len = {
                let stack = match st.threads.get(t) {
                    _ if t == st.cur => &st.stack,
                    Some(x) => &x.stack,
                    None => return self.badmem(st, "wild access", addr, n),
                };
                stack.get(k).map(|o| o.b.len() as u64)
            };
            let Some(len) = len else {
                return self.badmem(st, "access to a dead stack object", addr, n);
            };
            if off.wrapping_add(n) > len || off > u32::MAX as u64 {
                return self.badmem(st, "stack access out of bounds", addr, n);
            }
            let stack = if t == st.cur { &st.stack } else { &st.threads[t].stack };
            return Ok((&stack[k], off as usize));
        }
        let idu = id as usize;
        if id == 0 || idu / CH >= st.heap.len() || id >= FUNC_ID {
            return self.badmem(st, "wild access", addr, n);
        }
        if let Slot::Unloaded = st.heap[idu / CH][idu % CH] {
            if idu > self.m.globals.len() {
                return self.badmem(st, "wild access", addr, n);
            }
            self.load_global(st, idu)?;
        }
        if let Slot::Dead = &st.heap[idu / CH][idu % CH] {
            return self.badmem(st, "use after free", addr, n);
        }
        let len = match &st.heap[idu / CH][idu % CH] {
            Slot::Live(o) => o.b.len() as u64,
            _ => 0,
        };
        if off.wrapping_add(n) > len || off > u32::MAX as u64 {
            return self.badmem(st, "access out of bounds", addr, n);
        }
        match &st.heap[idu / CH][idu % CH] {
            Slot::Live(o) => Ok((o, off as usize)),
            _ => unreachable!(),
        }
    }
    pub fn obj_mut<'a>(&self, st: &'a mut State, addr: u64, n: u64) -> R<(&'a mut Obj, usize)> {
        let (o, off) = self.obj(st, addr, n)?;
        if o.ro {
            return self.badmem(st, "write to a constant", addr, n);
        }
        let id = addr >> 32;
        if id >= STACK_ID {
            let (t, k) = Self::stack_pos(id);
            let stack = if t == st.cur {
                &mut st.stack
            } else {
                &mut Rc::make_mut(&mut st.threads[t]).stack
            };
            return Ok((Rc::make_mut(&mut stack[k]), off));
        }
        match self.slot(st, id as usize) {
            Some(Slot::Live(o)) => Ok((Rc::make_mut(o), off)),
            _ => unreachable!(),
        }
    }
    pub fn malloc(&self, st: &mut State, n: u64) -> R<u64> {
        if n > 64 << 20 {
            return bail(format!("allocation of {n} bytes in {}", self.where_(st)));
        }
        let id = st.nheap;
        st.nheap += 1;
        if id / CH >= st.heap.len() {
            st.heap.push(Rc::new(vec![Slot::Unloaded; CH]));
        }
        let o = Obj { b: vec![0; n as usize], s: vec![], ro: false };
        *self.slot(st, id).unwrap() = Slot::Live(Rc::new(o));
        Ok(((id as u64) << 32) | OFF)
    }
    pub fn free(&self, st: &mut State, a: u64) -> R<()> {
        if a == 0 {
            return Ok(());
        }
        self.obj(st, a, 0)?;
        let id = (a >> 32) as usize;
        if a & 0xffff_ffff != OFF || id <= self.m.globals.len() {
            return self.badmem(st, "bad free", a, 0);
        }
        *self.slot(st, id).unwrap() = Slot::Dead;
        Ok(())
    }
    pub fn read_bytes(&self, st: &mut State, a: u64, n: u64) -> R<Vec<E>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (o, off) = self.obj(st, a, n)?;
        Ok((off..off + n as usize).map(|i| o.get(i)).collect())
    }
    pub fn load_at(&self, st: &mut State, ty: &Ty, a: u64) -> R<V> {
        let n = ty.store_size();
        if n == 0 {
            return Ok(zero_of(ty));
        }
        let (o, off) = self.obj(st, a, n)?;
        Ok(get_val(o, off, ty))
    }
    pub fn store_at(&self, st: &mut State, ty: &Ty, a: u64, v: &V) -> R<()> {
        let n = ty.store_size();
        if n == 0 {
            return Ok(());
        }
        let (o, off) = self.obj_mut(st, a, n)?;
        put_val(o, off, ty, v);
        Ok(())
    }

    // ---------- symbolic decisions ----------
    pub fn new_sym(&mut self, st: &mut State, w: u32) -> E {
        let k = st.inputs.len() as u32;
        let n = self.symids.len() as u32;
        let id = *self.symids.entry((k, w)).or_insert(n);
        st.inputs.push((id, w));
        sym(id, w)
    }
    /// Is pc /\ q satisfiable? Returns a model when it is.
    fn sat(&mut self, st: &State, q: E) -> R<Option<Rc<Model>>> {
        match q {
            E::C(0, _) => return Ok(None),
            E::C(_, _) => return Ok(Some(st.model.clone())),
            _ => {}
        }
        if st.model.eval(q) == 1 {
            return Ok(Some(st.model.clone()));
        }
        for i in (0..self.models.len()).rev() {
            let m = self.models[i].clone();
            if m.eval(q) == 1 && st.pc.iter().rev().all(|c| m.eval(*c) == 1) {
                self.st.model_hits += 1;
                return Ok(Some(m));
            }
        }
        match self.slv.check(&st.pc, q) {
            Res::Sat(part) => {
                let mut v = st.model.v.clone();
                v.resize(cx().syms.len(), 0);
                for (i, x) in part.iter() {
                    v[*i as usize] = *x;
                }
                let m = Model::new(v);
                if m.eval(q) != 1 || !st.pc.iter().all(|c| m.eval(*c) == 1) {
                    return bail("the solver's model does not satisfy the query under evaluation");
                }
                self.models.push(m.clone());
                if self.models.len() > 8 {
                    self.models.remove(0);
                }
                Ok(Some(m))
            }
            Res::Unsat => Ok(None),
            Res::Unknown => bail(format!("solver gave up in {}", self.where_(st))),
        }
    }
    fn fact(st: &State, e: E) -> Option<bool> {
        match e {
            E::C(v, _) => return Some(v == 1),
            _ => {}
        }
        st.facts.get(&e).copied()
    }
    pub fn learn(st: &mut State, e: E, v: bool, constrain: bool) {
        st.facts.insert(e, v);
        st.facts.insert(not1(e), !v);
        if constrain {
            let c = if v { e } else { not1(e) };
            push_conj(&mut st.pc, c);
        }
    }
    fn push_fork(&mut self, mut s: State) {
        if self.fork_log {
            let fr = s.frames.last().unwrap();
            let ins = &fr.body.blocks[fr.blk as usize].ins[fr.ip as usize];
            let at = format!("{} {}:{} {ins:?}", self.where_(&s), fr.blk, fr.ip);
            *self.forks.entry(at).or_default() += 1;
        }
        s.depth += 1;
        self.st.forks += 1;
        self.st.max_depth = self.st.max_depth.max(s.depth);
        self.work.push(s);
    }
    /// Decides a condition for this state; when both outcomes are possible the other one is
    /// queued as a state that re-executes the current instruction.
    pub fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(v) = Self::fact(st, c) {
            return Ok(v);
        }
        let v = st.model.eval(c) == 1;
        let other = if v { not1(c) } else { c };
        match self.sat(st, other)? {
            None => {
                Self::learn(st, c, v, false);
            }
            Some(m) => {
                let mut o = st.clone();
                Self::learn(&mut o, c, !v, true);
                o.model = m;
                self.push_fork(o);
                Self::learn(st, c, v, true);
            }
        }
        Ok(v)
    }
    /// A single concrete value for `e` on this path; other feasible values are queued.
    pub fn conc(&mut self, st: &mut State, e: E) -> R<u128> {
        if let Some(v) = cval(e) {
            return Ok(v);
        }
        if let Some(v) = st.known.get(&e) {
            return Ok(*v);
        }
        let v = st.model.eval(e);
        let c = cmp(P::Eq, e, konst(v, width(e)));
        match self.sat(st, not1(c))? {
            None => {}
            Some(m) => {
                let mut o = st.clone();
                Self::learn(&mut o, c, false, true);
                o.model = m;
                self.push_fork(o);
                Self::learn(st, c, true, true);
            }
        }
        st.known.insert(e, v);
        Ok(v)
    }
    /// conc without forking for values already fixed by the path
    pub fn conc64(&mut self, st: &mut State, e: E) -> R<u64> {
        Ok(self.conc(st, e)? as u64)
    }

    /// Resolves a symbolic address to one object: (base address, size).
    fn resolve(&mut self, st: &mut State, addr: E, n: u64) -> R<(u64, u64)> {
        let a0 = st.model.eval(addr) as u64;
        let (o, off) = self.obj(st, a0, n)?;
        let size = o.b.len() as u64;
        let base = a0 - off as u64;
        let inside = cmp(
            P::Ule,
            bin(B::Sub, addr, konst(base as u128, 64)),
            konst((size - n) as u128, 64),
        );
        if self.decide(st, inside)? {
            Ok((base, size))
        } else {
            bail("address resolution")
        }
    }

    pub fn load(&mut self, st: &mut State, ty: &Ty, addr: E) -> R<V> {
        if let Some(a) = cval(addr) {
            return self.load_at(st, ty, a as u64);
        }
        if let Some(a) = st.known.get(&addr) {
            let a = *a as u64;
            return self.load_at(st, ty, a);
        }
        let n = ty.store_size();
        if n == 0 {
            return Ok(zero_of(ty));
        }
        let a0 = st.model.eval(addr) as u64;
        if matches!(ty, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..)) {
            let a = self.conc64(st, addr)?;
            return self.load_at(st, ty, a);
        }
        if self.obj(st, a0, n).is_err() {
            // let the path that goes out of bounds end there, and keep the others
            let a = self.conc64(st, addr)?;
            return self.load_at(st, ty, a);
        }
        let (base, size) = self.resolve(st, addr, n)?;
        let idx = bin(B::Sub, addr, konst(base as u128, 64));
        // the offsets it can be at: lo, lo + stride, ... hi
        let (x, lo) = split(idx);
        let stride = 1u64 << tz(x).min(6);
        let hi = match lo.checked_add(umax(x).min(u64::MAX as u128) as u64) {
            Some(h) => h.min(size - n),
            None => size - n,
        };
        let lo = if lo > hi || umax(x) > (size - n - lo) as u128 { lo % stride } else { lo };
        let count = (hi.max(lo) - lo) / stride + 1;
        if count > 512 {
            let a = self.conc64(st, addr)?;
            return self.load_at(st, ty, a);
        }
        let mut acc: Option<E> = None;
        let mut k = count;
        while k > 0 {
            k -= 1;
            let v = self.load_at(st, ty, base + lo + k * stride)?.e();
            let last = k;
            while k > 0 && self.load_at(st, ty, base + lo + (k - 1) * stride)?.e() == v {
                k -= 1;
            }
            acc = Some(match acc {
                None => v,
                Some(a) => {
                    let o = konst((lo + last * stride) as u128, 64);
                    let p = if last == k { P::Eq } else { P::Ule };
                    ite(cmp(p, idx, o), v, a)
                }
            });
        }
        Ok(V::I(acc.unwrap()))
    }
    pub fn store(&mut self, st: &mut State, ty: &Ty, addr: E, v: &V) -> R<()> {
        if let Some(a) = cval(addr) {
            return self.store_at(st, ty, a as u64, v);
        }
        let n = ty.store_size();
        if n == 0 {
            return Ok(());
        }
        let scalar = matches!(v, V::I(_));
        if !st.known.contains_key(&addr) && scalar {
            let a0 = st.model.eval(addr) as u64;
            if self.obj(st, a0, n).is_ok() {
                let (base, size) = self.resolve(st, addr, n)?;
                let idx = bin(B::Sub, addr, konst(base as u128, 64));
                let stride = 1u64 << tz(idx).min(6);
                let count = (size - n) / stride + 1;
                if count <= 64 && stride >= n {
                    for k in 0..count {
                        let o = k * stride;
                        let old = self.load_at(st, ty, base + o)?.e();
                        let g = cmp(P::Eq, idx, konst(o as u128, 64));
                        let nv = V::I(ite(g, v.e(), old));
                        self.store_at(st, ty, base + o, &nv)?;
                    }
                    return Ok(());
                }
            }
        }
        let a = self.conc64(st, addr)?;
        self.store_at(st, ty, a, v)
    }

    // ---------- running ----------
    pub fn initial(&mut self, f: u32) -> State {
        let ng = self.m.globals.len();
        let nch = (ng + 1) / CH + 1;
        let heap = (0..nch).map(|_| Rc::new(vec![Slot::Unloaded; CH])).collect();
        let mut st = State {
            threads: vec![Rc::new(Thread {
                frames: vec![],
                stack: vec![],
                wait: Wait::Ready,
                dst: None,
                normal: None,
                bits: 64,
            })],
            cur: 0,
            resched: false,
            keys: 0,
            explore: 0,
            stay: false,
            choice: None,
            waiters: vec![],
            tls: BTreeMap::new(),
            frames: vec![],
            heap,
            nheap: nch * CH,
            stack: vec![],
            pc: vec![],
            facts: HashMap::default(),
            known: HashMap::default(),
            model: Model::new(vec![]),
            inputs: vec![],
            obs: vec![],
            covers: BTreeSet::new(),
            steps: 0,
            depth: 0,
            panics_ok: false,
            clock: E::C(1_000_000_000_000, 64),
            rnd: 0x1234_5678_9abc_def1,
        };
        self.push_frame(&mut st, f, vec![], None, None);
        st
    }
    pub fn push_frame(
        &mut self,
        st: &mut State,
        f: u32,
        args: Vec<V>,
        dst: Option<u32>,
        normal: Option<u32>,
    ) {
        self.used[f as usize] = true;
        let body = self.m.body(f);
        let mut regs = args;
        regs.truncate(body.nparams);
        regs.resize(body.nregs, V::I(E::C(0, 1)));
        st.frames.push(Rc::new(Frame {
            f,
            body,
            blk: 0,
            ip: 0,
            regs,
            stk: st.stack.len(),
            dst,
            normal,
            catch: false,
        }));
    }
    pub fn input_values(&self, st: &State, m: &Model) -> Vec<(u32, u128)> {
        st.inputs
            .iter()
            .map(|(s, w)| (*w, m.v.get(*s as usize).copied().unwrap_or(0) & mask(*w)))
            .collect()
    }
    pub fn violate(&mut self, st: &State, m: &Model, kind: &str, id: u32, msg: String) {
        if !self.vseen.insert((format!("{kind}{msg}"), id)) {
            return;
        }
        let inputs = self.input_values(st, m);
        let trace = st
            .frames
            .iter()
            .rev()
            .map(|f| short(&self.m.funcs[f.f as usize].name))
            .collect();
        self.violations.push(Violation { kind: kind.into(), id, msg, inputs, trace });
    }
    pub fn assert_(&mut self, st: &mut State, c: E, id: u32) -> R<()> {
        *self.st.asserts.entry(id).or_default() += 1;
        if let Some(true) = Self::fact(st, c) {
            return Ok(());
        }
        self.st.assert_solver += 1;
        match self.sat(st, not1(c))? {
            None => {
                Self::learn(st, c, true, false);
                Ok(())
            }
            Some(m) => {
                self.violate(st, &m, "assert", id, String::new());
                // go on with the executions where it holds, if there are any
                match self.sat(st, c)? {
                    None => Err(Stop::End(End::Assume)),
                    Some(m) => {
                        Self::learn(st, c, true, true);
                        st.model = m;
                        Ok(())
                    }
                }
            }
        }
    }
    pub fn assume_(&mut self, st: &mut State, c: E) -> R<()> {
        if let Some(v) = Self::fact(st, c) {
            return if v { Ok(()) } else { Err(Stop::End(End::Assume)) };
        }
        match self.sat(st, c)? {
            None => Err(Stop::End(End::Assume)),
            Some(m) => {
                Self::learn(st, c, true, true);
                st.model = m;
                Ok(())
            }
        }
    }

    fn end_name(e: &End) -> &'static str {
        match e {
            End::Done => "done",
            End::Panic(_) => "panic",
            End::Assume => "assumed-away",
            End::Abort(_) => "abort",
            End::Mem(_) => "memory",
            End::Deadlock(_) => "deadlock",
            End::Steps => "step-limit",
        }
    }

    /// Explores everything reachable from the harness. Err = the run is inconclusive.
    pub fn run(&mut self, f: u32) -> Result<(), String> {
        let t0 = std::time::Instant::now();
        let s0 = self.initial(f);
        self.work.push(s0);
        let mut npaths = 0u64;
        while let Some(mut st) = self.work.pop() {
            let r = self.run_path(&mut st, t0);
            match r {
                Ok(e) => {
                    npaths += 1;
                    *self.st.paths.entry(Self::end_name(&e).into()).or_default() += 1;
                    match &e {
                        End::Panic(p) => {
                            if st.panics_ok {
                                *self.st.panics_ok.entry(p.clone()).or_default() += 1;
                            } else {
                                let m = st.model.clone();
                                self.violate(&st, &m, "panic", 0, p.clone());
                            }
                        }
                        End::Abort(p) => {
                            let m = st.model.clone();
                            self.violate(&st, &m, "abort", 0, p.clone());
                        }
                        End::Mem(p) => {
                            let m = st.model.clone();
                            self.violate(&st, &m, "memory", 0, p.clone());
                        }
                        End::Deadlock(p) => {
                            let m = st.model.clone();
                            self.violate(&st, &m, "hang", 0, format!("deadlock: {p}"));
                        }
                        End::Steps => {
                            let m = st.model.clone();
                            let w = self.where_(&st);
                            self.violate(&st, &m, "hang", 0, format!("step limit in {w}"));
                        }
                        _ => {}
                    }
                    if matches!(e, End::Done) || (matches!(e, End::Panic(_)) && st.panics_ok) {
                        self.st.covers.extend(st.covers.iter());
                        let want = self.samples.len() < self.lim.samples / 2
                            || (self.samples.len() < self.lim.samples
                                && npaths % (1 + npaths / 16) == 0);
                        if want {
                            let inputs = self.input_values(&st, &st.model);
                            let obs = st.obs.iter().map(|o| st.model.eval(*o)).collect();
                            self.samples.push(Sample {
                                inputs,
                                obs,
                                end: Self::end_name(&e).into(),
                            });
                        }
                    }
                    if self.stop_first && !self.violations.is_empty() {
                        return Ok(());
                    }
                }
                Err(m) => {
                    if !self.violations.is_empty() {
                        return Ok(());
                    }
                    return Err(m);
                }
            }
            if npaths >= self.lim.paths && !self.work.is_empty() {
                return Err(format!("path limit {} reached", self.lim.paths));
            }
        }
        Ok(())
    }

    fn run_path(&mut self, st: &mut State, t0: std::time::Instant) -> Result<End, String> {
        loop {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                for _ in 0..4096 {
                    self.step(st)?;
                }
                Ok(())
            }));
            let r = match r {
                Ok(r) => r,
                Err(p) => {
                    let m = p
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default();
                    bail(format!("{m} in {}", self.where_(st)))
                }
            };
            match r {
                Ok(()) => {}
                Err(Stop::End(e)) => return Ok(e),
                Err(Stop::Err(m)) => return Err(m),
            }
            if st.steps > self.lim.steps {
                return Ok(End::Steps);
            }
            if t0.elapsed().as_secs() > self.lim.secs {
                return Err(format!("time limit of {} s reached", self.lim.secs));
            }
            if self.stop_first && !self.violations.is_empty() {
                return Ok(End::Assume);
            }
        }
    }

    #[inline]
    pub fn val(fr: &Frame, o: &Op) -> V {
        match o {
            Op::R(r) => fr.regs[*r as usize].clone(),
            Op::K(v) => v.clone(),
        }
    }
    pub fn set(st: &mut State, r: u32, v: V) {
        let n = st.frames.len() - 1;
        Rc::make_mut(&mut st.frames[n]).regs[r as usize] = v;
    }
    pub fn jump(st: &mut State, to: u32) {
        let n = st.frames.len() - 1;
        let fr = Rc::make_mut(&mut st.frames[n]);
        let from = fr.blk;
        let body = fr.body.clone();
        let b = &body.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let p = &b.phis[0];
                let (_, o) = p.inc.iter().find(|(x, _)| *x == from).expect("phi");
                let v = Self::val(fr, o);
                fr.regs[p.dst as usize] = v;
            } else {
                let vs: Vec<V> = b
                    .phis
                    .iter()
                    .map(|p| {
                        let (_, o) = p.inc.iter().find(|(x, _)| *x == from).expect("phi");
                        Self::val(fr, o)
                    })
                    .collect();
                for (p, v) in b.phis.iter().zip(vs) {
                    fr.regs[p.dst as usize] = v;
                }
            }
        }
        fr.blk = to;
        fr.ip = 0;
    }
    /// after an instruction that produced a value inline
    fn advance(st: &mut State) {
        let n = st.frames.len() - 1;
        Rc::make_mut(&mut st.frames[n]).ip += 1;
    }
    /// finishes a call handled inline
    pub fn finish_call(st: &mut State, dst: Option<u32>, normal: Option<u32>, v: Option<V>) {
        if let (Some(d), Some(v)) = (dst, v) {
            Self::set(st, d, v);
        }
        match normal {
            Some(b) => Self::jump(st, b),
            None => Self::advance(st),
        }
    }
    pub fn ret(&mut self, st: &mut State, v: Option<V>) -> R<()> {
        let fr = st.frames.pop().unwrap();
        st.stack.truncate(fr.stk);
        if st.frames.is_empty() {
            if st.cur == 0 {
                return Err(Stop::End(End::Done));
            }
            st.stack.clear();
            self.block(st, Wait::Done, None, None, 64);
            return Ok(());
        }
        let v = if fr.catch { Some(V::I(E::C(0, 1))) } else { v };
        Self::finish_call(st, fr.dst, fr.normal, v);
        Ok(())
    }
    /// A Rust panic: ends the path, or returns true from the enclosing sx_try.
    pub fn panic_(&mut self, st: &mut State, msg: String) -> R<()> {
        if let Some(k) = st.frames.iter().rposition(|f| f.catch) {
            let fr = st.frames[k].clone();
            st.frames.truncate(k);
            st.stack.truncate(fr.stk);
            Self::finish_call(st, fr.dst, fr.normal, Some(V::I(E::C(1, 1))));
            return Ok(());
        }
        Err(Stop::End(End::Panic(msg)))
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        st.steps += 1;
        self.st.steps += 1;
        if st.resched {
            return self.schedule(st);
        }
        let fi = st.frames.len() - 1;
        let fr = &st.frames[fi];
        let body = fr.body.clone();
        let ins = &body.blocks[fr.blk as usize].ins[fr.ip as usize];
        if self.trace {
            eprintln!("{} {}:{} {:?}", short(&self.m.funcs[fr.f as usize].name), fr.blk, fr.ip, ins);
        }
        match ins {
            I::Bin(d, op, ty, a, b) => {
                let (x, y) = (Self::val(fr, a), Self::val(fr, b));
                let r = match (&x, &y) {
                    (V::I(x), V::I(y)) => {
                        if matches!(op, B::UDiv | B::SDiv | B::URem | B::SRem)
                            && cval(*y) == Some(0)
                        {
                            return Err(Stop::End(End::Mem("division by zero".into())));
                        }
                        V::I(bin(*op, *x, *y))
                    }
                    (V::A(x), V::A(y)) => V::A(Rc::new(
                        x.iter().zip(y.iter()).map(|(p, q)| V::I(bin(*op, p.e(), q.e()))).collect(),
                    )),
                    _ => return bail("mixed operands"),
                };
                let _ = ty;
                Self::set(st, *d, r);
                Self::advance(st);
            }
            I::FBin(d, op, _, a, b) => {
                let (x, y) = (Self::val(fr, a), Self::val(fr, b));
                let r = lift2(&x, &y, |x, y| fbin(*op, x, y));
                Self::set(st, *d, r);
                Self::advance(st);
            }
            I::FNeg(d, _, a) => {
                let x = Self::val(fr, a);
                let r = lift1(&x, |x| fun(FU::Neg, x, width(x)));
                Self::set(st, *d, r);
                Self::advance(st);
            }
            I::ICmp(d, p, _, a, b) => {
                let (x, y) = (Self::val(fr, a), Self::val(fr, b));
                let r = lift2(&x, &y, |x, y| icmp(p, x, y));
                Self::set(st, *d, r);
                Self::advance(st);
            }
            I::FCmp(d, p, _, a, b) => {
                let (x, y) = (Self::val(fr, a), Self::val(fr, b));
                let r = lift2(&x, &y, |x, y| fcmp_ir(p, x, y));
                Self::set(st, *d, r);
                Self::advance(st);
            }
            I::Cast(d, c, from, to, a) => {
                let x = Self::val(fr, a);
                let r = do_cast(*c, from, to, &x);
                Self::set(st, *d, r);
                Self::advance(st);
            }
            I::Select(d, c, a, b) => {
                let (g, x, y) = (Self::val(fr, c), Self::val(fr, a), Self::val(fr, b));
                let r = match (&g, &x, &y) {
                    (V::I(g), V::I(x), V::I(y)) => V::I(ite(*g, *x, *y)),
                    (V::I(g), V::A(_), V::A(_)) => ite_v(*g, &x, &y),
                    (V::A(g), V::A(x), V::A(y)) => V::A(Rc::new(
                        g.iter()
                            .zip(x.iter().zip(y.iter()))
                            .map(|(g, (x, y))| V::I(ite(g.e(), x.e(), y.e())))
                            .collect(),
                    )),
                    _ => return bail("select"),
                };
                Self::set(st, *d, r);
                Self::advance(st);
            }
            I::Load(d, ty, p) => {
                let a = Self::val(fr, p).e();
                let v = self.load(st, ty, a)?;
                Self::set(st, *d, v);
                Self::advance(st);
            }
            I::Store(ty, v, p) => {
                let a = Self::val(fr, p).e();
                let v = Self::val(fr, v);
                self.store(st, ty, a, &v)?;
                Self::advance(st);
            }
            I::Gep(d, base, off, dynv) => {
                let bv = Self::val(fr, base);
                let mut a = bin(B::Add, bv.e(), E::C(*off, 64));
                for (o, stride) in dynv {
                    let i = Self::val(fr, o).e();
                    let i = if width(i) < 64 { sext(i, 64) } else { extract(i, 0, 64) };
                    a = bin(B::Add, a, bin(B::Mul, i, E::C(*stride, 64)));
                }
                Self::set(st, *d, V::I(a));
                Self::advance(st);
            }
            I::Alloca(d, n) => {
                let k = ((st.cur as u64) << 22) + st.stack.len() as u64;
                st.stack.push(Rc::new(Obj { b: vec![0; *n as usize], s: vec![], ro: false }));
                Self::set(st, *d, V::I(E::C(((STACK_ID + k) << 32) | OFF, 64)));
                Self::advance(st);
            }
            I::Br(b) => {
                Self::jump(st, *b);
            }
            I::CBr(c, a, b) => {
                let c = Self::val(fr, c).e();
                if let E::C(v, _) = c {
                    Self::jump(st, if v & 1 == 1 { *a } else { *b });
                    return Ok(());
                }
                if a == b {
                    Self::jump(st, *a);
                    return Ok(());
                }
                *self.prof.entry(fr.f).or_default() += 1;
                let v = self.decide(st, c)?;
                Self::jump(st, if v { *a } else { *b });
            }
            I::Switch(v, dflt, cases) => {
                let x = Self::val(fr, v).e();
                if let Some(k) = cval(x) {
                    let t = cases.iter().find(|(c, _)| *c == k).map(|(_, t)| *t).unwrap_or(*dflt);
                    Self::jump(st, t);
                    return Ok(());
                }
                *self.prof.entry(fr.f).or_default() += 1;
                let w = width(x);
                // group the cases by target
                let mut groups: Vec<(u32, E)> = vec![];
                let mut none = E::C(1, 1);
                for (k, t) in cases {
                    let c = cmp(P::Eq, x, konst(*k, w));
                    none = bin(B::And, none, not1(c));
                    if let Some(g) = groups.iter_mut().find(|g| g.0 == *t) {
                        g.1 = bin(B::Or, g.1, c);
                    } else {
                        groups.push((*t, c));
                    }
                }
                match groups.iter_mut().find(|g| g.0 == *dflt) {
                    Some(g) => g.1 = bin(B::Or, g.1, none),
                    None => groups.push((*dflt, none)),
                }
                for (t, c) in groups {
                    if self.decide(st, c)? {
                        Self::jump(st, t);
                        return Ok(());
                    }
                }
                return bail("switch without a feasible target");
            }
            I::Ret(v) => {
                let v = v.as_ref().map(|o| Self::val(fr, o));
                return self.ret(st, v);
            }
            I::Unreachable => {
                return Err(Stop::End(End::Mem(format!(
                    "reached `unreachable` in {}",
                    self.where_(st)
                ))));
            }
            I::ExtractV(d, a, ix) => {
                let mut v = Self::val(fr, a);
                for i in ix {
                    v = match &v {
                        V::A(x) => x[*i].clone(),
                        _ => return bail("extractvalue"),
                    };
                }
                Self::set(st, *d, v);
                Self::advance(st);
            }
            I::InsertV(d, a, x, ix) => {
                let v = Self::val(fr, a);
                let x = Self::val(fr, x);
                let r = insert_v(&v, &x, ix);
                Self::set(st, *d, r);
                Self::advance(st);
            }
            I::ExtractE(d, a, k) => {
                let v = Self::val(fr, a);
                let k = Self::val(fr, k).e();
                let V::A(v) = v else { return bail("extractelement") };
                let k = self.conc(st, k)? as usize;
                Self::set(st, *d, v[k].clone());
                Self::advance(st);
            }
            I::InsertE(d, a, x, k) => {
                let v = Self::val(fr, a);
                let x = Self::val(fr, x);
                let k = Self::val(fr, k).e();
                let k = self.conc(st, k)? as usize;
                let r = insert_v(&v, &x, &[k]);
                Self::set(st, *d, r);
                Self::advance(st);
            }
            I::Shuffle(d, a, b, m, n) => {
                let (V::A(x), V::A(y)) = (Self::val(fr, a), Self::val(fr, b)) else {
                    return bail("shufflevector");
                };
                let r = m.iter().map(|k| if k < n { x[*k].clone() } else { y[*k - *n].clone() });
                let r = V::A(Rc::new(r.collect()));
                Self::set(st, *d, r);
                Self::advance(st);
            }
            I::Rmw(d, op, ty, p, v) => {
                let a = Self::val(fr, p).e();
                let v = Self::val(fr, v).e();
                let a = E::C(self.conc64(st, a)?, 64);
                let old = self.load(st, ty, a)?.e();
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => bin(B::Add, old, v),
                    "sub" => bin(B::Sub, old, v),
                    "and" => bin(B::And, old, v),
                    "or" => bin(B::Or, old, v),
                    "xor" => bin(B::Xor, old, v),
                    "nand" => bin(B::Xor, bin(B::And, old, v), konst(u128::MAX, width(v))),
                    "umax" => ite(cmp(P::Ult, old, v), v, old),
                    "umin" => ite(cmp(P::Ult, old, v), old, v),
                    "max" => ite(cmp(P::Slt, old, v), v, old),
                    "min" => ite(cmp(P::Slt, old, v), old, v),
                    _ => return bail(format!("atomicrmw {op}")),
                };
                self.store(st, ty, a, &V::I(new))?;
                Self::set(st, *d, V::I(old));
                Self::advance(st);
            }
            I::CmpXchg(d, ty, p, a, b) => {
                let p = Self::val(fr, p).e();
                let a = Self::val(fr, a).e();
                let b = Self::val(fr, b).e();
                let p = E::C(self.conc64(st, p)?, 64);
                let old = self.load(st, ty, p)?.e();
                let ok = cmp(P::Eq, old, a);
                self.store(st, ty, p, &V::I(ite(ok, b, old)))?;
                Self::set(st, *d, V::A(Rc::new(vec![V::I(old), V::I(ok)])));
                Self::advance(st);
            }
            I::Copy(d, a) => {
                let v = Self::val(fr, a);
                Self::set(st, *d, v);
                Self::advance(st);
            }
            I::Nop => Self::advance(st),
            I::LandingPad => return bail("landing pad reached"),
            I::Call { dst, callee, args, ret, normal } => {
                let f = match callee {
                    Callee::F(f) => *f,
                    Callee::Ind(o) => {
                        let a = Self::val(fr, o).e();
                        let a = self.conc64(st, a)?;
                        let k = (a & 0xffff_ffff).wrapping_sub(OFF) / 16;
                        if a >> 32 != FUNC_ID || k as usize >= self.m.funcs.len() {
                            return Err(Stop::End(End::Mem(format!(
                                "call of {a:#x} in {}",
                                self.where_(st)
                            ))));
                        }
                        k as u32
                    }
                    Callee::Asm(_) => {
                        // optimisation barriers and the like: the identity on their operand
                        let v = match args.first() {
                            Some(o) if *ret != Ty::Void => {
                                let v = Self::val(fr, o);
                                match (&v, ret) {
                                    (V::I(e), t) if t.bits() == width(*e) => v,
                                    _ => zero_of(ret),
                                }
                            }
                            _ => zero_of(ret),
                        };
                        Self::finish_call(st, *dst, *normal, Some(v));
                        return Ok(());
                    }
                };
                let argv: Vec<V> = args.iter().map(|o| Self::val(&st.frames[fi], o)).collect();
                return self.call(st, f, argv, ret, *dst, *normal);
            }
        }
        Ok(())
    }

    // ---------- threads ----------
    /// The running thread waits; the scheduler comes next.
    pub fn block(&mut self, st: &mut State, w: Wait, dst: Option<u32>, normal: Option<u32>, bits: u32) {
        if let Wait::Futex(..) = w {
            st.waiters.push(st.cur);
        }
        let t = Rc::make_mut(&mut st.threads[st.cur]);
        t.wait = w;
        t.dst = dst;
        t.normal = normal;
        t.bits = bits;
        st.resched = true;
    }
    pub fn spawn(&mut self, st: &mut State, f: u32, arg: V) -> usize {
        let t = st.threads.len();
        let (fr, stk) = (std::mem::take(&mut st.frames), std::mem::take(&mut st.stack));
        self.push_frame(st, f, vec![arg], None, None);
        let frames = std::mem::replace(&mut st.frames, fr);
        st.stack = stk;
        st.threads.push(Rc::new(Thread {
            frames,
            stack: vec![],
            wait: Wait::Ready,
            dst: None,
            normal: None,
            bits: 64,
        }));
        t
    }
    pub fn wake(&mut self, st: &mut State, addr: u64, n: u64) -> u64 {
        let mut k = 0;
        let mut i = 0;
        while i < st.waiters.len() && k < n {
            let t = st.waiters[i];
            if matches!(st.threads[t].wait, Wait::Futex(a, _) if a == addr) {
                Rc::make_mut(&mut st.threads[t]).wait = Wait::Woken;
                st.waiters.remove(i);
                k += 1;
            } else {
                i += 1;
            }
        }
        k
    }
    fn ready(&mut self, st: &mut State, t: usize) -> R<bool> {
        Ok(match st.threads[t].wait.clone() {
            Wait::Ready | Wait::Woken => true,
            Wait::Futex(_, Some(d)) | Wait::Sleep(d) => {
                let c = cmp(P::Ule, d, st.clock);
                self.decide(st, c)?
            }
            Wait::Join(x) => st.threads[x].wait == Wait::Done,
            Wait::Futex(_, None) | Wait::Idle | Wait::Done => false,
        })
    }
    /// Chooses the thread that runs next. Whatever forks in here starts over.
    fn schedule(&mut self, st: &mut State) -> R<()> {
        let n = st.threads.len();
        let mut can = vec![];
        for t in 0..n {
            if self.ready(st, t)? {
                can.push(t);
            }
        }
        if can.is_empty() {
            if let Some(t) = (0..n).find(|t| st.threads[*t].wait == Wait::Idle) {
                can.push(t);
            }
        }
        if can.is_empty() {
            // time passes until the first of the timed waits is over
            let mut first: Option<E> = None;
            for t in 0..n {
                if let Wait::Futex(_, Some(d)) | Wait::Sleep(d) = st.threads[t].wait {
                    first = match first {
                        Some(f) if self.decide(st, cmp(P::Ule, f, d))? => Some(f),
                        _ => Some(d),
                    };
                }
            }
            match first {
                Some(d) => {
                    st.clock = d;
                    return Ok(());
                }
                None => {
                    let w: Vec<String> =
                        st.threads.iter().map(|t| format!("{:?}", t.wait)).collect();
                    return Err(Stop::End(End::Deadlock(w.join(", "))));
                }
            }
        }
        let default = if st.stay {
            st.cur
        } else {
            *can.iter().find(|t| **t > st.cur).unwrap_or(&can[0])
        };
        let next = if can.len() == 1 {
            can[0]
        } else if st.explore > 0 {
            let c = match st.choice {
                Some(c) => c,
                None => {
                    let m = can.len() as u128 - 1;
                    let mut w = 1;
                    while mask(w) < m {
                        w += 1;
                    }
                    let s = self.new_sym(st, w);
                    st.choice = Some(s);
                    if mask(w) != m {
                        self.assume_(st, cmp(P::Ule, s, konst(m, w)))?;
                    }
                    s
                }
            };
            let t = can[self.conc(st, c)? as usize];
            if t != default && st.explore != u32::MAX {
                st.explore -= 1;
            }
            t
        } else {
            default
        };
        st.stay = false;
        st.choice = None;
        st.resched = false;
        if next != st.cur {
            let cur = st.cur;
            let (frames, stack) = (std::mem::take(&mut st.frames), std::mem::take(&mut st.stack));
            let t = Rc::make_mut(&mut st.threads[cur]);
            t.frames = frames;
            t.stack = stack;
            let t = Rc::make_mut(&mut st.threads[next]);
            st.frames = std::mem::take(&mut t.frames);
            st.stack = std::mem::take(&mut t.stack);
            st.cur = next;
        }
        let t = Rc::make_mut(&mut st.threads[next]);
        let w = std::mem::replace(&mut t.wait, Wait::Ready);
        let (dst, normal, bits) = (t.dst, t.normal, t.bits);
        if w != Wait::Ready {
            let mut v = 0;
            if let Wait::Futex(..) = w {
                st.waiters.retain(|x| *x != next);
                let e = self.errno(st)?;
                self.store_at(st, &Ty::Int(32), e, &V::I(E::C(110, 32)))?;
                v = u64::MAX as u128;
            }
            let v = if bits == 0 { None } else { Some(V::I(konst(v, bits))) };
            Self::finish_call(st, dst, normal, v);
        }
        Ok(())
    }
    pub fn errno(&mut self, st: &mut State) -> R<u64> {
        let k = (st.cur, 0);
        if let Some(a) = st.tls.get(&k) {
            return Ok(*a);
        }
        let a = self.malloc(st, 4)?;
        st.tls.insert(k, a);
        Ok(a)
    }
    /// This thread's copy of a thread-local variable.
    pub fn tls_addr(&mut self, st: &mut State, a: u64) -> R<u64> {
        if st.cur == 0 {
            return Ok(a);
        }
        let k = (st.cur, a);
        if let Some(a) = st.tls.get(&k) {
            return Ok(*a);
        }
        let g = ((a >> 32) - 1) as u32;
        let size = self.m.globals[g as usize].size;
        let p = self.malloc(st, size)?;
        if self.m.globals[g as usize].init.is_some() {
            let v = self.m.global_init(g);
            let ty = self.m.globals[g as usize].ty.clone();
            self.store_at(st, &ty, p, &v)?;
        }
        st.tls.insert(k, p);
        Ok(p)
    }

    pub fn call(
        &mut self,
        st: &mut State,
        f: u32,
        args: Vec<V>,
        ret: &Ty,
        dst: Option<u32>,
        normal: Option<u32>,
    ) -> R<()> {
        let k = self.kinds[f as usize].clone();
        if let K::Def = k {
            if st.frames.len() > 3000 {
                return bail("call depth");
            }
            self.push_frame(st, f, args, dst, normal);
            return Ok(());
        }
        self.intrinsic(st, k, f, args, ret, dst, normal)
    }
}

fn push_conj(pc: &mut Vec<E>, c: E) {
    if let E::S(i) = c {
        if let N::Bin(B::And, a, b) = node(i) {
            push_conj(pc, a);
            push_conj(pc, b);
            return;
        }
    }
    if let E::C(1, _) = c {
        return;
    }
    pc.push(c);
}

/// A sum with a constant, if it is one.
fn split(e: E) -> (E, u64) {
    if let E::S(i) = e {
        if let N::Zx(y) = node(i) {
            let (a, c) = split(y);
            // without a carry out
            if width(y) < 64 && umax(a) + c as u128 <= (1u128 << width(y)) - 1 {
                return (a, c);
            }
        }
        if let N::Bin(B::Add, a, b) = node(i) {
            if let E::C(c, _) = b {
                return (a, c);
            }
            if let E::C(c, _) = a {
                return (b, c);
            }
        }
    }
    (e, 0)
}
pub fn tz(e: E) -> u32 {
    if let Some(v) = cval(e) {
        return if v == 0 { width(e) } else { v.trailing_zeros() };
    }
    let E::S(i) = e else { return 0 };
    match node(i) {
        N::Cat(h, l) => {
            let t = tz(l);
            if t == width(l) {
                t + tz(h)
            } else {
                t
            }
        }
        N::Zx(x) | N::Sx(x) => tz(x),
        N::Bin(B::Add | B::Sub | B::Or | B::Xor, a, b) => tz(a).min(tz(b)),
        N::Bin(B::And, a, b) => tz(a).max(tz(b)),
        N::Bin(B::Mul, a, b) => (tz(a) + tz(b)).min(width(e)),
        N::Ite(_, a, b) => tz(a).min(tz(b)),
        _ => 0,
    }
}

pub fn lift1(x: &V, f: impl Fn(E) -> E + Copy) -> V {
    match x {
        V::I(a) => V::I(f(*a)),
        V::A(a) => V::A(Rc::new(a.iter().map(|v| lift1(v, f)).collect())),
    }
}
pub fn lift2(x: &V, y: &V, f: impl Fn(E, E) -> E + Copy) -> V {
    match (x, y) {
        (V::I(a), V::I(b)) => V::I(f(*a, *b)),
        (V::A(a), V::A(b)) => {
            V::A(Rc::new(a.iter().zip(b.iter()).map(|(p, q)| lift2(p, q, f)).collect()))
        }
        _ => panic!("unsupported: mixed operands"),
    }
}
pub fn icmp(p: &str, x: E, y: E) -> E {
    match p {
        "eq" => cmp(P::Eq, x, y),
        "ne" => not1(cmp(P::Eq, x, y)),
        "ult" => cmp(P::Ult, x, y),
        "ule" => cmp(P::Ule, x, y),
        "ugt" => cmp(P::Ult, y, x),
        "uge" => cmp(P::Ule, y, x),
        "slt" => cmp(P::Slt, x, y),
        "sle" => cmp(P::Sle, x, y),
        "sgt" => cmp(P::Slt, y, x),
        _ => cmp(P::Sle, y, x),
    }
}
fn fcmp_ir(p: &str, x: E, y: E) -> E {
    let n = |e: E| not1(e);
    match p {
        "oeq" => fcmp(FP::Oeq, x, y),
        "olt" => fcmp(FP::Olt, x, y),
        "ole" => fcmp(FP::Ole, x, y),
        "ogt" => fcmp(FP::Olt, y, x),
        "oge" => fcmp(FP::Ole, y, x),
        "uno" => fcmp(FP::Uno, x, y),
        "ord" => n(fcmp(FP::Uno, x, y)),
        "one" => bin(B::And, n(fcmp(FP::Oeq, x, y)), n(fcmp(FP::Uno, x, y))),
        "une" => n(fcmp(FP::Oeq, x, y)),
        "ueq" => bin(B::Or, fcmp(FP::Oeq, x, y), fcmp(FP::Uno, x, y)),
        "ult" => n(fcmp(FP::Ole, y, x)),
        "ule" => n(fcmp(FP::Olt, y, x)),
        "ugt" => n(fcmp(FP::Ole, x, y)),
        _ => n(fcmp(FP::Olt, x, y)),
    }
}
pub fn ite_v(g: E, x: &V, y: &V) -> V {
    match (x, y) {
        (V::I(a), V::I(b)) => V::I(ite(g, *a, *b)),
        (V::A(a), V::A(b)) => {
            V::A(Rc::new(a.iter().zip(b.iter()).map(|(p, q)| ite_v(g, p, q)).collect()))
        }
        _ => panic!("unsupported: mixed select"),
    }
}
pub fn insert_v(v: &V, x: &V, ix: &[usize]) -> V {
    if ix.is_empty() {
        return x.clone();
    }
    let V::A(a) = v else { panic!("unsupported: insert into scalar") };
    let mut n = (**a).clone();
    n[ix[0]] = insert_v(&n[ix[0]], x, &ix[1..]);
    V::A(Rc::new(n))
}
pub fn to_bits(t: &Ty, v: &V) -> E {
    match v {
        V::I(e) => *e,
        V::A(a) => {
            let Ty::Vec(_, et) = t else { panic!("unsupported: bitcast of aggregate") };
            let mut r = to_bits(et, &a[0]);
            for x in &a[1..] {
                r = cat(to_bits(et, x), r);
            }
            r
        }
    }
}
pub fn from_bits(t: &Ty, e: E) -> V {
    match t {
        Ty::Vec(n, et) => {
            let w = et.bits();
            V::A(Rc::new((0..*n).map(|k| V::I(extract(e, k * w, w))).collect()))
        }
        _ => V::I(e),
    }
}
fn do_cast(c: Cast, from: &Ty, to: &Ty, x: &V) -> V {
    match c {
        Cast::Bit => {
            if let (V::I(e), false) = (x, matches!(to, Ty::Vec(..))) {
                return V::I(*e);
            }
            from_bits(to, to_bits(from, x))
        }
        _ => {
            let w = match to {
                Ty::Vec(_, t) => t.bits(),
                t => t.bits(),
            };
            lift1(x, |e| match c {
                Cast::Zext => zext(e, w),
                Cast::Sext => sext(e, w),
                Cast::Trunc => extract(e, 0, w),
                Cast::PtrInt => {
                    if w <= width(e) {
                        extract(e, 0, w)
                    } else {
                        zext(e, w)
                    }
                }
                Cast::FpTrunc => fun(FU::Trunc, e, w),
                Cast::FpExt => fun(FU::Ext, e, w),
                Cast::UiFp => fun(FU::FromU, e, w),
                Cast::SiFp => fun(FU::FromS, e, w),
                Cast::FpUi => ftoi(false, e, w),
                Cast::FpSi => ftoi(true, e, w),
                Cast::Bit => unreachable!(),
            })
        }
    }
}

pub fn get_val(o: &Obj, off: usize, ty: &Ty) -> V {
    match ty {
        Ty::Arr(n, t) => {
            let s = t.size() as usize;
            V::A(Rc::new((0..*n as usize).map(|k| get_val(o, off + k * s, t)).collect()))
        }
        Ty::Vec(n, t) if t.bits() % 8 == 0 => {
            let s = (t.bits() / 8) as usize;
            V::A(Rc::new((0..*n as usize).map(|k| get_val(o, off + k * s, t)).collect()))
        }
        Ty::Vec(..) => {
            let n = ty.store_size();
            let e = get_val(o, off, &Ty::Int(n as u32 * 8)).e();
            from_bits(ty, extract(e, 0, ty.bits()))
        }
        Ty::Struct(f, _) => V::A(Rc::new(
            f.iter().enumerate().map(|(k, t)| get_val(o, off + ty.field_off(k) as usize, t)).collect(),
        )),
        _ => {
            let n = ty.store_size() as usize;
            let w = ty.bits();
            if !o.symbolic(off, n) {
                let mut v: u128 = 0;
                for k in (0..n.min(16)).rev() {
                    v = (v << 8) | o.b[off + k] as u128;
                }
                if n <= 16 {
                    return V::I(konst(v, w));
                }
            }
            let mut e = o.get(off);
            for k in 1..n {
                e = cat(o.get(off + k), e);
            }
            V::I(if width(e) > w { extract(e, 0, w) } else { e })
        }
    }
}

pub fn put_val(o: &mut Obj, off: usize, ty: &Ty, v: &V) {
    match (ty, v) {
        (Ty::Arr(_, t), V::A(a)) => {
            let s = t.size() as usize;
            for (k, x) in a.iter().enumerate() {
                put_val(o, off + k * s, t, x);
            }
        }
        (Ty::Vec(_, t), V::A(a)) if t.bits() % 8 == 0 => {
            let s = (t.bits() / 8) as usize;
            for (k, x) in a.iter().enumerate() {
                put_val(o, off + k * s, t, x);
            }
        }
        (Ty::Vec(..), V::A(_)) => {
            let n = ty.store_size() as u32;
            let e = to_bits(ty, v);
            put_val(o, off, &Ty::Int(n * 8), &V::I(zext(e, n * 8)));
        }
        (Ty::Struct(f, _), V::A(a)) => {
            for (k, t) in f.iter().enumerate() {
                put_val(o, off + ty.field_off(k) as usize, t, &a[k]);
            }
        }
        (_, V::I(e)) => {
            let n = ty.store_size() as usize;
            if let E::C(x, _) = e {
                for k in 0..n {
                    o.b[off + k] = if k < 8 { (x >> (8 * k)) as u8 } else { 0 };
                }
                if !o.s.is_empty() {
                    o.s[off..off + n].fill(0);
                }
                return;
            }
            let e = if (width(*e) as usize) < n * 8 { zext(*e, n as u32 * 8) } else { *e };
            for k in 0..n {
                o.put(off + k, piece(e, 8 * k as u32, 8));
            }
        }
        _ => panic!("unsupported: store of mismatched value"),
    }
}

/// A readable form of a legacy-mangled name.
pub fn short(n: &str) -> String {
    let Some(mut r) = n.strip_prefix("_ZN") else { return n.to_string() };
    let mut out = vec![];
    loop {
        let d: String = r.chars().take_while(|c| c.is_ascii_digit()).collect();
        if d.is_empty() {
            break;
        }
        let k: usize = d.parse().unwrap();
        r = &r[d.len()..];
        if k > r.len() || !r.is_char_boundary(k) {
            break;
        }
        out.push(&r[..k]);
        r = &r[k..];
    }
    if out.last().map(|s| s.len() == 17 && s.starts_with('h')).unwrap_or(false) {
        out.pop();
    }
    out.join("::")
        .replace("$LT$", "<")
        .replace("$GT$", ">")
        .replace("$u20$", " ")
        .replace("$RF$", "&")
        .replace("$C$", ",")
        .replace("$u7b$", "{")
        .replace("$u7d$", "}")
        .replace("..", "::")
}
