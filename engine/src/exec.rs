//! Path-wise symbolic execution. Registers and memory hold concrete values or expressions over the symbolic input
//! bytes; Z3 decides which way each symbolic branch can go, and whether a failing outcome is reachable.
use crate::expr::{fold, mask, sx, Arena, Id, Model, Node, Op};
use crate::prog::*;
use crate::smt::{Res, Smt};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    data: Vec<u8>,
    /// Symbolic bytes: byte k of expression.
    sym: BTreeMap<u32, (Id, u8)>,
    konst: bool,
    heap: bool,
    freed: bool,
}
#[derive(Clone)]
struct Frame {
    f: Rc<Func>,
    bb: u32,
    ip: u32,
    regs: Vec<V>,
    allocas: Vec<u32>,
    dst: u32,
    normal: Option<u32>,
}
#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    objs: Vec<Option<Rc<Obj>>>,
    free_ids: Vec<u32>,
    cons: Vec<Id>,
    /// Bits of the input bytes that the path condition fixes: (which, to what).
    known: Vec<(u8, u8)>,
    model: Rc<Model>,
    nsym: u32,
    steps: u64,
    covers: BTreeSet<u32>,
    out: Vec<V>,
    heap_live: i64,
    heap_peak: i64,
    forks: u32,
}

pub enum Stop {
    Done,
    Assumed,
    Violation(String, String),
    Unsupported(String),
    Limit(String),
}
type R<X> = Result<X, Stop>;

pub struct Violation { pub kind: String, pub msg: String, pub input: Vec<u8>, pub at: String, pub trace: Vec<String> }
pub struct PathSample { pub input: Vec<u8>, pub out: Vec<u8>, pub steps: u64, pub conds: usize, pub end: &'static str }

pub struct Limits { pub paths: u64, pub steps: u64, pub seconds: f64, pub depth: usize, pub samples: usize, pub max_violations: usize, pub param: u64, pub linger: f64, pub alloc: u64, pub expected: Vec<String> }

pub struct Engine {
    pub p: Prog,
    pub ar: Arena,
    pub smt: Smt,
    work: Vec<State>,
    gcache: HashMap<u32, Rc<Obj>>,
    lim: Limits,
    pub strings: Vec<String>,
    string_idx: HashMap<String, u32>,
    pub paths: u64,
    pub pruned: u64,
    pub forks: u64,
    pub steps: u64,
    pub cond_branches: u64,
    pub violations: Vec<Violation>,
    qcache: HashMap<Vec<Id>, Option<Rc<Vec<u8>>>>,
    envs: HashMap<Vec<(u8, u8)>, u32>,
    substs: HashMap<(Id, u32), Id>,
    pub cache_hits: u64,
    vio_seen: BTreeSet<(String, String, String)>,
    pub vio_count: u64,
    pub covers: BTreeMap<String, (u64, Vec<u8>)>,
    pub samples: Vec<PathSample>,
    pub incomplete: Option<String>,
    pub loc_hit: Vec<bool>,
    pub fn_hit: BTreeSet<usize>,
    pub max_inputs: u32,
    pub max_conds: usize,
    start: std::time::Instant,
    kind: Vec<Option<Callee>>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Callee {
    Normal, Nop, Memcpy, Memmove, Memset, Assume, Ovf(Op, bool), Ctpop, Ctlz, Cttz, Bswap, Bitrev, Min(bool), Max(bool), Abs,
    Sat(Op, bool), Fsh(bool), Cmp3(bool), Trap, Arg0, Zero, Bcmp, Memcmp, Strlen,
    Malloc, Calloc, Realloc, Free, PosixMemalign, RAlloc, RAllocZ, RDealloc, RRealloc,
    Panic, ScxBytes, ScxAssume, ScxFail, ScxCover, ScxOut, ScxConcrete, ScxSymbolic, ScxHeapPeak, ScxSteps, ScxParam, ScxHeapReset, Reduce(Op), Unknown,
    /// Decimal formatting of an integer: empty when the integer is symbolic (formatting is never the subject).
    FmtNum, FmtNumInner,
}

fn classify(n: &str, decl: bool) -> Callee {
    use Callee::*;
    if n.contains("_4core3fmt3num") && !decl {
        if n.ends_with("4__fmt") { return FmtNum }
        if n.ends_with("10__fmt_inner") { return FmtNumInner }
    }
    match n {
        "scx_bytes" => return ScxBytes, "scx_assume" => return ScxAssume, "scx_fail" => return ScxFail, "scx_cover" => return ScxCover,
        "scx_out" => return ScxOut, "scx_concrete" => return ScxConcrete, "scx_is_symbolic" => return ScxSymbolic,
        "scx_heap_peak" => return ScxHeapPeak, "scx_steps" => return ScxSteps, "scx_param" => return ScxParam, "scx_heap_reset" => return ScxHeapReset,
        "bcmp" => return Bcmp, "memcmp" => return Memcmp, "strlen" => return Strlen, "memcpy" => return Memcpy, "memmove" => return Memmove, "memset" => return Memset,
        "malloc" => return Malloc, "calloc" => return Calloc, "realloc" => return Realloc, "free" => return Free, "posix_memalign" => return PosixMemalign,
        "abort" => return Trap,
        _ => {}
    }
    if let Some(r) = n.strip_prefix("llvm.") {
        let h = |p: &str| r.starts_with(p);
        return if h("lifetime.") || h("dbg.") || h("experimental.noalias") || h("x86.sse2.pause") || h("donothing") || h("prefetch") || h("invariant.") || h("stackrestore") { Nop }
        else if h("memcpy.") { Memcpy } else if h("memmove.") { Memmove } else if h("memset.") { Memset }
        else if h("assume") { Assume }
        else if h("uadd.with") { Ovf(Op::Add, false) } else if h("sadd.with") { Ovf(Op::Add, true) }
        else if h("usub.with") { Ovf(Op::Sub, false) } else if h("ssub.with") { Ovf(Op::Sub, true) }
        else if h("umul.with") { Ovf(Op::Mul, false) } else if h("smul.with") { Ovf(Op::Mul, true) }
        else if h("ctpop.") { Ctpop } else if h("ctlz.") { Ctlz } else if h("cttz.") { Cttz } else if h("bswap.") { Bswap } else if h("bitreverse.") { Bitrev }
        else if h("umin.") { Min(false) } else if h("smin.") { Min(true) } else if h("umax.") { Max(false) } else if h("smax.") { Max(true) }
        else if h("abs.") { Abs }
        else if h("uadd.sat") { Sat(Op::Add, false) } else if h("usub.sat") { Sat(Op::Sub, false) } else if h("sadd.sat") { Sat(Op::Add, true) } else if h("ssub.sat") { Sat(Op::Sub, true) }
        else if h("fshl.") { Fsh(true) } else if h("fshr.") { Fsh(false) }
        else if h("ucmp.") { Cmp3(false) } else if h("scmp.") { Cmp3(true) }
        else if h("trap") || h("ubsantrap") { Trap }
        else if h("threadlocal.address") || h("expect.") || h("launder.") || h("strip.") || h("ssa.copy") { Arg0 }
        else if h("is.constant") { Zero }
        else if h("vector.reduce.add") { Reduce(Op::Add) } else if h("vector.reduce.or") { Reduce(Op::Or) } else if h("vector.reduce.and") { Reduce(Op::And) } else if h("vector.reduce.xor") { Reduce(Op::Xor) }
        else { Unknown };
    }
    if n.ends_with("___rust_alloc") { return RAlloc }
    if n.ends_with("___rust_alloc_zeroed") { return RAllocZ }
    if n.ends_with("___rust_dealloc") { return RDealloc }
    if n.ends_with("___rust_realloc") { return RRealloc }
    if n.ends_with("___rust_no_alloc_shim_is_unstable_v2") { return Nop }
    if n.contains("4core9panicking") || n.ends_with("17rust_begin_unwind") || n.contains("18handle_alloc_error") || n.contains("17handle_alloc_error") || n.contains("9panicking11begin_panic") || n.contains("9panicking20rust_panic_with_hook") { return Panic }
    if n.contains("6option13expect_failed") || n.contains("6option13unwrap_failed") || n.contains("6result13unwrap_failed") || n.contains("7raw_vec12handle_error") || n.contains("7raw_vec17capacity_overflow") { return Panic }
    if decl { Unknown } else { Normal }
}

/// Natural name of a panicking function, from its mangled name.
fn short(n: &str) -> String {
    // v0 mangling: take the last identifier before any generic part.
    let b = n.as_bytes();
    let mut i = 0;
    let mut ids: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_digit()) {
            let mut j = i;
            let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() && j - i < 3 { k = k * 10 + (b[j] - b'0') as usize; j += 1 }
            if j < b.len() && b[j] == b'_' { j += 1 }
            if k > 0 && j + k <= b.len() && b[j..j + k].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') && b[j].is_ascii_alphabetic() | (b[j] == b'_') {
                ids.push(String::from_utf8_lossy(&b[j..j + k]).to_string());
                i = j + k;
                continue;
            }
        }
        i += 1;
    }
    if let Some(p) = ids.iter().position(|s| s == "panicking") { if let Some(x) = ids.get(p + 1) { return x.clone() } }
    ids.into_iter().rev().find(|s| s.contains("failed") || s.contains("error") || s.contains("panic") || s.contains("overflow")).unwrap_or(n.to_string())
}

impl Engine {
    pub fn new(p: Prog, smt: Smt, lim: Limits) -> Self {
        let n = p.funcs.len();
        Engine {
            p, ar: Arena::new(), smt, work: vec![], gcache: HashMap::new(), lim, strings: vec![], string_idx: HashMap::new(),
            paths: 0, pruned: 0, forks: 0, steps: 0, cond_branches: 0, violations: vec![], qcache: HashMap::new(), envs: HashMap::new(), substs: HashMap::new(), cache_hits: 0, vio_seen: BTreeSet::new(), vio_count: 0,
            covers: BTreeMap::new(), samples: vec![], incomplete: None, loc_hit: vec![], fn_hit: BTreeSet::new(), max_inputs: 0, max_conds: 0,
            start: std::time::Instant::now(), kind: vec![None; n],
        }
    }

    fn id(&mut self, v: &V, w: u32) -> Id { match v { V::C(c) => self.ar.c(*c, w), V::E(i) => *i, V::A(_) => panic!("aggregate as scalar") } }
    fn v(&self, i: Id) -> V { match self.ar.n(i) { Node::Const(c) => V::C(c), _ => V::E(i) } }
    fn intern(&mut self, s: String) -> u32 {
        if let Some(&i) = self.string_idx.get(&s) { return i }
        let i = self.strings.len() as u32;
        self.strings.push(s.clone());
        self.string_idx.insert(s, i);
        i
    }

    // ---- solver -------------------------------------------------------------------------------------------------
    fn feasible(&mut self, st: &State, q: Id) -> R<Option<Rc<Model>>> {
        if let Some(c) = self.ar.as_const(q) { return Ok(if c == 1 { Some(st.model.clone()) } else { None }) }
        if self.ar.eval(q, &st.model) == 1 { return Ok(Some(st.model.clone())) }
        let nq = self.ar.not(q);
        if st.cons.contains(&nq) { return Ok(None) }
        // Only the constraints that (transitively) share input bytes with the query matter: the others are
        // satisfied by the current model, whose bytes are kept for them.
        let mut bits = self.ar.syms[q as usize];
        let mut take = vec![false; st.cons.len()];
        loop {
            let mut grew = false;
            for (i, &c) in st.cons.iter().enumerate() {
                let s = self.ar.syms[c as usize];
                if !take[i] && s & bits != 0 { take[i] = true; if s & !bits != 0 { bits |= s; grew = true } }
            }
            if !grew { break }
        }
        let slice: Vec<Id> = st.cons.iter().zip(&take).filter(|x| *x.1).map(|x| *x.0).collect();
        let mut key = slice.clone();
        key.sort_unstable();
        key.push(q);
        let res = match self.qcache.get(&key) {
            Some(Some(b)) => { self.cache_hits += 1; Res::Sat((**b).clone()) }
            Some(None) => { self.cache_hits += 1; Res::Unsat }
            None => {
                let r = self.smt.check(&self.ar, &slice, q, 128);
                match &r {
                    Res::Sat(b) => { self.qcache.insert(key, Some(Rc::new(b.clone()))); }
                    Res::Unsat => { self.qcache.insert(key, None); }
                    Res::Unknown => {}
                }
                r
            }
        };
        match res {
            Res::Sat(b) => {
                let mut n = st.model.bytes.clone();
                n.resize(st.nsym as usize, 0);
                for k in 0..st.nsym as usize { if bits >> k & 1 == 1 { n[k] = b[k] } }
                let m = Rc::new(Model::new(n));
                // Every model is checked against the path condition by evaluation.
                for &c in &st.cons { if self.ar.eval(c, &m) != 1 { return Err(Stop::Unsupported("solver model does not satisfy the path condition".into())) } }
                if self.ar.eval(q, &m) != 1 { return Err(Stop::Unsupported("solver model does not satisfy the query".into())) }
                Ok(Some(m))
            }
            Res::Unsat => Ok(None),
            Res::Unknown => Err(Stop::Limit("solver gave no answer in time".into())),
        }
    }
    /// Add a condition to a path, and learn the input bits it fixes.
    fn assume(&mut self, st: &mut State, c: Id) {
        st.cons.push(c);
        self.learn(st, c);
    }
    fn learn(&mut self, st: &mut State, c: Id) {
        match self.ar.n(c) {
            Node::Bin(Op::And, a, b) if self.ar.w(c) == 1 => { self.learn(st, a); self.learn(st, b) }
            Node::Eq(a, b) => if let Some(k) = self.ar.as_const(b) { self.fix(st, a, k) },
            Node::Not(a) => self.fix(st, a, 0),
            _ => self.fix(st, c, 1),
        }
    }
    fn fix(&mut self, st: &mut State, a: Id, k: u128) {
        match self.ar.n(a) {
            Node::Sym(s) => self.fix_bits(st, s, 0xff, k as u8),
            Node::Extract(x, lo) => if let Node::Sym(s) = self.ar.n(x) {
                let m = (mask(self.ar.w(a)) as u8) << lo;
                self.fix_bits(st, s, m, ((k as u8) << lo) & m);
            },
            Node::Concat(h, l) => { let w = self.ar.w(l); self.fix(st, h, k >> w); self.fix(st, l, k & mask(w)) }
            _ => {}
        }
    }
    fn fix_bits(&mut self, st: &mut State, s: u32, m: u8, v: u8) {
        if st.known.len() <= s as usize { st.known.resize(s as usize + 1, (0, 0)) }
        let e = &mut st.known[s as usize];
        *e = (e.0 | m, (e.1 & !m) | v);
    }
    /// The expression with the input bits fixed by this path put in.
    fn subst(&mut self, st: &State, i: Id) -> Id {
        let s = self.ar.syms[i as usize];
        if s == 0 || !st.known.iter().enumerate().any(|(k, e)| e.0 != 0 && s >> k & 1 == 1) { return i }
        let key: Vec<(u8, u8)> = st.known.iter().enumerate().map(|(k, e)| if s >> k & 1 == 1 { *e } else { (0, 0) }).collect();
        let n = self.envs.len() as u32;
        let env = *self.envs.entry(key).or_insert(n);
        self.subst_in(st, i, env)
    }
    fn subst_in(&mut self, st: &State, i: Id, env: u32) -> Id {
        let s = self.ar.syms[i as usize];
        if s == 0 { return i }
        if let Some(&r) = self.substs.get(&(i, env)) { return r }
        let w = self.ar.w(i);
        let r = match self.ar.n(i) {
            Node::Const(_) => i,
            Node::Sym(k) => match st.known.get(k as usize) {
                None | Some((0, _)) => i,
                Some(&(m, v)) => {
                    let mut acc: Option<Id> = None;
                    let mut lo = 0u32;
                    while lo < 8 {
                        let b = m >> lo & 1;
                        let mut hi = lo;
                        while hi < 8 && m >> hi & 1 == b { hi += 1 }
                        let p = if b == 1 { self.ar.c((v >> lo) as u128, hi - lo) } else { self.ar.extract(i, lo, hi - lo) };
                        acc = Some(match acc { None => p, Some(l) => self.ar.concat(p, l) });
                        lo = hi;
                    }
                    acc.unwrap()
                }
            },
            Node::Bin(o, a, b) => { let (x, y) = (self.subst_in(st, a, env), self.subst_in(st, b, env)); if (x, y) == (a, b) { i } else { self.ar.bin(o, x, y) } }
            Node::Not(a) => { let x = self.subst_in(st, a, env); self.ar.not(x) }
            Node::SExt(a) => { let x = self.subst_in(st, a, env); if x == a { i } else { self.ar.sext(x, w) } }
            Node::Extract(a, lo) => { let x = self.subst_in(st, a, env); if x == a { i } else { self.ar.extract(x, lo as u32, w) } }
            Node::Concat(a, b) => { let (x, y) = (self.subst_in(st, a, env), self.subst_in(st, b, env)); if (x, y) == (a, b) { i } else { self.ar.concat(x, y) } }
            Node::Ite(c, a, b) => { let (k, x, y) = (self.subst_in(st, c, env), self.subst_in(st, a, env), self.subst_in(st, b, env)); if (k, x, y) == (c, a, b) { i } else { self.ar.ite(k, x, y) } }
            Node::Eq(a, b) => { let (x, y) = (self.subst_in(st, a, env), self.subst_in(st, b, env)); if (x, y) == (a, b) { i } else { self.ar.eq(x, y) } }
            Node::Ult(a, b) => { let (x, y) = (self.subst_in(st, a, env), self.subst_in(st, b, env)); if (x, y) == (a, b) { i } else { self.ar.ult(x, y) } }
            Node::Slt(a, b) => { let (x, y) = (self.subst_in(st, a, env), self.subst_in(st, b, env)); if (x, y) == (a, b) { i } else { self.ar.slt(x, y) } }
        };
        self.substs.insert((i, env), r);
        r
    }
    /// Decide a 1-bit condition on this path. If both ways are possible the other way is returned as a new state.
    fn split(&mut self, st: &mut State, c: Id) -> R<(bool, Option<State>)> {
        if let Some(k) = self.ar.as_const(c) { return Ok((k == 1, None)) }
        self.cond_branches += 1;
        let c = self.subst(st, c);
        if let Some(k) = self.ar.as_const(c) { return Ok((k == 1, None)) }
        let v = self.ar.eval(c, &st.model) == 1;
        let (this, other) = { let n = self.ar.not(c); if v { (c, n) } else { (n, c) } };
        if st.cons.contains(&this) { return Ok((v, None)) }
        match self.feasible(st, other)? {
            None => Ok((v, None)),
            Some(m) => {
                let mut o = st.clone();
                self.assume(&mut o, other);
                o.model = m;
                o.forks += 1;
                self.assume(st, this);
                st.forks += 1;
                self.forks += 1;
                Ok((v, Some(o)))
            }
        }
    }
    /// Make a value concrete, leaving every other feasible value to new states that retry this instruction.
    fn concrete(&mut self, st: &mut State, v: &V, w: u32) -> R<u128> {
        match v {
            V::C(c) => Ok(*c),
            V::E(i) => {
                let i = self.subst(st, *i);
                if let Some(k) = self.ar.as_const(i) { return Ok(k) }
                let val = self.ar.eval(i, &st.model);
                let k = self.ar.c(val, w);
                let eq = self.ar.eq(i, k);
                let (r, o) = self.split(st, eq)?;
                debug_assert!(r);
                if let Some(o) = o { self.work.push(o) }
                Ok(val)
            }
            V::A(_) => Err(Stop::Unsupported("aggregate where a scalar is needed".into())),
        }
    }

    // ---- memory -------------------------------------------------------------------------------------------------
    fn obj(&mut self, st: &mut State, oid: u32, what: &str) -> R<()> {
        if oid as usize >= st.objs.len() || oid == 0 { return Err(Stop::Violation("memory".into(), format!("{what} through an invalid pointer"))) }
        if st.objs[oid as usize].is_none() {
            let n = self.p.globals.len();
            if oid as usize > n { return Err(Stop::Violation("memory".into(), format!("{what} through a dangling pointer"))) }
            let o = match self.gcache.get(&oid) {
                Some(o) => o.clone(),
                None => {
                    let data = self.p.global_bytes(oid as usize).map_err(Stop::Unsupported)?;
                    let o = Rc::new(Obj { data, sym: BTreeMap::new(), konst: self.p.globals[oid as usize - 1].konst, heap: false, freed: false });
                    self.gcache.insert(oid, o.clone());
                    o
                }
            };
            st.objs[oid as usize] = Some(o);
        }
        if st.objs[oid as usize].as_ref().unwrap().freed { return Err(Stop::Violation("memory".into(), format!("{what} of freed memory"))) }
        Ok(())
    }
    fn check(&mut self, st: &mut State, addr: u64, n: u64, what: &str) -> R<(usize, usize)> {
        let (oid, off) = ((addr >> 32) as u32, addr & 0xffff_ffff);
        self.obj(st, oid, what)?;
        let len = st.objs[oid as usize].as_ref().unwrap().data.len() as u64;
        if off + n > len { return Err(Stop::Violation("memory".into(), format!("{what} of {n} bytes at offset {off} of an object of {len} bytes"))) }
        Ok((oid as usize, off as usize))
    }
    fn load_int(&mut self, st: &mut State, addr: u64, bits: u32) -> R<V> {
        let n = (bits as usize + 7) / 8;
        let (o, off) = self.check(st, addr, n as u64, "read")?;
        let ob = st.objs[o].as_ref().unwrap().clone();
        if ob.sym.is_empty() || ob.sym.range(off as u32..(off + n) as u32).next().is_none() {
            let mut b = [0u8; 16];
            if n > 16 { return Err(Stop::Unsupported(format!("load of i{bits}"))) }
            b[..n].copy_from_slice(&ob.data[off..off + n]);
            return Ok(V::C(u128::from_le_bytes(b) & mask(bits)));
        }
        if n > 16 { return Err(Stop::Unsupported(format!("load of i{bits}"))) }
        let mut acc: Option<Id> = None;
        let mut i = 0;
        while i < n {
            let k = (off + i) as u32;
            let piece;
            match ob.sym.get(&k) {
                None => { piece = self.ar.c(ob.data[off + i] as u128, 8); i += 1 }
                Some(&(e, b)) => {
                    let mut j = 1;
                    while i + j < n && ob.sym.get(&(k + j as u32)) == Some(&(e, b + j as u8)) && (b as u32 + j as u32 + 1) * 8 <= self.ar.w(e).max(8) { j += 1 }
                    let we = self.ar.w(e);
                    piece = if we < 8 || we % 8 != 0 {
                        let z = self.ar.zext(e, (we + 7) / 8 * 8);
                        self.ar.extract(z, b as u32 * 8, j as u32 * 8)
                    } else { self.ar.extract(e, b as u32 * 8, j as u32 * 8) };
                    i += j;
                }
            }
            acc = Some(match acc { None => piece, Some(l) => self.ar.concat(piece, l) });
        }
        let r = acc.unwrap();
        let r = self.ar.extract(r, 0, bits);
        Ok(self.v(r))
    }
    fn wobj<'a>(&mut self, st: &'a mut State, o: usize) -> &'a mut Obj {
        Rc::make_mut(st.objs[o].as_mut().unwrap())
    }
    fn put_expr(&mut self, ob: &mut Obj, off: u32, e: Id, bits: u32) {
        // Spread an expression over bytes, keeping constants concrete.
        match self.ar.n(e) {
            Node::Const(c) => {
                let n = (bits as usize + 7) / 8;
                ob.data[off as usize..off as usize + n].copy_from_slice(&c.to_le_bytes()[..n]);
                for k in 0..n as u32 { ob.sym.remove(&(off + k)); }
            }
            Node::Concat(h, l) if self.ar.w(l) % 8 == 0 => {
                let (wh, wl) = (self.ar.w(h), self.ar.w(l));
                self.put_expr(ob, off, l, wl);
                self.put_expr(ob, off + wl / 8, h, wh);
            }
            _ => for k in 0..(bits + 7) / 8 { ob.sym.insert(off + k, (e, k as u8)); },
        }
    }
    fn store_int(&mut self, st: &mut State, addr: u64, bits: u32, v: &V) -> R<()> {
        let n = (bits as usize + 7) / 8;
        let (o, off) = self.check(st, addr, n as u64, "write")?;
        if st.objs[o].as_ref().unwrap().konst { return Err(Stop::Violation("memory".into(), "write to constant memory".into())) }
        let mut ob = std::mem::replace(&mut st.objs[o], None).unwrap();
        {
            let m = Rc::make_mut(&mut ob);
            match v {
                V::C(c) => {
                    m.data[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]);
                    if !m.sym.is_empty() { for k in 0..n as u32 { m.sym.remove(&(off as u32 + k)); } }
                }
                V::E(e) => {
                    let e = if bits % 8 != 0 { self.ar.zext(*e, n as u32 * 8) } else { *e };
                    self.put_expr(m, off as u32, e, n as u32 * 8);
                }
                V::A(_) => return Err(Stop::Unsupported("aggregate store".into())),
            }
        }
        st.objs[o] = Some(ob);
        Ok(())
    }
    fn load(&mut self, st: &mut State, addr: u64, t: &T) -> R<V> {
        match t {
            T::Int(_) | T::Ptr | T::Float(_) => self.load_int(st, addr, t.bits()),
            T::Struct(f, _) => { let mut r = vec![]; for (o, ft) in f.iter() { r.push(self.load(st, addr + o, ft)?) } Ok(V::A(Rc::new(r))) }
            T::Array(e, n, s) => { let mut r = vec![]; for i in 0..*n { r.push(self.load(st, addr + i * s, e)?) } Ok(V::A(Rc::new(r))) }
            T::Vector(e, n) => {
                let b = e.bits();
                if b % 8 != 0 { return Err(Stop::Unsupported("load of a bit vector".into())) }
                let mut r = vec![];
                for i in 0..*n { r.push(self.load_int(st, addr + i * (b as u64 / 8), b)?) }
                Ok(V::A(Rc::new(r)))
            }
            _ => Err(Stop::Unsupported(format!("load of {t:?}"))),
        }
    }
    fn store(&mut self, st: &mut State, addr: u64, t: &T, v: &V) -> R<()> {
        match (t, v) {
            (T::Int(_) | T::Ptr | T::Float(_), _) => self.store_int(st, addr, t.bits(), v),
            (T::Struct(f, _), V::A(x)) => { for (i, (o, ft)) in f.iter().enumerate() { self.store(st, addr + o, ft, &x[i])? } Ok(()) }
            (T::Array(e, _, s), V::A(x)) => { for (i, y) in x.iter().enumerate() { self.store(st, addr + i as u64 * s, e, y)? } Ok(()) }
            (T::Vector(e, _), V::A(x)) => {
                let b = e.bits();
                if b % 8 != 0 { return Err(Stop::Unsupported("store of a bit vector".into())) }
                for (i, y) in x.iter().enumerate() { self.store_int(st, addr + i as u64 * (b as u64 / 8), b, y)? }
                Ok(())
            }
            _ => Err(Stop::Unsupported(format!("store of {t:?}"))),
        }
    }
    /// A load through a symbolic address.
    fn load_sym(&mut self, st: &mut State, e: Id, t: &T) -> R<V> {
        let sz = t.size();
        let a0 = self.ar.eval(e, &st.model) as u64;
        let oid = (a0 >> 32) as u32;
        if t.is_scalar() && oid != 0 && (a0 as u128) < FUNC_BASE as u128 && self.obj(st, oid, "read").is_ok() {
            let len = st.objs[oid as usize].as_ref().unwrap().data.len() as u64;
            if sz <= len {
                // Does the address stay inside this object?
                let base = self.ar.c((oid as u128) << 32, 64);
                let off = self.ar.bin(Op::Sub, e, base);
                let lim = self.ar.c((len - sz + 1) as u128, 64);
                let inb = self.ar.ult(off, lim);
                let (r, o) = self.split(st, inb)?;
                if let Some(o) = o { self.work.push(o) }
                if r {
                    let stride = 1u64 << self.ar.tz(off).min(12);
                    let n = (len - sz) / stride + 1;
                    if n <= 300 && len <= 4096 {
                        let mut acc: Option<Id> = None;
                        for k in (0..n).rev() {
                            let x = self.load_int(st, ((oid as u64) << 32) + k * stride, t.bits())?;
                            let x = self.id(&x, t.bits());
                            acc = Some(match acc {
                                None => x,
                                Some(r) => { let kk = self.ar.c((k * stride) as u128, 64); let c = self.ar.eq(off, kk); self.ar.ite(c, x, r) }
                            });
                        }
                        return Ok(self.v(acc.unwrap()));
                    }
                }
            }
        }
        let a = self.concrete(st, &V::E(e), 64)? as u64;
        self.load(st, a, t)
    }
    fn new_obj(&mut self, st: &mut State, size: u64, heap: bool) -> R<u64> {
        if size > self.lim.alloc { return Err(Stop::Violation("alloc".into(), format!("allocation of {size} bytes"))) }
        let o = Rc::new(Obj { data: vec![0; size as usize], sym: BTreeMap::new(), konst: false, heap, freed: false });
        if !heap { if let Some(i) = st.free_ids.pop() { st.objs[i as usize] = Some(o); return Ok((i as u64) << 32) } }
        st.objs.push(Some(o));
        if heap { st.heap_live += size as i64; st.heap_peak = st.heap_peak.max(st.heap_live) }
        Ok((st.objs.len() as u64 - 1) << 32)
    }
    fn free(&mut self, st: &mut State, a: u64) -> R<()> {
        let (oid, off) = ((a >> 32) as u32, a & 0xffff_ffff);
        self.obj(st, oid, "free")?;
        let ob = st.objs[oid as usize].as_ref().unwrap();
        if !ob.heap || off != 0 { return Err(Stop::Violation("memory".into(), "free of a pointer that is not a heap allocation".into())) }
        st.heap_live -= ob.data.len() as i64;
        st.objs[oid as usize] = Some(Rc::new(Obj { data: vec![], sym: BTreeMap::new(), konst: false, heap: true, freed: true }));
        Ok(())
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()) }
        let (so, soff) = self.check(st, s, n, "read")?;
        let src = st.objs[so].as_ref().unwrap().clone();
        let (dob, doff) = self.check(st, d, n, "write")?;
        if st.objs[dob].as_ref().unwrap().konst { return Err(Stop::Violation("memory".into(), "write to constant memory".into())) }
        let n = n as usize;
        let m = self.wobj(st, dob);
        m.data[doff..doff + n].copy_from_slice(&src.data[soff..soff + n]);
        if !m.sym.is_empty() {
            let ks: Vec<u32> = m.sym.range(doff as u32..(doff + n) as u32).map(|x| *x.0).collect();
            for k in ks { m.sym.remove(&k); }
        }
        for (k, v) in src.sym.range(soff as u32..(soff + n) as u32) { m.sym.insert(k - soff as u32 + doff as u32, *v); }
        Ok(())
    }
    fn read_str(&mut self, st: &mut State, a: u64, n: u64) -> R<String> {
        let (o, off) = self.check(st, a, n, "read")?;
        Ok(String::from_utf8_lossy(&st.objs[o].as_ref().unwrap().data[off..off + n as usize]).to_string())
    }

    // ---- values -------------------------------------------------------------------------------------------------
    #[inline]
    fn get(&self, st: &State, o: &O) -> R<V> {
        match o {
            O::R(r) => Ok(st.frames.last().unwrap().regs[*r as usize].clone()),
            O::K(v) => Ok(v.clone()),
            O::Bad(s) => Err(Stop::Unsupported((**s).clone())),
        }
    }
    fn set(&self, st: &mut State, r: u32, v: V) { st.frames.last_mut().unwrap().regs[r as usize] = v }

    fn binop(&mut self, op: Op, t: &T, a: &V, b: &V) -> R<V> {
        match (t, a, b) {
            (T::Vector(e, _), V::A(x), V::A(y)) => {
                let mut r = vec![];
                for i in 0..x.len() { r.push(self.binop(op, e, &x[i], &y[i])?) }
                Ok(V::A(Rc::new(r)))
            }
            (_, V::C(x), V::C(y)) => {
                if *y == 0 && matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) { return Err(Stop::Violation("ub".into(), "division by zero".into())) }
                Ok(V::C(fold(op, *x, *y, t.bits())))
            }
            _ => {
                let w = t.bits();
                let (x, y) = (self.id(a, w), self.id(b, w));
                let r = self.ar.bin(op, x, y);
                Ok(self.v(r))
            }
        }
    }
    fn icmp(&mut self, p: i32, t: &T, a: &V, b: &V) -> V {
        if let (T::Vector(e, _), V::A(x), V::A(y)) = (t, a, b) {
            let r = (0..x.len()).map(|i| self.icmp(p, e, &x[i], &y[i])).collect();
            return V::A(Rc::new(r));
        }
        let w = t.bits();
        if let (V::C(x), V::C(y)) = (a, b) {
            let (sx_, sy) = (sx(*x, w), sx(*y, w));
            let r = match p { 32 => x == y, 33 => x != y, 34 => x > y, 35 => x >= y, 36 => x < y, 37 => x <= y, 38 => sx_ > sy, 39 => sx_ >= sy, 40 => sx_ < sy, _ => sx_ <= sy };
            return V::C(r as u128);
        }
        let (x, y) = (self.id(a, w), self.id(b, w));
        let ar = &mut self.ar;
        let r = match p {
            32 => ar.eq(x, y),
            33 => { let e = ar.eq(x, y); ar.not(e) }
            34 => ar.ult(y, x),
            35 => { let e = ar.ult(x, y); ar.not(e) }
            36 => ar.ult(x, y),
            37 => { let e = ar.ult(y, x); ar.not(e) }
            38 => ar.slt(y, x),
            39 => { let e = ar.slt(x, y); ar.not(e) }
            40 => ar.slt(x, y),
            _ => { let e = ar.slt(y, x); ar.not(e) }
        };
        self.v(r)
    }
    fn select(&mut self, st: &mut State, ct: &T, t: &T, c: &V, a: &V, b: &V) -> R<V> {
        match (ct, c) {
            (T::Vector(..), V::A(cs)) => {
                let e = match t { T::Vector(e, _) => e.clone(), _ => return Err(Stop::Unsupported("select".into())) };
                let (x, y) = match (a, b) { (V::A(x), V::A(y)) => (x.clone(), y.clone()), _ => return Err(Stop::Unsupported("select".into())) };
                let mut r = vec![];
                for i in 0..cs.len() { r.push(self.select(st, &T::Int(1), &e, &cs[i], &x[i], &y[i])?) }
                Ok(V::A(Rc::new(r)))
            }
            (_, V::C(k)) => Ok(if *k == 1 { a.clone() } else { b.clone() }),
            (_, V::E(ci)) => match (t, a, b) {
                (T::Struct(f, _), V::A(x), V::A(y)) => {
                    let mut r = vec![];
                    for i in 0..x.len() { r.push(self.select(st, ct, &f[i].1, c, &x[i], &y[i])?) }
                    Ok(V::A(Rc::new(r)))
                }
                (T::Array(e, ..), V::A(x), V::A(y)) | (T::Vector(e, ..), V::A(x), V::A(y)) => {
                    let mut r = vec![];
                    for i in 0..x.len() { r.push(self.select(st, ct, e, c, &x[i], &y[i])?) }
                    Ok(V::A(Rc::new(r)))
                }
                (T::Ptr, V::C(x), V::C(y)) if x != y => {
                    // Choosing between two addresses: fork, so that addresses stay concrete.
                    let (r, o) = self.split(st, *ci)?;
                    if let Some(o) = o { self.work.push(o) }
                    Ok(if r { a.clone() } else { b.clone() })
                }
                _ => {
                    let w = t.bits();
                    let (x, y) = (self.id(a, w), self.id(b, w));
                    let r = self.ar.ite(*ci, x, y);
                    Ok(self.v(r))
                }
            },
            _ => Err(Stop::Unsupported("select".into())),
        }
    }
    fn flat(&mut self, t: &T, v: &V) -> R<(Vec<Id>, u32)> {
        // Elements, lowest first, each of the same width.
        Ok(match (t, v) {
            (T::Vector(e, _), V::A(x)) => { let b = e.bits(); let mut r = vec![]; for y in x.iter() { r.push(self.id(y, b)) } (r, b) }
            _ => { let b = t.bits(); (vec![self.id(v, b)], b) }
        })
    }
    fn cast(&mut self, k: Cast, from: &T, to: &T, a: &V) -> R<V> {
        if let (Cast::Trunc | Cast::ZExt | Cast::SExt, T::Vector(fe, _), T::Vector(te, _), V::A(x)) = (k, from, to, a) {
            let mut r = vec![];
            for y in x.iter() { r.push(self.cast(k, fe, te, y)?) }
            return Ok(V::A(Rc::new(r)));
        }
        if k == Cast::Bit {
            if from.is_scalar() && to.is_scalar() { return Ok(a.clone()) }
            let (el, _) = self.flat(from, a)?;
            let mut all = el[0];
            for &e in &el[1..] { all = self.ar.concat(e, all) }
            return Ok(match to {
                T::Vector(e, n) => {
                    let b = e.bits();
                    let mut r = vec![];
                    for i in 0..*n { let x = self.ar.extract(all, i as u32 * b, b); r.push(self.v(x)) }
                    V::A(Rc::new(r))
                }
                _ => self.v(all),
            });
        }
        let (fw, tw) = (from.bits(), to.bits());
        Ok(match a {
            V::C(c) => V::C(match k { Cast::Trunc => c & mask(tw), Cast::ZExt => *c, _ => sx(*c, fw) as u128 & mask(tw) }),
            V::E(i) => { let r = match k { Cast::Trunc => self.ar.extract(*i, 0, tw), Cast::ZExt => self.ar.zext(*i, tw), _ => self.ar.sext(*i, tw) }; self.v(r) }
            V::A(_) => return Err(Stop::Unsupported("cast".into())),
        })
    }

    // ---- control ------------------------------------------------------------------------------------------------
    fn jump(&mut self, st: &mut State, to: u32) -> R<()> {
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let from = fr.bb;
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vs = Vec::with_capacity(b.phis.len());
            for (d, m) in &b.phis {
                let o = m.get(&from).ok_or_else(|| Stop::Unsupported("phi".into()))?;
                vs.push((*d, self.get(st, o)?));
            }
            for (d, v) in vs { self.set(st, d, v) }
        }
        let fr = st.frames.last_mut().unwrap();
        fr.bb = to;
        fr.ip = 0;
        Ok(())
    }
    fn ret(&mut self, st: &mut State, v: Option<V>) -> R<()> {
        let fr = st.frames.pop().unwrap();
        for a in fr.allocas { st.objs[a as usize] = None; st.free_ids.push(a) }
        if st.frames.is_empty() { return Err(Stop::Done) }
        if let Some(v) = v { self.set(st, fr.dst, v) }
        match fr.normal {
            Some(b) => self.jump(st, b)?,
            None => st.frames.last_mut().unwrap().ip += 1,
        }
        Ok(())
    }
    fn push(&mut self, st: &mut State, fi: usize, args: Vec<V>, dst: u32, normal: Option<u32>) -> R<()> {
        if st.frames.len() >= self.lim.depth { return Err(Stop::Violation("recursion".into(), format!("call depth {}", self.lim.depth))) }
        let f = self.p.func(fi);
        self.fn_hit.insert(fi);
        if self.loc_hit.len() < self.p.locs.len() { self.loc_hit.resize(self.p.locs.len(), false) }
        let mut regs = vec![V::C(0); f.nregs];
        for (i, a) in args.into_iter().enumerate() { if i < f.nparams { regs[i] = a } }
        st.frames.push(Frame { f, bb: 0, ip: 0, regs, allocas: vec![], dst, normal });
        Ok(())
    }

    fn here(&self, st: &State) -> (String, Vec<String>) {
        let mut tr = vec![];
        for fr in st.frames.iter().rev().take(30) {
            let l = fr.f.blocks[fr.bb as usize].insts.get(fr.ip as usize).map(|x| x.1).unwrap_or(0);
            let (f, n) = &self.p.locs[l as usize];
            tr.push(format!("{} {}:{}", self.p.funcs[fr.f.id].name, f, n));
        }
        let at = st.frames.iter().rev().find_map(|fr| {
            let l = fr.f.blocks[fr.bb as usize].insts.get(fr.ip as usize).map(|x| x.1).unwrap_or(0);
            let (f, n) = &self.p.locs[l as usize];
            if f.is_empty() { None } else { Some(format!("{f}:{n}")) }
        }).unwrap_or_default();
        (at, tr)
    }

    pub fn run(&mut self, entry: &str) -> Result<(), String> {
        let fi = *self.p.fn_by_name.get(entry).ok_or(format!("no function {entry}"))?;
        let n = self.p.globals.len();
        let mut st = State {
            frames: vec![], objs: vec![None; n + 1], free_ids: vec![], cons: vec![], known: vec![], model: Rc::new(Model::new(vec![])), nsym: 0, steps: 0,
            covers: BTreeSet::new(), out: vec![], heap_live: 0, heap_peak: 0, forks: 0,
        };
        let _ = self.push(&mut st, fi, vec![], 0, None);
        self.work.push(st);
        self.start = std::time::Instant::now();
        while let Some(mut st) = self.work.pop() {
            if self.paths >= self.lim.paths { self.incomplete = Some(format!("path limit {}", self.lim.paths)); break }
            if self.start.elapsed().as_secs_f64() > self.lim.seconds { self.incomplete = Some(format!("time limit {} s", self.lim.seconds)); break }
            let e = loop {
                if st.steps & 0xfff == 0xfff && self.start.elapsed().as_secs_f64() > self.lim.seconds { break Stop::Limit(format!("time limit {} s", self.lim.seconds)) }
                match self.step(&mut st) { Ok(()) => {} Err(e) => break e }
            };
            self.steps += st.steps;
            self.finish(st, e);
            if self.violations.len() >= self.lim.max_violations { self.incomplete = Some("stopped after violations".into()); break }
        }
        Ok(())
    }
    fn finish(&mut self, st: State, e: Stop) {
        self.max_inputs = self.max_inputs.max(st.nsym);
        self.max_conds = self.max_conds.max(st.cons.len());
        let mut bytes = st.model.bytes.clone();
        bytes.resize(st.nsym as usize, 0);
        let end = match e {
            Stop::Assumed => { self.pruned += 1; return }
            Stop::Done => "returned",
            Stop::Violation(kind, msg) => {
                let (at, trace) = self.here(&st);
                self.vio_count += 1;
                if self.vio_seen.insert((kind.clone(), msg.clone(), if kind == "assert" { String::new() } else { at.clone() })) {
                    // Something new: no need to go on for long.
                    if !self.lim.expected.iter().any(|e| msg.contains(e.as_str())) { self.lim.seconds = self.lim.seconds.min(self.start.elapsed().as_secs_f64() + self.lim.linger) }
                    self.violations.push(Violation { kind, msg, input: bytes.clone(), at, trace });
                }
                self.paths += 1;
                return;
            }
            Stop::Unsupported(s) => {
                let (at, tr) = self.here(&st);
                self.incomplete = Some(format!("unsupported: {s} at {at} in {}", tr.first().cloned().unwrap_or_default()));
                self.paths += 1;
                self.work.clear();
                return;
            }
            Stop::Limit(s) => {
                let (at, _) = self.here(&st);
                self.incomplete = Some(format!("limit: {s} at {at}, input {}", crate::hex(&bytes)));
                self.paths += 1;
                return;
            }
        };
        self.paths += 1;
        for c in &st.covers {
            let n = self.strings[*c as usize].clone();
            let e = self.covers.entry(n).or_insert((0, bytes.clone()));
            e.0 += 1;
        }
        // Keep a spread of samples: the first ones, then every k-th.
        let every = 1 + self.paths as usize / self.lim.samples.max(1);
        if self.samples.len() < self.lim.samples || self.paths as usize % every == 0 {
            let out = st.out.iter().map(|v| match v { V::C(c) => *c as u8, V::E(i) => self.ar.eval(*i, &st.model) as u8, _ => 0 }).collect();
            let s = PathSample { input: bytes, out, steps: st.steps, conds: st.cons.len(), end };
            if self.samples.len() < self.lim.samples { self.samples.push(s) } else { let i = (self.paths as usize).wrapping_mul(2654435761) % self.lim.samples.max(1); if i < self.samples.len() { self.samples[i] = s } }
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        st.steps += 1;
        if st.steps > self.lim.steps { return Err(Stop::Violation("steps".into(), format!("more than {} instructions", self.lim.steps))) }
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let (inst, loc) = &f.blocks[fr.bb as usize].insts[fr.ip as usize];
        if *loc != 0 { self.loc_hit[*loc as usize] = true }
        macro_rules! done { ($d:expr, $v:expr) => {{ let v = $v; let fr = st.frames.last_mut().unwrap(); fr.regs[$d as usize] = v; fr.ip += 1; }} }
        macro_rules! next { () => { st.frames.last_mut().unwrap().ip += 1 } }
        match inst {
            I::Bin(d, op, t, a, b) => { let (a, b) = (self.get(st, a)?, self.get(st, b)?); let v = self.binop(*op, t, &a, &b)?; done!(*d, v) }
            I::ICmp(d, p, t, a, b) => { let (a, b) = (self.get(st, a)?, self.get(st, b)?); let v = self.icmp(*p, t, &a, &b); done!(*d, v) }
            I::Cast(d, k, from, to, a) => { let a = self.get(st, a)?; let v = self.cast(*k, from, to, &a)?; done!(*d, v) }
            I::Load(d, t, p) => {
                let p = self.get(st, p)?;
                let v = match p { V::C(a) => self.load(st, a as u64, t)?, V::E(e) => self.load_sym(st, e, t)?, _ => return Err(Stop::Unsupported("pointer".into())) };
                done!(*d, v)
            }
            I::Store(t, v, p) => {
                let (v, p) = (self.get(st, v)?, self.get(st, p)?);
                let a = self.concrete(st, &p, 64)? as u64;
                self.store(st, a, t, &v)?;
                next!()
            }
            I::Gep(d, b, off, idx) => {
                let mut acc = self.get(st, b)?;
                if let V::A(_) = acc { return Err(Stop::Unsupported("vector gep".into())) }
                if *off != 0 { acc = self.binop(Op::Add, &T::Ptr, &acc, &V::C(*off as u128))? }
                for (o, w, s) in idx {
                    let v = self.get(st, o)?;
                    let v = if *w == 64 { v } else if *w < 64 { self.cast(Cast::SExt, &T::Int(*w), &T::Int(64), &v)? } else { self.cast(Cast::Trunc, &T::Int(*w), &T::Int(64), &v)? };
                    let v = if *s == 1 { v } else { self.binop(Op::Mul, &T::Ptr, &v, &V::C(*s as u128))? };
                    acc = self.binop(Op::Add, &T::Ptr, &acc, &v)?;
                }
                done!(*d, acc)
            }
            I::Alloca(d, s, n) => {
                let n = match self.get(st, n)? { V::C(c) => c as u64, _ => return Err(Stop::Unsupported("symbolic alloca".into())) };
                let a = self.new_obj(st, s * n, false)?;
                st.frames.last_mut().unwrap().allocas.push((a >> 32) as u32);
                done!(*d, V::C(a as u128))
            }
            I::Select(d, ct, t, c, a, b) => {
                let (c, a, b) = (self.get(st, c)?, self.get(st, a)?, self.get(st, b)?);
                let v = self.select(st, ct, t, &c, &a, &b)?;
                done!(*d, v)
            }
            I::Br(b) => self.jump(st, *b)?,
            I::CondBr(c, x, y) => match self.get(st, c)? {
                V::C(k) => self.jump(st, if k == 1 { *x } else { *y })?,
                V::E(i) => {
                    let (r, o) = self.split(st, i)?;
                    if let Some(mut o) = o {
                        self.jump(&mut o, if r { *y } else { *x })?;
                        self.work.push(o);
                    }
                    self.jump(st, if r { *x } else { *y })?
                }
                _ => return Err(Stop::Unsupported("branch".into())),
            },
            I::Switch(c, w, cases, def) => match self.get(st, c)? {
                V::C(k) => { let t = cases.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*def); self.jump(st, t)? }
                V::E(i) => {
                    // Follow the case the current model takes; leave the rest, as one state, to a retry.
                    let val = self.ar.eval(i, &st.model);
                    if let Some((k, t)) = cases.iter().find(|x| x.0 == val) {
                        let kk = self.ar.c(*k, *w);
                        let c = self.ar.eq(i, kk);
                        let (_, o) = self.split(st, c)?;
                        if let Some(o) = o { self.work.push(o) }
                        self.jump(st, *t)?
                    } else {
                        let mut any = self.ar.c(0, 1);
                        for (k, _) in cases { let kk = self.ar.c(*k, *w); let e = self.ar.eq(i, kk); any = self.ar.or(any, e) }
                        let (r, o) = self.split(st, any)?;
                        debug_assert!(!r);
                        if let Some(o) = o { self.work.push(o) }
                        self.jump(st, *def)?
                    }
                }
                _ => return Err(Stop::Unsupported("switch".into())),
            },
            I::Ret(v) => { let v = match v { Some(o) => Some(self.get(st, o)?), None => None }; self.ret(st, v)? }
            I::Unreachable => return Err(Stop::Violation("ub".into(), "unreachable code reached".into())),
            I::ExtractValue(d, a, ix) => {
                let mut v = self.get(st, a)?;
                for i in ix { v = match &v { V::A(x) => x[*i as usize].clone(), _ => return Err(Stop::Unsupported("extractvalue".into())) } }
                done!(*d, v)
            }
            I::InsertValue(d, a, b, ix) => {
                let (a, b) = (self.get(st, a)?, self.get(st, b)?);
                fn ins(a: &V, b: V, ix: &[u32]) -> Option<V> {
                    if ix.is_empty() { return Some(b) }
                    match a { V::A(x) => { let mut y = (**x).clone(); y[ix[0] as usize] = ins(&x[ix[0] as usize], b, &ix[1..])?; Some(V::A(Rc::new(y))) } _ => None }
                }
                let v = ins(&a, b, ix).ok_or(Stop::Unsupported("insertvalue".into()))?;
                done!(*d, v)
            }
            I::Move(d, a) => { let v = self.get(st, a)?; done!(*d, v) }
            I::Nop => next!(),
            I::Rmw(d, op, t, p, v) => {
                let (p, v) = (self.get(st, p)?, self.get(st, v)?);
                let a = self.concrete(st, &p, 64)? as u64;
                let old = self.load(st, a, t)?;
                let new = match op {
                    0 => v, 1 => self.binop(Op::Add, t, &old, &v)?, 2 => self.binop(Op::Sub, t, &old, &v)?, 3 => self.binop(Op::And, t, &old, &v)?,
                    5 => self.binop(Op::Or, t, &old, &v)?, 6 => self.binop(Op::Xor, t, &old, &v)?,
                    _ => return Err(Stop::Unsupported(format!("atomicrmw {op}"))),
                };
                self.store(st, a, t, &new)?;
                done!(*d, old)
            }
            I::CmpXchg(d, t, p, c, n) => {
                let (p, c, n) = (self.get(st, p)?, self.get(st, c)?, self.get(st, n)?);
                let a = self.concrete(st, &p, 64)? as u64;
                let old = self.load(st, a, t)?;
                let eq = self.icmp(32, t, &old, &c);
                let eq = self.concrete(st, &eq, 1)?;
                if eq == 1 { self.store(st, a, t, &n)? }
                done!(*d, V::A(Rc::new(vec![old, V::C(eq)])))
            }
            I::Shuffle(d, a, b, n, m) => {
                let (a, b) = (self.get(st, a)?, self.get(st, b)?);
                let (x, y) = match (a, b) { (V::A(x), V::A(y)) => (x, y), _ => return Err(Stop::Unsupported("shuffle".into())) };
                let r = m.iter().map(|&i| if i < 0 { V::C(0) } else if (i as u64) < *n { x[i as usize].clone() } else { y[i as usize - *n as usize].clone() }).collect();
                done!(*d, V::A(Rc::new(r)))
            }
            I::ExtractElement(d, a, i) => {
                let (a, i) = (self.get(st, a)?, self.get(st, i)?);
                let i = self.concrete(st, &i, 64)?;
                let v = match a { V::A(x) => x[i as usize].clone(), _ => return Err(Stop::Unsupported("extractelement".into())) };
                done!(*d, v)
            }
            I::InsertElement(d, a, b, i) => {
                let (a, b, i) = (self.get(st, a)?, self.get(st, b)?, self.get(st, i)?);
                let i = self.concrete(st, &i, 64)?;
                let v = match a { V::A(x) => { let mut y = (*x).clone(); y[i as usize] = b; V::A(Rc::new(y)) } _ => return Err(Stop::Unsupported("insertelement".into())) };
                done!(*d, v)
            }
            I::Call { dst, ret, callee, direct, args, normal } => {
                let fi = match direct {
                    Some(i) => *i,
                    None => {
                        let c = self.get(st, callee)?;
                        let a = self.concrete(st, &c, 64)? as u64;
                        let i = a.wrapping_sub(FUNC_BASE) >> 4;
                        if a < FUNC_BASE || i as usize >= self.p.funcs.len() { return Err(Stop::Violation("memory".into(), "call through an invalid pointer".into())) }
                        i as usize
                    }
                };
                let mut av = Vec::with_capacity(args.len());
                for (o, _) in args { av.push(self.get(st, o)?) }
                let kind = match self.kind[fi] { Some(k) => k, None => { let k = classify(&self.p.funcs[fi].name, self.p.funcs[fi].decl); self.kind[fi] = Some(k); k } };
                let number = matches!(kind, Callee::FmtNum | Callee::FmtNumInner) && !(av.len() == 3 && matches!(av[0], V::E(_)));
                if kind == Callee::Normal || number { return self.push(st, fi, av, *dst, *normal) }
                let tys: Vec<&T> = args.iter().map(|x| &x.1).collect();
                let v = self.builtin(st, kind, fi, &av, &tys, ret)?;
                if let Some(v) = v { self.set(st, *dst, v) }
                match normal { Some(b) => self.jump(st, *b)?, None => next!() }
            }
            I::Unsupported(s) => return Err(Stop::Unsupported(s.clone())),
        }
        Ok(())
    }

    fn builtin(&mut self, st: &mut State, k: Callee, fi: usize, a: &[V], t: &[&T], ret: &T) -> R<Option<V>> {
        use Callee::*;
        // Lift scalar intrinsics over vectors.
        if let (T::Vector(e, n), Ovf(..) | Ctpop | Ctlz | Cttz | Bswap | Bitrev | Min(_) | Max(_) | Abs | Sat(..) | Fsh(_)) = (ret, k) {
            let mut r = vec![];
            for i in 0..*n as usize {
                let ai: Vec<V> = a.iter().map(|v| match v { V::A(x) => x[i].clone(), v => v.clone() }).collect();
                let ti: Vec<&T> = t.iter().map(|t| match t { T::Vector(e, _) => &**e, t => *t }).collect();
                r.push(self.builtin(st, k, fi, &ai, &ti, e)?.unwrap());
            }
            return Ok(Some(V::A(Rc::new(r))));
        }
        let w = t.first().filter(|t| t.is_scalar()).map(|t| t.bits()).unwrap_or(0);
        macro_rules! c { ($i:expr, $w:expr) => { self.concrete(st, &a[$i], $w)? as u64 } }
        Ok(match k {
            Normal => unreachable!(),
            FmtNum => Some(V::A(Rc::new(vec![a[1].clone(), V::C(0)]))),
            FmtNumInner => Some(a[2].clone()),
            Unknown => return Err(Stop::Unsupported(format!("call of external function {}", self.p.funcs[fi].name))),
            Nop => None,
            Assume => None,
            Arg0 => Some(a[0].clone()),
            Zero => Some(V::C(0)),
            Trap => return Err(Stop::Violation("panic".into(), "abort".into())),
            Panic => {
                let n = short(&self.p.funcs[fi].name.clone());
                let mut at = String::new();
                if let Some(V::C(l)) = a.last() {
                    let l = *l as u64;
                    if let (Ok(V::C(p)), Ok(V::C(len)), Ok(V::C(line))) = (self.load_int(st, l, 64), self.load_int(st, l + 8, 64), self.load_int(st, l + 16, 32)) {
                        if len < 4096 { if let Ok(s) = self.read_str(st, p as u64, len as u64) { at = format!(" at {s}:{line}") } }
                    }
                }
                return Err(Stop::Violation("panic".into(), format!("{n}{at}")));
            }
            Memcpy | Memmove => { let n = c!(2, 64); if n > 0 { let (d, s) = (c!(0, 64), c!(1, 64)); self.copy(st, d, s, n)? } if matches!(ret, T::Void) { None } else { Some(a[0].clone()) } }
            Memset => {
                let n = c!(2, 64);
                if n > 0 {
                    let d = c!(0, 64);
                    let (o, off) = self.check(st, d, n, "write")?;
                    let b = self.cast(Cast::Trunc, &T::Int(t[1].bits()), &T::Int(8), &a[1])?;
                    let m = self.wobj(st, o);
                    for i in 0..n as usize {
                        match &b {
                            V::C(c) => { m.data[off + i] = *c as u8; if !m.sym.is_empty() { m.sym.remove(&((off + i) as u32)); } }
                            V::E(e) => { m.sym.insert((off + i) as u32, (*e, 0)); }
                            _ => {}
                        }
                    }
                }
                if matches!(ret, T::Void) { None } else { Some(a[0].clone()) }
            }
            Ovf(op, signed) => {
                let (x, y) = (self.id(&a[0], w), self.id(&a[1], w));
                let r = self.ar.bin(op, x, y);
                let o = if w <= 64 || !matches!(op, Op::Mul) {
                    match (op, signed) {
                        (Op::Add, false) => self.ar.ult(r, x),
                        (Op::Sub, false) => self.ar.ult(x, y),
                        (Op::Mul, _) => {
                            let (ex, ey) = if signed { (self.ar.sext(x, 2 * w), self.ar.sext(y, 2 * w)) } else { (self.ar.zext(x, 2 * w), self.ar.zext(y, 2 * w)) };
                            let m = self.ar.bin(Op::Mul, ex, ey);
                            let back = if signed { self.ar.sext(r, 2 * w) } else { self.ar.zext(r, 2 * w) };
                            let e = self.ar.eq(m, back);
                            self.ar.not(e)
                        }
                        _ => {
                            // Signed: compare in w+1 bits when that fits, otherwise by signs.
                            let z = self.ar.c(0, w);
                            let (sxn, syn, srn) = (self.ar.slt(x, z), self.ar.slt(y, z), self.ar.slt(r, z));
                            let same = self.ar.eq(sxn, syn);
                            let flip = { let e = self.ar.eq(sxn, srn); self.ar.not(e) };
                            if op == Op::Add { self.ar.and(same, flip) } else { let d = self.ar.not(same); self.ar.and(d, flip) }
                        }
                    }
                } else {
                    match (self.ar.as_const(x), self.ar.as_const(y), signed) {
                        (Some(p), Some(q), false) => { let v = p.checked_mul(q).is_none(); self.ar.c(v as u128, 1) }
                        (Some(p), Some(q), true) => { let v = (p as i128).checked_mul(q as i128).is_none(); self.ar.c(v as u128, 1) }
                        (_, Some(q), false) if q != 0 => { let lim = self.ar.c(u128::MAX / q, w); self.ar.ult(lim, x) }
                        (Some(q), _, false) if q != 0 => { let lim = self.ar.c(u128::MAX / q, w); self.ar.ult(lim, y) }
                        _ => return Err(Stop::Unsupported("128-bit multiplication overflow".into())),
                    }
                };
                Some(V::A(Rc::new(vec![self.v(r), self.v(o)])))
            }
            Ctpop => {
                let x = self.id(&a[0], w);
                let mut acc = self.ar.c(0, w);
                for i in 0..w { let b = self.ar.extract(x, i, 1); let b = self.ar.zext(b, w); acc = self.ar.bin(Op::Add, acc, b) }
                Some(self.v(acc))
            }
            Ctlz | Cttz => {
                if let V::C(c) = a[0] {
                    let r = if k == Ctlz { c.leading_zeros() - (128 - w) } else { c.trailing_zeros().min(w) };
                    return Ok(Some(V::C(r as u128)));
                }
                let x = self.id(&a[0], w);
                let mut acc = self.ar.c(w as u128, w);
                for i in 0..w {
                    let (bit, n) = if k == Ctlz { (i, w - 1 - i) } else { (w - 1 - i, w - 1 - i) };
                    let b = self.ar.extract(x, bit, 1);
                    let n = self.ar.c(n as u128, w);
                    acc = self.ar.ite(b, n, acc);
                }
                Some(self.v(acc))
            }
            Bswap => {
                let x = self.id(&a[0], w);
                let mut acc = self.ar.extract(x, 0, 8);
                for i in 1..w / 8 { let b = self.ar.extract(x, i * 8, 8); acc = self.ar.concat(acc, b) }
                Some(self.v(acc))
            }
            Bitrev => {
                let x = self.id(&a[0], w);
                let mut acc = self.ar.extract(x, 0, 1);
                for i in 1..w { let b = self.ar.extract(x, i, 1); acc = self.ar.concat(acc, b) }
                Some(self.v(acc))
            }
            Min(s) | Max(s) => {
                let (x, y) = (self.id(&a[0], w), self.id(&a[1], w));
                let lt = if s { self.ar.slt(x, y) } else { self.ar.ult(x, y) };
                let r = if matches!(k, Min(_)) { self.ar.ite(lt, x, y) } else { self.ar.ite(lt, y, x) };
                Some(self.v(r))
            }
            Abs => {
                let x = self.id(&a[0], w);
                let z = self.ar.c(0, w);
                let n = self.ar.bin(Op::Sub, z, x);
                let c = self.ar.slt(x, z);
                let r = self.ar.ite(c, n, x);
                Some(self.v(r))
            }
            Sat(op, signed) => {
                let (x, y) = (self.id(&a[0], w), self.id(&a[1], w));
                let r = self.ar.bin(op, x, y);
                let r = if !signed {
                    if op == Op::Add { let o = self.ar.ult(r, x); let m = self.ar.c(mask(w), w); self.ar.ite(o, m, r) }
                    else { let o = self.ar.ult(x, y); let z = self.ar.c(0, w); self.ar.ite(o, z, r) }
                } else {
                    let z = self.ar.c(0, w);
                    let (sxn, syn, srn) = (self.ar.slt(x, z), self.ar.slt(y, z), self.ar.slt(r, z));
                    let same = self.ar.eq(sxn, syn);
                    let cond = if op == Op::Add { same } else { self.ar.not(same) };
                    let e = self.ar.eq(sxn, srn);
                    let flip = self.ar.not(e);
                    let o = self.ar.and(cond, flip);
                    let (mx, mn) = (self.ar.c(mask(w) >> 1, w), self.ar.c(1 << (w - 1), w));
                    let s = self.ar.ite(sxn, mn, mx);
                    self.ar.ite(o, s, r)
                };
                Some(self.v(r))
            }
            Fsh(left) => {
                let n = match &a[2] { V::C(c) => (*c % w as u128) as u32, _ => return Err(Stop::Unsupported("funnel shift by a symbolic amount".into())) };
                let (h, l) = (self.id(&a[0], w), self.id(&a[1], w));
                let n = if left { n } else { w - n };
                // Result: the top w bits of (h:l) << n, n in 0..=w.
                let r = if n == 0 { h } else if n == w { l } else { let p = self.ar.extract(h, 0, w - n); let q = self.ar.extract(l, w - n, n); self.ar.concat(p, q) };
                Some(self.v(r))
            }
            Cmp3(s) => {
                let rw = ret.bits();
                let (x, y) = (self.id(&a[0], w), self.id(&a[1], w));
                let (lt, gt) = if s { (self.ar.slt(x, y), self.ar.slt(y, x)) } else { (self.ar.ult(x, y), self.ar.ult(y, x)) };
                let (m1, z, o) = (self.ar.c(mask(rw), rw), self.ar.c(0, rw), self.ar.c(1, rw));
                let r = self.ar.ite(gt, o, z);
                let r = self.ar.ite(lt, m1, r);
                Some(self.v(r))
            }
            Reduce(op) => {
                let (e, x) = match (t[0], &a[0]) { (T::Vector(e, _), V::A(x)) => (e.clone(), x.clone()), _ => return Err(Stop::Unsupported("reduce".into())) };
                let mut acc = x[0].clone();
                for y in &x[1..] { acc = self.binop(op, &e, &acc, y)? }
                Some(acc)
            }
            Bcmp | Memcmp => {
                let n = c!(2, 64);
                let mut r = self.ar.c(0, 32);
                if n > 0 {
                    let (x, y) = (c!(0, 64), c!(1, 64));
                    self.check(st, x, n, "read")?;
                    self.check(st, y, n, "read")?;
                    for i in (0..n).rev() {
                        let (p, q) = (self.load_int(st, x + i, 8)?, self.load_int(st, y + i, 8)?);
                        let (p, q) = (self.id(&p, 8), self.id(&q, 8));
                        let eq = self.ar.eq(p, q);
                        let ne_val = if k == Bcmp { self.ar.c(1, 32) } else {
                            let lt = self.ar.ult(p, q);
                            let (m1, o) = (self.ar.c(mask(32), 32), self.ar.c(1, 32));
                            self.ar.ite(lt, m1, o)
                        };
                        r = self.ar.ite(eq, r, ne_val);
                    }
                }
                Some(self.v(r))
            }
            Strlen => {
                let p = c!(0, 64);
                let mut n = 0;
                loop {
                    match self.load_int(st, p + n, 8)? { V::C(0) => break, V::C(_) => n += 1, _ => return Err(Stop::Unsupported("strlen".into())) }
                }
                Some(V::C(n as u128))
            }
            Malloc | RAlloc => { let n = c!(0, 64); Some(V::C(self.new_obj(st, n, true)? as u128)) }
            RAllocZ => { let n = c!(0, 64); Some(V::C(self.new_obj(st, n, true)? as u128)) }
            Calloc => { let (x, y) = (c!(0, 64), c!(1, 64)); Some(V::C(self.new_obj(st, x.saturating_mul(y), true)? as u128)) }
            PosixMemalign => {
                let (out, n) = (c!(0, 64), c!(2, 64));
                let p = self.new_obj(st, n, true)?;
                self.store_int(st, out, 64, &V::C(p as u128))?;
                Some(V::C(0))
            }
            Free | RDealloc => { let p = c!(0, 64); if p != 0 { self.free(st, p)? } None }
            Realloc | RRealloc => {
                let p = c!(0, 64);
                let n = if k == Realloc { c!(1, 64) } else { c!(3, 64) };
                let q = self.new_obj(st, n, true)?;
                if p != 0 {
                    self.obj(st, (p >> 32) as u32, "realloc")?;
                    let old = st.objs[(p >> 32) as usize].as_ref().unwrap().data.len() as u64;
                    self.copy(st, q, p, old.min(n))?;
                    self.free(st, p)?;
                }
                Some(V::C(q as u128))
            }
            ScxBytes => {
                let (p, n) = (c!(0, 64), c!(1, 64));
                for i in 0..n {
                    let s = self.ar.sym(st.nsym);
                    st.nsym += 1;
                    self.store_int(st, p + i, 8, &V::E(s))?;
                }
                let mut b = st.model.bytes.clone();
                if b.len() < st.nsym as usize { b.resize(st.nsym as usize, 0); st.model = Rc::new(Model::new(b)) }
                None
            }
            ScxAssume => {
                let v = match &a[0] { V::C(c) => V::C(c & 1), V::E(i) => { let e = self.ar.extract(*i, 0, 1); self.v(e) } v => v.clone() };
                match v {
                    V::C(1) => {}
                    V::C(_) => return Err(Stop::Assumed),
                    V::E(i) => match self.feasible(st, i)? {
                        None => return Err(Stop::Assumed),
                        Some(m) => { st.model = m; if !st.cons.contains(&i) { self.assume(st, i) } }
                    },
                    _ => {}
                }
                None
            }
            ScxFail => { let (p, n) = (c!(0, 64), c!(1, 64)); let s = self.read_str(st, p, n)?; return Err(Stop::Violation("assert".into(), s)) }
            ScxCover => { let (p, n) = (c!(0, 64), c!(1, 64)); let s = self.read_str(st, p, n)?; let i = self.intern(s); st.covers.insert(i); None }
            ScxOut => {
                let (p, n) = (c!(0, 64), c!(1, 64));
                for i in 0..n { let v = self.load_int(st, p + i, 8)?; st.out.push(v) }
                None
            }
            ScxConcrete => { let v = self.concrete(st, &a[0], 64)?; Some(V::C(v)) }
            ScxSymbolic => Some(V::C(matches!(a[0], V::E(_)) as u128)),
            ScxHeapPeak => Some(V::C(st.heap_peak as u128)),
            ScxSteps => Some(V::C(st.steps as u128)),
            ScxHeapReset => { st.heap_peak = st.heap_live; Some(V::C(st.heap_live as u128)) }
            ScxParam => Some(V::C(self.lim.param as u128)),
        })
    }
}
