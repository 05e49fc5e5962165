//! Z3 through its C API: an incremental QF_BV solver whose assertion stack follows the current path.
use crate::expr::{Arena, Id, Node, Op};
use std::collections::{BTreeSet, HashMap};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
type P = *mut c_void;
#[allow(non_snake_case, dead_code)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint(c: P, a: P, out: *mut c_uint) -> bool;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
}

pub struct Smt {
    ctx: P,
    s: P,
    cache: HashMap<Id, P>,
    stack: Vec<Id>,
    syms: HashMap<u32, P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: std::time::Duration,
    pub max_ms: u128,
    pub dump: Option<(String, u64)>,
    pub dumped: u64,
}
pub enum Res { Sat(Vec<u8>), Unsat, Unknown }

impl Smt {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context(cfg);
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, l.as_ptr()));
            Z3_solver_inc_ref(ctx, s);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, t.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, s, p);
            Smt { ctx, s, cache: HashMap::new(), stack: vec![], syms: HashMap::new(), queries: 0, sat: 0, unsat: 0, time: Default::default(), max_ms: 0, dump: None, dumped: 0 }
        }
    }
    pub fn version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().to_string() } }

    fn bv(&mut self, ar: &Arena, i: Id) -> P {
        let t = self.tr(ar, i);
        if ar.w(i) == 1 {
            unsafe {
                let s = Z3_mk_bv_sort(self.ctx, 1);
                let (o, z) = (CString::new("1").unwrap(), CString::new("0").unwrap());
                Z3_mk_ite(self.ctx, t, Z3_mk_numeral(self.ctx, o.as_ptr(), s), Z3_mk_numeral(self.ctx, z.as_ptr(), s))
            }
        } else { t }
    }
    /// Width-1 expressions become Bool terms, all others bit-vectors.
    fn tr(&mut self, ar: &Arena, i: Id) -> P {
        if let Some(&p) = self.cache.get(&i) { return p }
        let w = ar.w(i);
        let c = self.ctx;
        let r = unsafe {
            match ar.n(i) {
                Node::Const(v) => if w == 1 { if v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else {
                    let s = CString::new(v.to_string()).unwrap();
                    Z3_mk_numeral(c, s.as_ptr(), Z3_mk_bv_sort(c, w))
                },
                Node::Sym(k) => {
                    let s = CString::new(format!("b{k}")).unwrap();
                    let p = Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, 8));
                    self.syms.insert(k, p);
                    p
                }
                Node::Bin(op, a, b) if w == 1 && matches!(op, Op::And | Op::Or | Op::Xor) => {
                    let (x, y) = (self.tr(ar, a), self.tr(ar, b));
                    match op { Op::And => Z3_mk_and(c, 2, [x, y].as_ptr()), Op::Or => Z3_mk_or(c, 2, [x, y].as_ptr()), _ => Z3_mk_xor(c, x, y) }
                }
                Node::Bin(op, a, b) => {
                    let (x, y) = (self.bv(ar, a), self.bv(ar, b));
                    let f = match op {
                        Op::Add => Z3_mk_bvadd, Op::Sub => Z3_mk_bvsub, Op::Mul => Z3_mk_bvmul, Op::UDiv => Z3_mk_bvudiv,
                        Op::SDiv => Z3_mk_bvsdiv, Op::URem => Z3_mk_bvurem, Op::SRem => Z3_mk_bvsrem, Op::Shl => Z3_mk_bvshl,
                        Op::LShr => Z3_mk_bvlshr, Op::AShr => Z3_mk_bvashr, Op::And => Z3_mk_bvand, Op::Or => Z3_mk_bvor, Op::Xor => Z3_mk_bvxor,
                    };
                    self.to_bool(f(c, x, y), w)
                }
                Node::Not(a) => { let x = self.tr(ar, a); Z3_mk_not(c, x) }
                Node::SExt(a) => { let x = self.bv(ar, a); Z3_mk_sign_ext(c, w - ar.w(a), x) }
                Node::Extract(a, lo) => { let x = self.bv(ar, a); let e = Z3_mk_extract(c, lo as u32 + w - 1, lo as u32, x); self.to_bool(e, w) }
                Node::Concat(h, l) => { let x = self.bv(ar, h); let y = self.bv(ar, l); Z3_mk_concat(c, x, y) }
                Node::Ite(k, a, b) => { let k = self.tr(ar, k); let x = self.tr(ar, a); let y = self.tr(ar, b); Z3_mk_ite(c, k, x, y) }
                Node::Eq(a, b) => { let x = self.tr(ar, a); let y = self.tr(ar, b); Z3_mk_eq(c, x, y) }
                Node::Ult(a, b) => { let x = self.bv(ar, a); let y = self.bv(ar, b); Z3_mk_bvult(c, x, y) }
                Node::Slt(a, b) => { let x = self.bv(ar, a); let y = self.bv(ar, b); Z3_mk_bvslt(c, x, y) }
            }
        };
        self.cache.insert(i, r);
        r
    }
    unsafe fn to_bool(&self, e: P, w: u32) -> P {
        if w != 1 { return e }
        let o = CString::new("1").unwrap();
        Z3_mk_eq(self.ctx, e, Z3_mk_numeral(self.ctx, o.as_ptr(), Z3_mk_bv_sort(self.ctx, 1)))
    }

    /// Is `path` and `q` satisfiable together? With the input bytes of a solution.
    pub fn check(&mut self, ar: &Arena, path: &[Id], q: Id, nsyms: usize) -> Res {
        let t0 = std::time::Instant::now();
        let r = unsafe {
            let c = self.ctx;
            let common = self.stack.iter().zip(path).take_while(|(a, b)| a == b).count();
            let extra = self.stack.len() - common;
            if extra > 0 { Z3_solver_pop(c, self.s, extra as u32); self.stack.truncate(common) }
            for &p in &path[common..] {
                let a = self.tr(ar, p);
                Z3_solver_push(c, self.s);
                Z3_solver_assert(c, self.s, a);
                self.stack.push(p);
            }
            let a = self.tr(ar, q);
            Z3_solver_push(c, self.s);
            Z3_solver_assert(c, self.s, a);
            let r = Z3_solver_check(c, self.s);
            let res = match r {
                1 => {
                    let m = Z3_solver_get_model(c, self.s);
                    Z3_model_inc_ref(c, m);
                    let mut out = vec![0u8; nsyms];
                    for (&k, &p) in &self.syms {
                        if (k as usize) < nsyms {
                            let mut v: P = std::ptr::null_mut();
                            let mut n = 0;
                            if Z3_model_eval(c, m, p, true, &mut v) && Z3_get_numeral_uint(c, v, &mut n) { out[k as usize] = n as u8 }
                        }
                    }
                    Z3_model_dec_ref(c, m);
                    Res::Sat(out)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            if let Some((dir, every)) = &self.dump {
                if self.queries % every == 0 && r != 0 && self.dumped < 400 {
                    let s = CStr::from_ptr(Z3_solver_to_string(c, self.s)).to_string_lossy();
                    let exp = if r == 1 { "sat" } else { "unsat" };
                    let _ = std::fs::write(format!("{dir}/q{}.{exp}.smt2", self.queries), format!("(set-logic QF_BV)\n{s}\n(check-sat)\n"));
                    self.dumped += 1;
                }
            }
            Z3_solver_pop(c, self.s, 1);
            res
        };
        self.queries += 1;
        match r { Res::Sat(_) => self.sat += 1, Res::Unsat => self.unsat += 1, _ => {} }
        let d = t0.elapsed();
        self.max_ms = self.max_ms.max(d.as_millis());
        self.time += d;
        r
    }
    #[allow(dead_code)]
    pub fn syms_in(&self, ar: &Arena, i: Id, out: &mut BTreeSet<u32>) {
        let mut st = vec![i];
        let mut seen = BTreeSet::new();
        while let Some(x) = st.pop() {
            if !seen.insert(x) { continue }
            match ar.n(x) {
                Node::Sym(k) => { out.insert(k); }
                Node::Const(_) => {}
                Node::Bin(_, a, b) | Node::Concat(a, b) | Node::Eq(a, b) | Node::Ult(a, b) | Node::Slt(a, b) => { st.push(a); st.push(b) }
                Node::Not(a) | Node::SExt(a) | Node::Extract(a, _) => st.push(a),
                Node::Ite(a, b, c) => { st.push(a); st.push(b); st.push(c) }
            }
        }
    }
}
