//! The program: LLVM bitcode translated, function by function on first use, to a compact form for execution.
use crate::llvm::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    E(crate::expr::Id),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Debug)]
pub enum T {
    Void,
    Int(u32),
    Ptr,
    Struct(Rc<Vec<(u64, T)>>, u64),
    Array(Rc<T>, u64, u64),
    Vector(Rc<T>, u64),
    Float(u32),
    Other(String),
}
impl T {
    /// Width in bits of a scalar type.
    pub fn bits(&self) -> u32 {
        match self { T::Int(w) => *w, T::Ptr => 64, T::Float(w) => *w, t => panic!("not a scalar: {t:?}") }
    }
    pub fn is_scalar(&self) -> bool { matches!(self, T::Int(_) | T::Ptr | T::Float(_)) }
    pub fn size(&self) -> u64 {
        match self {
            T::Int(w) | T::Float(w) => (*w as u64 + 7) / 8,
            T::Ptr => 8,
            T::Struct(_, s) => *s,
            T::Array(_, n, s) => n * s,
            T::Vector(t, n) => (t.bits() as u64 * n + 7) / 8,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    K(V),
    Bad(Rc<String>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast { Trunc, ZExt, SExt, Bit }

#[derive(Debug)]
pub enum I {
    Bin(u32, crate::expr::Op, T, O, O),
    ICmp(u32, i32, T, O, O),
    Cast(u32, Cast, T, T, O),
    Load(u32, T, O),
    Store(T, O, O),
    Gep(u32, O, u64, Vec<(O, u32, u64)>),
    Alloca(u32, u64, O),
    Select(u32, T, T, O, O, O),
    Br(u32),
    CondBr(O, u32, u32),
    Switch(O, u32, Vec<(u128, u32)>, u32),
    Ret(Option<O>),
    Unreachable,
    Call { dst: u32, ret: T, callee: O, direct: Option<usize>, args: Vec<(O, T)>, normal: Option<u32> },
    ExtractValue(u32, O, Vec<u32>),
    InsertValue(u32, O, O, Vec<u32>),
    Move(u32, O),
    Nop,
    Rmw(u32, i32, T, O, O),
    CmpXchg(u32, T, O, O, O),
    Shuffle(u32, O, O, u64, Vec<i32>),
    ExtractElement(u32, O, O),
    InsertElement(u32, O, O, O),
    Unsupported(String),
}

pub struct Block {
    pub phis: Vec<(u32, HashMap<u32, O>)>,
    pub insts: Vec<(I, u32)>,
}
pub struct Func {
    pub id: usize,
    pub nregs: usize,
    pub nparams: usize,
    pub blocks: Vec<Block>,
}
pub struct FnInfo {
    pub val: Val,
    pub name: Rc<str>,
    pub decl: bool,
    pub code: Option<Rc<Func>>,
}
pub struct Glob { pub val: Val, pub name: String, pub size: u64, pub konst: bool }

pub const FUNC_BASE: u64 = 0x7000_0000_0000_0000;

pub struct Prog {
    td: TD,
    pub funcs: Vec<FnInfo>,
    fn_idx: HashMap<Val, usize>,
    pub fn_by_name: HashMap<String, usize>,
    pub globals: Vec<Glob>,
    glob_idx: HashMap<Val, usize>,
    ty_cache: HashMap<Ty, T>,
    pub locs: Vec<(Rc<str>, u32)>,
    loc_idx: HashMap<(Rc<str>, u32), u32>,
    files: HashMap<(usize, usize), Rc<str>>,
}

impl Prog {
    pub fn load(path: &str) -> Prog {
        let m = load_module(path);
        let td = unsafe { LLVMGetModuleDataLayout(m) };
        let mut p = Prog { td, funcs: vec![], fn_idx: HashMap::new(), fn_by_name: HashMap::new(), globals: vec![], glob_idx: HashMap::new(), ty_cache: HashMap::new(), locs: vec![("".into(), 0)], loc_idx: HashMap::new(), files: HashMap::new() };
        unsafe {
            let mut f = LLVMGetFirstFunction(m);
            while !f.is_null() {
                let n = name(f);
                p.fn_idx.insert(f, p.funcs.len());
                p.fn_by_name.insert(n.clone(), p.funcs.len());
                p.funcs.push(FnInfo { val: f, name: n.into(), decl: LLVMIsDeclaration(f) != 0, code: None });
                f = LLVMGetNextFunction(f);
            }
            let mut g = LLVMGetFirstGlobal(m);
            while !g.is_null() {
                let t = LLVMGlobalGetValueType(g);
                let size = if LLVMIsDeclaration(g) != 0 { 0 } else { LLVMABISizeOfType(td, t) };
                p.glob_idx.insert(g, p.globals.len() + 1);
                p.globals.push(Glob { val: g, name: name(g), size, konst: LLVMIsGlobalConstant(g) != 0 });
                g = LLVMGetNextGlobal(g);
            }
        }
        p
    }

    pub fn ty(&mut self, t: Ty) -> T {
        if let Some(r) = self.ty_cache.get(&t) { return r.clone() }
        let r = unsafe {
            match LLVMGetTypeKind(t) {
                0 => T::Void,
                2 => T::Float(32),
                3 => T::Float(64),
                8 => T::Int(LLVMGetIntTypeWidth(t)),
                10 => {
                    let n = LLVMCountStructElementTypes(t);
                    let mut v = vec![];
                    for i in 0..n {
                        let e = LLVMStructGetTypeAtIndex(t, i);
                        v.push((LLVMOffsetOfElement(self.td, t, i), self.ty(e)));
                    }
                    T::Struct(Rc::new(v), LLVMABISizeOfType(self.td, t))
                }
                11 => {
                    let e = LLVMGetElementType(t);
                    let et = self.ty(e);
                    T::Array(Rc::new(et), LLVMGetArrayLength2(t), LLVMABISizeOfType(self.td, e))
                }
                12 => T::Ptr,
                13 => {
                    let et = self.ty(LLVMGetElementType(t));
                    T::Vector(Rc::new(et), LLVMGetVectorSize(t) as u64)
                }
                _ => T::Other(print_ty(t)),
            }
        };
        self.ty_cache.insert(t, r.clone());
        r
    }
    fn abi_size(&self, t: Ty) -> u64 { unsafe { LLVMABISizeOfType(self.td, t) } }

    pub fn zero(t: &T) -> V {
        match t {
            T::Struct(f, _) => V::A(Rc::new(f.iter().map(|x| Self::zero(&x.1)).collect())),
            T::Array(e, n, _) | T::Vector(e, n) => V::A(Rc::new((0..*n).map(|_| Self::zero(e)).collect())),
            _ => V::C(0),
        }
    }

    pub fn fn_addr(i: usize) -> u64 { FUNC_BASE + ((i as u64) << 4) }

    pub fn konst(&mut self, v: Val) -> Result<V, String> {
        unsafe {
            let lt = LLVMTypeOf(v);
            let t = self.ty(lt);
            Ok(match kind(v) {
                5 => V::C(Self::fn_addr(self.fn_idx[&v]) as u128),
                6 => return self.konst(LLVMAliasGetAliasee(v)),
                8 => V::C((self.glob_idx[&v] as u128) << 32),
                14 | 25 | 15 => Self::zero(&t),
                18 => match t {
                    T::Int(w) if w <= 64 => V::C(LLVMConstIntGetZExtValue(v) as u128),
                    T::Int(w) if w <= 128 => {
                        let s = print(v);
                        let d = s.rsplit(' ').next().unwrap();
                        let x = if let Some(n) = d.strip_prefix('-') { (n.parse::<u128>().map_err(|_| s.clone())?).wrapping_neg() } else { d.parse::<u128>().map_err(|_| s.clone())? };
                        V::C(x & crate::expr::mask(w))
                    }
                    _ => return Err(format!("integer constant {}", print(v))),
                },
                20 => V::C(0),
                11 | 12 | 13 => {
                    let n = LLVMGetNumOperands(v);
                    let mut r = vec![];
                    for i in 0..n { r.push(self.konst(LLVMGetOperand(v, i as u32))?) }
                    V::A(Rc::new(r))
                }
                16 | 17 => {
                    let n = match &t { T::Array(_, n, _) | T::Vector(_, n) => *n, _ => unreachable!() };
                    let mut r = vec![];
                    for i in 0..n { r.push(self.konst(LLVMGetElementAsConstant(v, i as u32))?) }
                    V::A(Rc::new(r))
                }
                10 => {
                    let op = LLVMGetConstOpcode(v);
                    let a = self.konst(LLVMGetOperand(v, 0))?;
                    let ca = match &a { V::C(c) => *c, _ => return Err(format!("constant expression {}", print(v))) };
                    match op {
                        29 => {
                            let st = LLVMGetGEPSourceElementType(v);
                            let mut cur = st;
                            let mut off = ca as u64;
                            for i in 1..LLVMGetNumOperands(v) {
                                let o = LLVMGetOperand(v, i as u32);
                                let ix = match self.konst(o)? { V::C(c) => c, _ => return Err("gep index".into()) };
                                let w = match self.ty(LLVMTypeOf(o)) { T::Int(w) => w, _ => return Err("gep index".into()) };
                                let ix = crate::expr::sx(ix, w) as i64 as u64;
                                if i == 1 { off = off.wrapping_add(ix.wrapping_mul(self.abi_size(cur))) }
                                else if LLVMGetTypeKind(cur) == 10 {
                                    off = off.wrapping_add(LLVMOffsetOfElement(self.td, cur, ix as u32));
                                    cur = LLVMStructGetTypeAtIndex(cur, ix as u32);
                                } else {
                                    cur = LLVMGetElementType(cur);
                                    off = off.wrapping_add(ix.wrapping_mul(self.abi_size(cur)));
                                }
                            }
                            V::C(off as u128)
                        }
                        30 | 39 | 40 | 41 | 60 | 69 => V::C(ca & crate::expr::mask(t.bits())),
                        8 | 10 | 28 => {
                            let b = match self.konst(LLVMGetOperand(v, 1))? { V::C(c) => c, _ => return Err("constant expression".into()) };
                            let w = t.bits();
                            V::C(match op { 8 => ca.wrapping_add(b), 10 => ca.wrapping_sub(b), _ => ca ^ b } & crate::expr::mask(w))
                        }
                        _ => return Err(format!("constant expression {}", print(v))),
                    }
                }
                k => return Err(format!("constant kind {k}: {}", print(v))),
            })
        }
    }

    fn write_const(&mut self, buf: &mut [u8], off: u64, v: &V, t: &T) {
        match (t, v) {
            (T::Struct(f, _), V::A(e)) => for (i, (o, ft)) in f.iter().enumerate() { self.write_const(buf, off + o, &e[i], ft) },
            (T::Array(et, _, s), V::A(e)) => for (i, x) in e.iter().enumerate() { self.write_const(buf, off + i as u64 * s, x, et) },
            (T::Vector(et, _), V::A(e)) => { let s = et.size(); for (i, x) in e.iter().enumerate() { self.write_const(buf, off + i as u64 * s, x, et) } }
            (_, V::C(c)) => { let n = t.size() as usize; buf[off as usize..off as usize + n].copy_from_slice(&c.to_le_bytes()[..n]) }
            _ => panic!("write_const"),
        }
    }
    /// The initial contents of global `i` (1-based).
    pub fn global_bytes(&mut self, i: usize) -> Result<Vec<u8>, String> {
        let g = &self.globals[i - 1];
        let (val, size) = (g.val, g.size);
        let mut buf = vec![0u8; size as usize];
        unsafe {
            if LLVMIsDeclaration(val) != 0 { return Ok(buf) }
            let init = LLVMGetInitializer(val);
            if kind(init) == 15 { return Ok(buf) }
            let t = self.ty(LLVMTypeOf(init));
            let v = self.konst(init)?;
            self.write_const(&mut buf, 0, &v, &t);
        }
        Ok(buf)
    }

    fn loc(&mut self, v: Val) -> u32 {
        unsafe {
            let line = LLVMGetDebugLocLine(v);
            if line == 0 { return 0 }
            let (mut n, mut d) = (0u32, 0u32);
            let p = LLVMGetDebugLocFilename(v, &mut n);
            let q = LLVMGetDebugLocDirectory(v, &mut d);
            if p.is_null() { return 0 }
            let f = self.files.entry((p as usize, q as usize)).or_insert_with(|| {
                let f = String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n as usize)).to_string();
                if f.starts_with('/') || q.is_null() { f.into() } else {
                    let d = String::from_utf8_lossy(std::slice::from_raw_parts(q as *const u8, d as usize)).to_string();
                    format!("{d}/{f}").into()
                }
            }).clone();
            let k = (f, line);
            if let Some(&i) = self.loc_idx.get(&k) { return i }
            let i = self.locs.len() as u32;
            self.locs.push(k.clone());
            self.loc_idx.insert(k, i);
            i
        }
    }

    pub fn func(&mut self, i: usize) -> Rc<Func> {
        if let Some(c) = &self.funcs[i].code { return c.clone() }
        let f = Rc::new(self.translate(i));
        self.funcs[i].code = Some(f.clone());
        f
    }

    fn translate(&mut self, id: usize) -> Func {
        use crate::expr::Op;
        let f = self.funcs[id].val;
        let mut regs: HashMap<Val, u32> = HashMap::new();
        let mut bbs: HashMap<BB, u32> = HashMap::new();
        let mut list = vec![];
        let np;
        unsafe {
            np = LLVMCountParams(f) as usize;
            for i in 0..np { regs.insert(LLVMGetParam(f, i as u32), i as u32); }
            let mut b = LLVMGetFirstBasicBlock(f);
            while !b.is_null() {
                bbs.insert(b, list.len() as u32);
                list.push(b);
                let mut x = LLVMGetFirstInstruction(b);
                while !x.is_null() {
                    let n = regs.len() as u32;
                    regs.insert(x, n);
                    x = LLVMGetNextInstruction(x);
                }
                b = LLVMGetNextBasicBlock(b);
            }
        }
        let nregs = regs.len();
        let mut blocks = vec![];
        for &b in &list {
            let mut phis = vec![];
            let mut insts = vec![];
            unsafe {
                let mut x = LLVMGetFirstInstruction(b);
                while !x.is_null() {
                    let dst = regs[&x];
                    let op = LLVMGetInstructionOpcode(x);
                    let lt = LLVMTypeOf(x);
                    let t = self.ty(lt);
                    let loc = self.loc(x);
                    macro_rules! opd { ($v:expr) => {{ let v = $v; match regs.get(&v) { Some(&r) => O::R(r), None => match self.konst(v) { Ok(k) => O::K(k), Err(e) => O::Bad(Rc::new(e)) } } }} }
                    macro_rules! arg { ($i:expr) => { opd!(LLVMGetOperand(x, $i)) } }
                    macro_rules! argty { ($i:expr) => {{ let t = LLVMTypeOf(LLVMGetOperand(x, $i)); self.ty(t) }} }
                    let bin = |o: Op| Some(o);
                    let binop = match op {
                        8 => bin(Op::Add), 10 => bin(Op::Sub), 12 => bin(Op::Mul), 14 => bin(Op::UDiv), 15 => bin(Op::SDiv),
                        17 => bin(Op::URem), 18 => bin(Op::SRem), 20 => bin(Op::Shl), 21 => bin(Op::LShr), 22 => bin(Op::AShr),
                        23 => bin(Op::And), 24 => bin(Op::Or), 25 => bin(Op::Xor), _ => None,
                    };
                    if op == 44 {
                        let mut m = HashMap::new();
                        for i in 0..LLVMCountIncoming(x) {
                            let o = opd!(LLVMGetIncomingValue(x, i));
                            m.insert(bbs[&LLVMGetIncomingBlock(x, i)], o);
                        }
                        phis.push((dst, m));
                        x = LLVMGetNextInstruction(x);
                        continue;
                    }
                    let inst = if let Some(o) = binop {
                        let (a, b) = (arg!(0), arg!(1));
                        I::Bin(dst, o, t, a, b)
                    } else {
                        match op {
                            1 => if LLVMGetNumOperands(x) == 0 { I::Ret(None) } else { I::Ret(Some(arg!(0))) },
                            2 | 70 | 71 | 72 if LLVMGetNumSuccessors(x) == 1 => I::Br(bbs[&LLVMGetSuccessor(x, 0)]),
                            2 | 70 | 71 | 72 if LLVMGetNumSuccessors(x) == 2 => {
                                let c = opd!(LLVMGetCondition(x));
                                I::CondBr(c, bbs[&LLVMGetSuccessor(x, 0)], bbs[&LLVMGetSuccessor(x, 1)])
                            }
                            3 => {
                                let c = arg!(0);
                                let w = argty!(0).bits();
                                let n = LLVMGetNumSuccessors(x);
                                let mut cases = vec![];
                                let mut bad = None;
                                for i in 1..n {
                                    match self.konst(LLVMGetSwitchCaseValue(x, i)) { Ok(V::C(k)) => cases.push((k, bbs[&LLVMGetSuccessor(x, i)])), e => bad = Some(format!("switch case {e:?}")) }
                                }
                                if let Some(b) = bad { I::Unsupported(b) } else { I::Switch(c, w, cases, bbs[&LLVMGetSuccessor(x, 0)]) }
                            }
                            7 => I::Unreachable,
                            26 => { let at = LLVMGetAllocatedType(x); let s = self.abi_size(at); let n = arg!(0); I::Alloca(dst, s, n) }
                            27 => { let p = arg!(0); I::Load(dst, t, p) }
                            28 => { let st = argty!(0); let (v, p) = (arg!(0), arg!(1)); I::Store(st, v, p) }
                            29 if matches!(t, T::Ptr) => {
                                let base = arg!(0);
                                let mut cur = LLVMGetGEPSourceElementType(x);
                                let mut off = 0u64;
                                let mut idx = vec![];
                                for i in 1..LLVMGetNumOperands(x) as u32 {
                                    let o = arg!(i);
                                    let w = match argty!(i) { T::Int(w) => w, _ => 0 };
                                    let scale;
                                    if i == 1 { scale = self.abi_size(cur) }
                                    else if LLVMGetTypeKind(cur) == 10 {
                                        let k = match &o { O::K(V::C(c)) => *c as u32, _ => panic!("struct gep") };
                                        off = off.wrapping_add(LLVMOffsetOfElement(self.td, cur, k));
                                        cur = LLVMStructGetTypeAtIndex(cur, k);
                                        continue;
                                    } else { cur = LLVMGetElementType(cur); scale = self.abi_size(cur) }
                                    match &o {
                                        O::K(V::C(c)) => off = off.wrapping_add((crate::expr::sx(*c, w) as i64 as u64).wrapping_mul(scale)),
                                        _ => idx.push((o, w, scale)),
                                    }
                                }
                                I::Gep(dst, base, off, idx)
                            }
                            30 | 31 | 32 | 39 | 40 | 41 | 60 | 69 => {
                                let from = argty!(0);
                                let a = arg!(0);
                                let k = match op {
                                    30 => Cast::Trunc, 31 => Cast::ZExt, 32 => Cast::SExt, 41 => Cast::Bit, 60 => Cast::Bit,
                                    _ => if from.is_scalar() && t.is_scalar() { if from.bits() > t.bits() { Cast::Trunc } else { Cast::ZExt } } else { Cast::Bit },
                                };
                                I::Cast(dst, k, from, t, a)
                            }
                            42 => { let ot = argty!(0); let (a, b) = (arg!(0), arg!(1)); I::ICmp(dst, LLVMGetICmpPredicate(x), ot, a, b) }
                            46 => { let ct = argty!(0); let (c, a, b) = (arg!(0), arg!(1), arg!(2)); I::Select(dst, ct, t, c, a, b) }
                            5 | 45 => {
                                let cv = LLVMGetCalledValue(x);
                                let direct = self.fn_idx.get(&cv).copied();
                                let asm = kind(cv) == 23;
                                if asm { let s = print(x); if s.contains("asm sideeffect \"\"") || s.contains("asm \"\"") { if matches!(t, T::Void) { I::Nop } else { I::Unsupported(s) } } else { I::Unsupported(s) } } else {
                                let callee = opd!(cv);
                                let n = LLVMGetNumArgOperands(x);
                                let mut args = vec![];
                                for i in 0..n {
                                    let lo = LLVMGetOperand(x, i);
                                    let at = argty!(i);
                                    let o = if matches!(at, T::Other(_)) { O::K(V::C(0)) } else { opd!(lo) };
                                    args.push((o, at));
                                }
                                let normal = if op == 5 { Some(bbs[&LLVMGetNormalDest(x)]) } else { None };
                                I::Call { dst, ret: t, callee, direct, args, normal }
                                }
                            }
                            53 => { let n = LLVMGetNumIndices(x); let ix = std::slice::from_raw_parts(LLVMGetIndices(x), n as usize).to_vec(); let a = arg!(0); I::ExtractValue(dst, a, ix) }
                            54 => { let n = LLVMGetNumIndices(x); let ix = std::slice::from_raw_parts(LLVMGetIndices(x), n as usize).to_vec(); let (a, b) = (arg!(0), arg!(1)); I::InsertValue(dst, a, b, ix) }
                            68 => { let a = arg!(0); I::Move(dst, a) }
                            55 => I::Nop,
                            57 => { let vt = argty!(1); let (p, v) = (arg!(0), arg!(1)); I::Rmw(dst, LLVMGetAtomicRMWBinOp(x), vt, p, v) }
                            56 => { let vt = argty!(1); let (p, c, n) = (arg!(0), arg!(1), arg!(2)); I::CmpXchg(dst, vt, p, c, n) }
                            50 => { let (a, b) = (arg!(0), arg!(1)); I::ExtractElement(dst, a, b) }
                            51 => { let (a, b, c) = (arg!(0), arg!(1), arg!(2)); I::InsertElement(dst, a, b, c) }
                            52 => {
                                let n = match argty!(0) { T::Vector(_, n) => n, _ => 0 };
                                let m = (0..LLVMGetNumMaskElements(x)).map(|i| LLVMGetMaskValue(x, i)).collect();
                                let (a, b) = (arg!(0), arg!(1));
                                I::Shuffle(dst, a, b, n, m)
                            }
                            _ => I::Unsupported(print(x)),
                        }
                    };
                    insts.push((inst, loc));
                    x = LLVMGetNextInstruction(x);
                }
            }
            blocks.push(Block { phis, insts });
        }
        Func { id, nregs, nparams: np, blocks }
    }
}
