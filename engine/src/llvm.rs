//! Minimal hand-written bindings to the LLVM C API.
#![allow(non_snake_case, dead_code)]
use std::ffi::{c_char, c_int, c_uint, c_ulonglong, CStr};
macro_rules! opaque { ($($n:ident),*) => { $(#[repr(C)] pub struct $n { _p: [u8; 0] })* } }
opaque!(OCtx, OMod, OVal, OTy, OBB, OBuf, OTD);
pub type Ctx = *mut OCtx;
pub type Mod = *mut OMod;
pub type Val = *mut OVal;
pub type Ty = *mut OTy;
pub type BB = *mut OBB;
pub type Buf = *mut OBuf;
pub type TD = *mut OTD;

extern "C" {
    pub fn LLVMContextCreate() -> Ctx;
    pub fn LLVMCreateMemoryBufferWithContentsOfFile(p: *const c_char, out: *mut Buf, msg: *mut *mut c_char) -> c_int;
    pub fn LLVMParseBitcodeInContext2(c: Ctx, b: Buf, out: *mut Mod) -> c_int;
    pub fn LLVMGetFirstFunction(m: Mod) -> Val;
    pub fn LLVMGetNextFunction(v: Val) -> Val;
    pub fn LLVMGetFirstGlobal(m: Mod) -> Val;
    pub fn LLVMGetNextGlobal(v: Val) -> Val;
    pub fn LLVMGetFirstGlobalAlias(m: Mod) -> Val;
    pub fn LLVMGetNextGlobalAlias(v: Val) -> Val;
    pub fn LLVMAliasGetAliasee(v: Val) -> Val;
    pub fn LLVMGetInitializer(v: Val) -> Val;
    pub fn LLVMIsGlobalConstant(v: Val) -> c_int;
    pub fn LLVMGlobalGetValueType(v: Val) -> Ty;
    pub fn LLVMGetValueName2(v: Val, len: *mut usize) -> *const c_char;
    pub fn LLVMIsDeclaration(v: Val) -> c_int;
    pub fn LLVMCountParams(v: Val) -> c_uint;
    pub fn LLVMGetParam(v: Val, i: c_uint) -> Val;
    pub fn LLVMGetFirstBasicBlock(v: Val) -> BB;
    pub fn LLVMGetNextBasicBlock(v: BB) -> BB;
    pub fn LLVMGetFirstInstruction(v: BB) -> Val;
    pub fn LLVMGetNextInstruction(v: Val) -> Val;
    pub fn LLVMGetInstructionOpcode(v: Val) -> c_int;
    pub fn LLVMGetNumOperands(v: Val) -> c_int;
    pub fn LLVMGetOperand(v: Val, i: c_uint) -> Val;
    pub fn LLVMTypeOf(v: Val) -> Ty;
    pub fn LLVMGetICmpPredicate(v: Val) -> c_int;
    pub fn LLVMCountIncoming(v: Val) -> c_uint;
    pub fn LLVMGetIncomingValue(v: Val, i: c_uint) -> Val;
    pub fn LLVMGetIncomingBlock(v: Val, i: c_uint) -> BB;
    pub fn LLVMGetCondition(v: Val) -> Val;
    pub fn LLVMGetNumSuccessors(v: Val) -> c_uint;
    pub fn LLVMGetSuccessor(v: Val, i: c_uint) -> BB;
    pub fn LLVMGetSwitchCaseValue(v: Val, i: c_uint) -> Val;
    pub fn LLVMGetNormalDest(v: Val) -> BB;
    pub fn LLVMGetCalledValue(v: Val) -> Val;
    pub fn LLVMGetNumArgOperands(v: Val) -> c_uint;
    pub fn LLVMGetGEPSourceElementType(v: Val) -> Ty;
    pub fn LLVMGetNumIndices(v: Val) -> c_uint;
    pub fn LLVMGetIndices(v: Val) -> *const c_uint;
    pub fn LLVMGetAllocatedType(v: Val) -> Ty;
    pub fn LLVMGetAtomicRMWBinOp(v: Val) -> c_int;
    pub fn LLVMConstIntGetZExtValue(v: Val) -> c_ulonglong;
    pub fn LLVMPrintValueToString(v: Val) -> *mut c_char;
    pub fn LLVMPrintTypeToString(v: Ty) -> *mut c_char;
    pub fn LLVMDisposeMessage(v: *mut c_char);
    pub fn LLVMGetRawDataValues(v: Val, n: *mut usize) -> *const u8;
    pub fn LLVMGetElementAsConstant(v: Val, i: c_uint) -> Val;
    pub fn LLVMGetAggregateElement(v: Val, i: c_uint) -> Val;
    pub fn LLVMGetConstOpcode(v: Val) -> c_int;
    pub fn LLVMGetTypeKind(t: Ty) -> c_int;
    pub fn LLVMGetIntTypeWidth(t: Ty) -> c_uint;
    pub fn LLVMCountStructElementTypes(t: Ty) -> c_uint;
    pub fn LLVMStructGetTypeAtIndex(t: Ty, i: c_uint) -> Ty;
    pub fn LLVMGetElementType(t: Ty) -> Ty;
    pub fn LLVMGetArrayLength2(t: Ty) -> u64;
    pub fn LLVMGetVectorSize(t: Ty) -> c_uint;
    pub fn LLVMGetModuleDataLayout(m: Mod) -> TD;
    pub fn LLVMABISizeOfType(td: TD, t: Ty) -> c_ulonglong;
    pub fn LLVMStoreSizeOfType(td: TD, t: Ty) -> c_ulonglong;
    pub fn LLVMABIAlignmentOfType(td: TD, t: Ty) -> c_uint;
    pub fn LLVMOffsetOfElement(td: TD, t: Ty, i: c_uint) -> c_ulonglong;
    pub fn LLVMGetNumMaskElements(v: Val) -> c_uint;
    pub fn LLVMGetMaskValue(v: Val, i: c_uint) -> c_int;
    pub fn LLVMIsAConstantInt(v: Val) -> Val;
    pub fn LLVMIsAConstantPointerNull(v: Val) -> Val;
    pub fn LLVMIsAConstantAggregateZero(v: Val) -> Val;
    pub fn LLVMIsAUndefValue(v: Val) -> Val;
    pub fn LLVMIsAPoisonValue(v: Val) -> Val;
    pub fn LLVMIsAConstantStruct(v: Val) -> Val;
    pub fn LLVMIsAConstantArray(v: Val) -> Val;
    pub fn LLVMIsAConstantVector(v: Val) -> Val;
    pub fn LLVMIsAConstantDataSequential(v: Val) -> Val;
    pub fn LLVMIsAConstantExpr(v: Val) -> Val;
    pub fn LLVMIsAGlobalVariable(v: Val) -> Val;
    pub fn LLVMIsAGlobalAlias(v: Val) -> Val;
    pub fn LLVMIsAFunction(v: Val) -> Val;
    pub fn LLVMIsAInlineAsm(v: Val) -> Val;
    pub fn LLVMGetDebugLocLine(v: Val) -> c_uint;
    pub fn LLVMGetDebugLocFilename(v: Val, len: *mut c_uint) -> *const c_char;
    pub fn LLVMGetDebugLocDirectory(v: Val, len: *mut c_uint) -> *const c_char;
}

/// What kind of value, by LLVM's class tests (the numbering of LLVMGetValueKind differs between releases).
pub fn kind(v: Val) -> i32 {
    unsafe {
        macro_rules! k { ($($f:ident => $n:expr),*) => { $( if !$f(v).is_null() { return $n } )* } }
        k!(LLVMIsAConstantInt => 18, LLVMIsAFunction => 5, LLVMIsAGlobalVariable => 8, LLVMIsAGlobalAlias => 6, LLVMIsAConstantPointerNull => 20,
           LLVMIsAPoisonValue => 25, LLVMIsAUndefValue => 14, LLVMIsAConstantAggregateZero => 15, LLVMIsAConstantDataSequential => 16,
           LLVMIsAConstantStruct => 12, LLVMIsAConstantArray => 11, LLVMIsAConstantVector => 13, LLVMIsAConstantExpr => 10, LLVMIsAInlineAsm => 23);
        -1
    }
}
pub fn name(v: Val) -> String {
    unsafe {
        let mut n = 0usize;
        let p = LLVMGetValueName2(v, &mut n);
        String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).to_string()
    }
}
pub fn print(v: Val) -> String {
    unsafe {
        let p = LLVMPrintValueToString(v);
        let s = CStr::from_ptr(p).to_string_lossy().to_string();
        LLVMDisposeMessage(p);
        s
    }
}
pub fn print_ty(v: Ty) -> String {
    unsafe {
        let p = LLVMPrintTypeToString(v);
        let s = CStr::from_ptr(p).to_string_lossy().to_string();
        LLVMDisposeMessage(p);
        s
    }
}
pub fn load_module(path: &str) -> Mod {
    unsafe {
        let c = LLVMContextCreate();
        let p = std::ffi::CString::new(path).unwrap();
        let mut buf = std::ptr::null_mut();
        let mut msg = std::ptr::null_mut();
        if LLVMCreateMemoryBufferWithContentsOfFile(p.as_ptr(), &mut buf, &mut msg) != 0 {
            panic!("cannot read {path}");
        }
        let mut m = std::ptr::null_mut();
        if LLVMParseBitcodeInContext2(c, buf, &mut m) != 0 {
            panic!("cannot parse {path}");
        }
        m
    }
}
