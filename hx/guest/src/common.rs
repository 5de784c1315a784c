// Record: function index, argument bits; the results replace the first two arguments.
extern crate alloc;
mod lib_table {
    #![allow(dead_code)]
    use alloc::{format, string::String, vec, vec::Vec};
    include!("../../../h/src/lib_table.rs");
}
// Targets and toolchains without f16 or f128: stand-ins that the host never calls.
#[allow(dead_code)]
mod l {
    pub use ::libm::*;
    // The sources' WebAssembly routines. (The crate uses them with a feature that does not compile
    // with a newer compiler; only such a compiler has the sources of `core` to build for wasm.)
    #[cfg(feature = "wasm-arch")]
    #[path = "/repo/libm/src/math/arch/wasm32.rs"]
    mod arch;
    #[cfg(feature = "wasm-arch")]
    pub use arch::{ceil, ceilf, fabs, fabsf, floor, floorf, rint, rintf, sqrt, sqrtf, trunc, truncf};
    #[cfg(any(target_arch = "wasm32", not(feature = "float")))]
    mod no16 {
        macro_rules! u { ($($n:ident),*) => { $(pub fn $n(x: f16) -> f16 { x })* }; }
        macro_rules! b { ($($n:ident),*) => { $(pub fn $n(x: f16, _: f16) -> f16 { x })* }; }
        u!(ceilf16, fabsf16, floorf16, rintf16, roundf16, roundevenf16, sqrtf16, truncf16);
        b!(copysignf16, fdimf16, fmaxf16, fminf16, fmaximumf16, fmaximum_numf16, fminimumf16, fminimum_numf16, fmodf16);
        pub fn ldexpf16(x: f16, _: i32) -> f16 { x }
        pub fn scalbnf16(x: f16, _: i32) -> f16 { x }
    }
    #[cfg(any(target_arch = "wasm32", not(feature = "float")))]
    pub use no16::*;
    #[cfg(not(feature = "float"))]
    mod no128 {
        macro_rules! u { ($($n:ident),*) => { $(pub fn $n(x: f128) -> f128 { x })* }; }
        macro_rules! b { ($($n:ident),*) => { $(pub fn $n(x: f128, _: f128) -> f128 { x })* }; }
        u!(ceilf128, fabsf128, floorf128, rintf128, roundf128, roundevenf128, sqrtf128, truncf128);
        b!(copysignf128, fdimf128, fmaxf128, fminf128, fmaximumf128, fmaximum_numf128, fminimumf128, fminimum_numf128, fmodf128);
        pub fn fmaf128(x: f128, _: f128, _: f128) -> f128 { x }
        pub fn ldexpf128(x: f128, _: i32) -> f128 { x }
        pub fn scalbnf128(x: f128, _: i32) -> f128 { x }
    }
    #[cfg(not(feature = "float"))]
    pub use no128::*;
}
pub mod t {
    use super::l as L;
    const NAME: &str = "guest";
    include!("../../../h/src/table.rs");
}
use lib_table::*;

struct Bump;
static mut HEAP: [u128; 1 << 13] = [0; 1 << 13];
static mut TOP: usize = 0;
unsafe impl core::alloc::GlobalAlloc for Bump {
    unsafe fn alloc(&self, l: core::alloc::Layout) -> *mut u8 {
        unsafe {
            let base = &raw mut HEAP as *mut u8;
            TOP = (TOP + l.align() - 1) & !(l.align() - 1);
            let p = base.add(TOP);
            TOP += l.size();
            if TOP > 16 << 13 { return core::ptr::null_mut(); }
            p
        }
    }
    unsafe fn dealloc(&self, _: *mut u8, _: core::alloc::Layout) {}
}
#[global_allocator]
static A: Bump = Bump;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Rec { pub f: u32, pub pad: [u32; 3], pub a: [u128; 3] }
pub const N: usize = 4096;
pub static mut BUF: [Rec; N] = [Rec { f: 0, pad: [0; 3], a: [0; 3] }; N];
static mut TAB: *const [Func] = &[];

pub fn init() -> usize {
    unsafe {
        let v = t::LIB.funcs();
        TAB = alloc::vec::Vec::leak(v);
        (&*TAB).len()
    }
}
/// The names of the functions, one per line, into the buffer; returns the length.
pub fn names() -> usize {
    unsafe {
        let b = &raw mut BUF as *mut u8;
        let mut k = 0;
        for f in &*TAB {
            for c in f.name.bytes() { *b.add(k) = c; k += 1; }
            *b.add(k) = b'\n';
            k += 1;
        }
        k
    }
}
pub static mut CUR: usize = 0;
pub fn run(n: usize) {
    unsafe {
        let b = &raw mut BUF as *mut Rec;
        for k in 0..n {
            let r = b.add(k);
            core::ptr::write_volatile(&raw mut CUR, k);
            let o = (&*TAB)[(*r).f as usize].run(&(*r).a);
            (*r).a[0] = o.0;
            (*r).a[1] = o.1;
        }
    }
}
