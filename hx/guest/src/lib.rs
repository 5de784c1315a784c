#![no_std]
#![feature(f16, f128, wasm_numeric_instr)]
#![allow(static_mut_refs)]
include!("common.rs");
#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! { core::arch::wasm32::unreachable() }
#[unsafe(no_mangle)]
pub extern "C" fn x_init() -> usize { init() }
#[unsafe(no_mangle)]
pub extern "C" fn x_names() -> usize { names() }
#[unsafe(no_mangle)]
pub extern "C" fn x_buf() -> *mut u8 { &raw mut BUF as *mut u8 }
#[unsafe(no_mangle)]
pub extern "C" fn x_run(n: usize) { run(n) }
#[unsafe(no_mangle)]
pub extern "C" fn x_cur() -> usize { unsafe { CUR } }
