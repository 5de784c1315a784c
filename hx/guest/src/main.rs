// Static Linux program (32 or 64 bits): reads blocks of records from standard input, answers on standard
// output. No C library.
#![no_std]
#![no_main]
#![feature(f16, f128)]
#![allow(static_mut_refs)]
include!("common.rs");
use core::arch::asm;
#[cfg(target_arch = "x86")]
mod nr { pub const EXIT: usize = 1; pub const READ: usize = 3; pub const WRITE: usize = 4; }
#[cfg(target_arch = "x86_64")]
mod nr { pub const EXIT: usize = 60; pub const READ: usize = 0; pub const WRITE: usize = 1; }
#[cfg(target_arch = "x86")]
fn sys(n: usize, a: i32, b: usize, c: usize) -> isize {
    let r;
    unsafe { asm!("int 0x80", inlateout("eax") n => r, in("ebx") a, in("ecx") b, in("edx") c); }
    r
}
#[cfg(target_arch = "x86_64")]
fn sys(n: usize, a: i32, b: usize, c: usize) -> isize {
    let r;
    unsafe { asm!("syscall", inlateout("rax") n => r, in("rdi") a as isize, in("rsi") b, in("rdx") c, out("rcx") _, out("r11") _); }
    r
}
fn exit(c: i32) -> ! { sys(nr::EXIT, c, 0, 0); loop {} }
fn read_all(p: *mut u8, n: usize) -> usize {
    let mut k = 0;
    while k < n {
        let r = sys(nr::READ, 0, unsafe { p.add(k) } as usize, n - k);
        if r <= 0 { break; }
        k += r as usize;
    }
    k
}
fn write_all(p: *const u8, n: usize) {
    let mut k = 0;
    while k < n {
        let r = sys(nr::WRITE, 1, unsafe { p.add(k) } as usize, n - k);
        if r <= 0 { exit(3); }
        k += r as usize;
    }
}
#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    // tell which record panicked: a block with count 0xffffffff
    let m = [0xffff_ffffu32, unsafe { CUR } as u32];
    write_all(m.as_ptr() as *const u8, 8);
    exit(78)
}
#[unsafe(no_mangle)]
pub extern "C" fn start_() -> ! {
    init();
    let n = names();
    let h = [n as u32, 0];
    write_all(h.as_ptr() as *const u8, 8);
    write_all(&raw const BUF as *const u8, n);
    loop {
        let mut h = [0u32; 2];
        if read_all(&raw mut h as *mut u8, 8) < 8 { exit(0); }
        let sz = h[0] as usize * core::mem::size_of::<Rec>();
        if read_all(&raw mut BUF as *mut u8, sz) < sz { exit(3); }
        run(h[0] as usize);
        write_all(&raw const h as *const u8, 8);
        write_all(&raw const BUF as *const u8, sz);
    }
}
#[cfg(target_arch = "x86")]
core::arch::global_asm!(".globl _start", "_start:", "and esp, -16", "call start_");
#[cfg(target_arch = "x86_64")]
core::arch::global_asm!(".globl _start", "_start:", "and rsp, -16", "call start_");
// With the compiled `core` of a toolchain, which expects a C library.
#[cfg(feature = "own-mem")]
#[allow(suspicious_runtime_symbol_definitions, invalid_runtime_symbol_definitions, unknown_lints)]
mod mem {
    use super::asm;
    #[unsafe(no_mangle)]
    unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        unsafe { asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _); }
        d
    }
    #[unsafe(no_mangle)]
    unsafe extern "C" fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
        unsafe { asm!("rep stosb", inout("rcx") n => _, inout("rdi") d => _, in("al") c as u8); }
        d
    }
    #[unsafe(no_mangle)]
    unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        unsafe {
            if (d as usize).wrapping_sub(s as usize) >= n { return memcpy(d, s, n); }
            let mut k = n;
            while k > 0 { k -= 1; d.add(k).write_volatile(s.add(k).read_volatile()); }
        }
        d
    }
    #[unsafe(no_mangle)]
    unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
        unsafe {
            let mut k = 0;
            while k < n {
                let (x, y) = (a.add(k).read_volatile(), b.add(k).read_volatile());
                if x != y { return x as i32 - y as i32; }
                k += 1;
            }
        }
        0
    }
    #[unsafe(no_mangle)]
    extern "C" fn rust_eh_personality() {}
}
