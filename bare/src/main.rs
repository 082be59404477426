//! The vm in a process without std, libc and allocator: it links only if the crate needs none of
//! them. Speaks the worker protocol over raw system calls.
#![no_std]
#![no_main]
#![allow(warnings)]
use core::arch::{asm, global_asm};
use hvm::{Env, Out, Vm};

#[cfg(target_arch = "x86_64")]
global_asm!(
    ".globl _start",
    "_start:",
    "xor ebp, ebp",
    "and rsp, -64",
    "call bare_main",
    "ud2",
);
#[cfg(target_arch = "aarch64")]
global_asm!(".globl _start", "_start:", "mov x29, #0", "bl bare_main", "brk #1");

#[cfg(target_arch = "x86_64")]
unsafe fn sys(n: usize, a: usize, b: usize, c: usize) -> isize {
    let n = match n {
        READ => 0,
        WRITE => 1,
        _ => 231usize,
    };
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         out("rcx") _, out("r11") _);
    r
}
#[cfg(target_arch = "aarch64")]
unsafe fn sys(n: usize, a: usize, b: usize, c: usize) -> isize {
    let n = match n {
        READ => 63,
        WRITE => 64,
        _ => 94usize,
    };
    let r: isize;
    asm!("svc #0", in("x8") n, inlateout("x0") a as isize => r, in("x1") b, in("x2") c);
    r
}
const READ: usize = 0;
const WRITE: usize = 1;
const EXIT: usize = 2;

fn exit(code: usize) -> ! {
    unsafe {
        sys(EXIT, code, 0, 0);
    }
    loop {}
}
#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    // same signal an aborting process gives
    unsafe {
        #[cfg(target_arch = "x86_64")]
        asm!("ud2");
        #[cfg(target_arch = "aarch64")]
        asm!("brk #1");
    }
    exit(96)
}

fn read_exact(b: &mut [u8]) {
    let mut k = 0;
    while k < b.len() {
        let r = unsafe { sys(READ, 0, b[k..].as_mut_ptr() as usize, b.len() - k) };
        if r == -4 {
            continue;
        }
        if r <= 0 {
            exit(0);
        }
        k += r as usize;
    }
}
fn write_all(b: &[u8]) {
    let mut k = 0;
    while k < b.len() {
        let r = unsafe { sys(WRITE, 1, b[k..].as_ptr() as usize, b.len() - k) };
        if r == -4 {
            continue;
        }
        if r <= 0 {
            exit(0);
        }
        k += r as usize;
    }
}

const IN: usize = 8 << 20;
const OUT: usize = 4 << 20;
const SCRATCH: usize = 17 << 20;
static mut BUF_IN: [u8; IN] = [0; IN];
static mut BUF_OUT: [u8; OUT] = [0; OUT];
static mut BUF_SCRATCH: [u8; SCRATCH] = [0; SCRATCH];

struct E;
impl Env for E {
    fn scratch(&mut self, len: usize) -> Option<&mut [u8]> {
        if len > SCRATCH {
            return None;
        }
        Some(unsafe { core::slice::from_raw_parts_mut(&raw mut BUF_SCRATCH as *mut u8, len) })
    }
}

#[no_mangle]
extern "C" fn bare_main() -> ! {
    let i = unsafe { core::slice::from_raw_parts_mut(&raw mut BUF_IN as *mut u8, IN) };
    let o = unsafe { core::slice::from_raw_parts_mut(&raw mut BUF_OUT as *mut u8, OUT) };
    loop {
        let mut l = [0u8; 4];
        read_exact(&mut l);
        let n = u32::from_le_bytes(l) as usize;
        if n > IN || n == 0 {
            exit(95);
        }
        read_exact(&mut i[..n]);
        let mut out = Out::new(&mut o[13..]);
        match i[0] {
            0 => Vm::default().run(&i[2..n], &mut E, &mut out),
            1 => hvm::info(&mut out),
            _ => exit(94),
        }
        let m = out.pos();
        o[..4].copy_from_slice(&((m + 9) as u32).to_le_bytes());
        o[4..13].fill(0);
        write_all(&o[..m + 13]);
    }
}

// what a compiler may call implicitly; byte loops that cannot become calls of themselves
#[no_mangle]
unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    #[cfg(target_arch = "x86_64")]
    asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack));
    #[cfg(not(target_arch = "x86_64"))]
    for i in 0..n {
        d.add(i).write_volatile(*s.add(i));
    }
    d
}
#[no_mangle]
unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if (d as usize) <= s as usize || d as usize >= s as usize + n {
        return memcpy(d, s, n);
    }
    for i in (0..n).rev() {
        d.add(i).write_volatile(*s.add(i));
    }
    d
}
#[no_mangle]
unsafe extern "C" fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    #[cfg(target_arch = "x86_64")]
    asm!("rep stosb", inout("rcx") n => _, inout("rdi") d => _, in("al") c as u8, options(nostack));
    #[cfg(not(target_arch = "x86_64"))]
    for i in 0..n {
        d.add(i).write_volatile(c as u8);
    }
    d
}
#[no_mangle]
unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    for i in 0..n {
        let (x, y) = (a.add(i).read_volatile(), b.add(i).read_volatile());
        if x != y {
            return x as i32 - y as i32;
        }
    }
    0
}
#[no_mangle]
unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    memcmp(a, b, n)
}
#[no_mangle]
unsafe extern "C" fn strlen(a: *const u8) -> usize {
    let mut n = 0;
    while a.add(n).read_volatile() != 0 {
        n += 1;
    }
    n
}
#[no_mangle]
extern "C" fn rust_eh_personality() {}
#[no_mangle]
extern "C" fn _Unwind_Resume() -> ! {
    exit(93)
}
