//! fz PROPERTY TYPES SEED EXECS SECONDS CURRENT   search; the input being run is kept in CURRENT
//! fz PROPERTY TYPES one HEX                      one input
use fz::Fuzz;
use std::sync::atomic::{AtomicPtr, Ordering::Relaxed};
use std::time::Instant;

static CUR: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
const CAP: usize = 1 << 16;
fn before(b: &[u8]) {
    let p = CUR.load(Relaxed);
    if !p.is_null() {
        unsafe {
            let n = b.len().min(CAP - 8);
            p.cast::<u64>().write_volatile(n as u64);
            p.add(8).copy_from(b.as_ptr(), n);
        }
    }
}

extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
}

/// Memory between two pages without access.
fn arena(f: &mut Fuzz) {
    const N: usize = 1 << 16;
    unsafe {
        // PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS
        let p = mmap(std::ptr::null_mut(), 3 * N, 0, 0x22, -1, 0);
        assert!(p as usize != usize::MAX);
        assert!(mprotect(p.add(N), N, 3) == 0);
        f.edge(p.add(N), N);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop: u32 = a[1].parse().unwrap();
    let types: Vec<u8> = a[2].split(',').map(|x| x.parse().unwrap()).collect();
    std::panic::set_hook(Box::new(|_| {}));
    if a[3] == "one" {
        let b: Vec<u8> = (0..a[4].len() / 2).map(|i| u8::from_str_radix(&a[4][i * 2..i * 2 + 2], 16).unwrap()).collect();
        let mut f = Fuzz::new(prop, &types, 0, |_| {});
        arena(&mut f);
        if let Err(e) = f.single(&b) {
            println!("fail {}", e.replace('\n', " "));
            std::process::exit(1);
        }
        println!("holds");
        return;
    }
    let (seed, execs, secs): (u64, u64, f32) = (a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap());
    let file = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&a[6]).unwrap();
    file.set_len(CAP as u64).unwrap();
    {
        use std::os::fd::AsRawFd;
        // PROT_READ | PROT_WRITE, MAP_SHARED
        let p = unsafe { mmap(std::ptr::null_mut(), CAP, 3, 1, file.as_raw_fd(), 0) };
        assert!(p as usize != usize::MAX);
        CUR.store(p, Relaxed);
    }
    let mut f = Fuzz::new(prop, &types, seed, before);
    arena(&mut f);
    let t = Instant::now();
    let mut ok = true;
    while ok && f.execs < execs && t.elapsed().as_secs_f32() < secs {
        ok = f.go((f.execs + 2000).min(execs));
    }
    print!("{}", f.report());
    std::process::exit(!ok as i32);
}
