//! Executes histories for the driver: framed requests on stdin, framed responses on stdout.
use hvm::{Env, NoEnv, Out, Vm};
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};

static COUNTING: AtomicBool = AtomicBool::new(false);
static ALLOCS: AtomicUsize = AtomicUsize::new(0);

fn note() {
    if COUNTING.load(SeqCst) {
        ALLOCS.fetch_add(1, SeqCst);
    }
}
struct Counter;
unsafe impl GlobalAlloc for Counter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note();
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static G: Counter = Counter;

/// libc entry points replaced through `ld --wrap`, so that allocations that bypass the global
/// allocator are counted too.
#[cfg(feature = "wrap")]
mod wrap {
    use super::note;
    use libc::{c_int, c_void, off_t, size_t};
    macro_rules! wrapped {
        ($($w:ident $r:ident ($($a:ident : $t:ty),*) -> $ret:ty;)*) => {
            extern "C" { $(fn $r($($a: $t),*) -> $ret;)* }
            $(#[no_mangle] unsafe extern "C" fn $w($($a: $t),*) -> $ret { note(); $r($($a),*) })*
        };
    }
    wrapped! {
        __wrap_malloc __real_malloc(n: size_t) -> *mut c_void;
        __wrap_calloc __real_calloc(n: size_t, m: size_t) -> *mut c_void;
        __wrap_realloc __real_realloc(p: *mut c_void, n: size_t) -> *mut c_void;
        __wrap_posix_memalign __real_posix_memalign(p: *mut *mut c_void, a: size_t, n: size_t) -> c_int;
        __wrap_aligned_alloc __real_aligned_alloc(a: size_t, n: size_t) -> *mut c_void;
        __wrap_memalign __real_memalign(a: size_t, n: size_t) -> *mut c_void;
        __wrap_valloc __real_valloc(n: size_t) -> *mut c_void;
        __wrap_brk __real_brk(p: *mut c_void) -> c_int;
        __wrap_sbrk __real_sbrk(n: isize) -> *mut c_void;
        __wrap_strdup __real_strdup(p: *const i8) -> *mut i8;
        __wrap_mmap __real_mmap(a: *mut c_void, l: size_t, p: c_int, f: c_int, d: c_int, o: off_t) -> *mut c_void;
        __wrap_mmap64 __real_mmap64(a: *mut c_void, l: size_t, p: c_int, f: c_int, d: c_int, o: off_t) -> *mut c_void;
        __wrap_mremap __real_mremap(a: *mut c_void, l: size_t, n: size_t, f: c_int) -> *mut c_void;
    }
}

// ---------------------------------------------------------------- placement

const ARENA: usize = 64 * 1024;
#[cfg(not(miri))]
const PAGE: usize = 4096;

/// [guard page][ARENA bytes][guard page]; where the system permits, a multiple of 4 GiB (of 2 GiB on
/// 32-bit targets) lies `edge` bytes into the arena
#[cfg(not(miri))]
fn arena(edge: usize) -> *mut u8 {
    static NEXT: AtomicUsize = AtomicUsize::new(0x5a5);
    let hint = if std::env::var_os("VERIF_FAR").is_none() {
        0
    } else if cfg!(target_pointer_width = "64") {
        (NEXT.fetch_add(3, SeqCst) as u64) << 32
    } else {
        1u64 << 31
    };
    let hint = (hint as usize).saturating_sub(edge + PAGE);
    unsafe {
        let p = libc::mmap(
            hint as *mut libc::c_void,
            ARENA + 2 * PAGE,
            libc::PROT_NONE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "mmap");
        let p = p.cast::<u8>().add(PAGE);
        assert!(libc::mprotect(p.cast(), ARENA, libc::PROT_READ | libc::PROT_WRITE) == 0);
        p
    }
}

struct PlaceEnv {
    data: *mut u8,
    objs: [*mut u8; hvm::ops::NSLOTS],
    heap: Vec<(*mut u8, Layout)>,
    objheap: [Option<(*mut u8, Layout)>; hvm::ops::NSLOTS],
    current: Option<(*const u8, *const u8, usize)>,
    ro: bool,
    /// set when the callee modified the bytes it was given
    pub tampered: bool,
    scratch: Vec<u8>,
}

unsafe impl Send for PlaceEnv {}

impl PlaceEnv {
    fn new() -> Self {
        PlaceEnv {
            data: std::ptr::null_mut(),
            objs: [std::ptr::null_mut(); hvm::ops::NSLOTS],
            heap: Vec::with_capacity(16),
            objheap: [None; hvm::ops::NSLOTS],
            current: None,
            ro: false,
            tampered: false,
            scratch: Vec::new(),
        }
    }
}

impl Env for PlaceEnv {
    /// 0 in place; 1/2 end at guard (filler A/B); 3/4 start after guard; 5 end at guard, read-only;
    /// 6 exact heap block; 7 start after guard, read-only; 0x40|a, 0x80|a alignment a with fillers A/B.
    unsafe fn place_data(&mut self, data: *const u8, len: usize, how: u8) -> *const u8 {
        if how == 0 {
            return data;
        }
        if how == 6 {
            if len == 0 {
                return std::ptr::NonNull::<u8>::dangling().as_ptr();
            }
            let l = Layout::from_size_align(len, 1).unwrap();
            let p = std::alloc::alloc(l);
            std::ptr::copy_nonoverlapping(data, p, len);
            self.heap.push((p, l));
            self.current = Some((data, p, len));
            return p;
        }
        #[cfg(not(miri))]
        {
            if len + 192 > ARENA {
                return data;
            }
            if self.data.is_null() {
                self.data = arena(4096);
            }
            let a = self.data;
            let off = match how {
                1 | 2 | 5 => ARENA - len,
                3 | 4 | 7 => 0,
                h => 4096 - 64 + (h & 63) as usize,
            };
            let filler = if matches!(how, 2 | 4) || how & 0x80 != 0 { 0xB7u8 } else { 0x00u8 };
            // neighbours on both sides
            let lo = off.saturating_sub(128);
            let hi = (off + len + 128).min(ARENA);
            for i in lo..hi {
                *a.add(i) = filler.wrapping_mul((i as u8) | 1);
            }
            let p = a.add(off);
            std::ptr::copy_nonoverlapping(data, p, len);
            if matches!(how, 5 | 7) {
                assert!(libc::mprotect(a.cast(), ARENA, libc::PROT_READ) == 0);
                self.ro = true;
            }
            self.current = Some((data, p, len));
            p
        }
        #[cfg(miri)]
        data
    }
    fn unplace_data(&mut self) {
        if let Some((d, p, n)) = self.current.take() {
            unsafe {
                if std::slice::from_raw_parts(d, n) != std::slice::from_raw_parts(p, n) {
                    self.tampered = true;
                }
            }
        }
        #[cfg(not(miri))]
        if self.ro {
            self.ro = false;
            unsafe {
                assert!(libc::mprotect(self.data.cast(), ARENA, libc::PROT_READ | libc::PROT_WRITE) == 0);
            }
        }
        for (p, l) in self.heap.drain(..) {
            unsafe { std::alloc::dealloc(p, l) }
        }
    }
    /// 1 end of object at guard page; 2 start of object after guard page; 3 exact heap block;
    /// 0x40|k: at multiples of its alignment around the middle boundary
    fn place_obj(&mut self, slot: usize, size: usize, align: usize, place: u8) -> *mut u8 {
        if place == 3 {
            let l = Layout::from_size_align(size, align).unwrap();
            let p = unsafe { std::alloc::alloc(l) };
            // the previous block (if any) stays alive until its contents have been moved
            self.objheap[slot] = Some((p, l));
            return p;
        }
        #[cfg(not(miri))]
        {
            if self.objs[slot].is_null() {
                self.objs[slot] = arena(12288);
            }
            let a = self.objs[slot];
            // alternate halves so that source and destination never overlap
            match place {
                1 => unsafe { a.add(ARENA - size) },
                2 => a,
                k if k & 0x40 != 0 => unsafe { a.add(12288 - 64 * align + (k & 0x3f) as usize * align) },
                _ => std::ptr::null_mut(),
            }
        }
        #[cfg(miri)]
        std::ptr::null_mut()
    }
    fn scratch(&mut self, len: usize) -> Option<&mut [u8]> {
        if self.scratch.len() < len {
            return None;
        }
        Some(&mut self.scratch[..len])
    }
}

// ---------------------------------------------------------------- requests

struct Resp {
    status: u8,
    allocs: u64,
    body: Vec<u8>,
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Runs a program; the records of the operations completed before a panic are kept.
fn run_prog(prog: &[u8], buf: &mut [u8], env: &mut PlaceEnv, count: bool, vm: &mut Vm) -> (Result<(), String>, usize) {
    let mut out = Out::new(buf);
    let r = catch_unwind(AssertUnwindSafe(|| {
        if count {
            // no placement, no harness allocations: every allocation belongs to the library
            ALLOCS.store(0, SeqCst);
            let mut e = NoAllocEnv(std::mem::take(&mut env.scratch));
            COUNTING.store(true, SeqCst);
            vm.run(prog, &mut e, &mut out);
            COUNTING.store(false, SeqCst);
            env.scratch = e.0;
        } else {
            vm.run(prog, env, &mut out);
        }
    }));
    COUNTING.store(false, SeqCst);
    let n = out.pos();
    (r.map_err(panic_text), n)
}

struct NoAllocEnv(Vec<u8>);
impl Env for NoAllocEnv {
    fn scratch(&mut self, len: usize) -> Option<&mut [u8]> {
        if self.0.len() < len {
            return None;
        }
        Some(&mut self.0[..len])
    }
}

/// body: flags u8 (1 count allocations), program
fn kind_prog(body: &[u8], st: &mut State) -> Resp {
    let count = body[0] & 1 != 0;
    let prog = &body[1..];
    if count && st.env.scratch.is_empty() {
        st.env.scratch = vec![0; 16 << 20];
    }
    let mut vm = Vm::default();
    st.env.tampered = false;
    let (r, n) = run_prog(prog, &mut st.out, &mut st.env, count, &mut vm);
    drop(vm);
    for o in st.env.objheap.iter_mut() {
        if let Some((p, l)) = o.take() {
            unsafe { std::alloc::dealloc(p, l) }
        }
    }
    st.env.unplace_data();
    let allocs = ALLOCS.swap(0, SeqCst) as u64;
    match r {
        Ok(()) if st.env.tampered => Resp { status: 2, allocs, body: b"input bytes were modified".to_vec() },
        Ok(()) => Resp { status: 0, allocs, body: st.out[..n].to_vec() },
        Err(m) => Resp { status: 1, allocs, body: m.into_bytes() },
    }
}

/// body: nthreads u8, program. Operation i runs on thread i % nthreads.
fn kind_migrate(body: &[u8], st: &mut State) -> Resp {
    use std::sync::{Condvar, Mutex};
    let k = body[0] as usize;
    let prog = &body[1..];
    struct Sh<'a> {
        vm: Vm,
        out: Out<'a>,
        pos: usize,
        turn: usize,
        dead: Option<String>,
    }
    let sh = Mutex::new(Sh { vm: Vm::default(), out: Out::new(&mut st.out), pos: 0, turn: 0, dead: None });
    let cv = Condvar::new();
    std::thread::scope(|s| {
        for t in 0..k {
            let (sh, cv) = (&sh, &cv);
            s.spawn(move || {
                let mut g = sh.lock().unwrap();
                loop {
                    while g.turn != t && g.pos < prog.len() && g.dead.is_none() {
                        g = cv.wait(g).unwrap();
                    }
                    if g.pos >= prog.len() || g.dead.is_some() {
                        cv.notify_all();
                        return;
                    }
                    let q = &mut *g;
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        q.pos = q.vm.run_one(prog, q.pos, &mut NoEnv, &mut q.out);
                    }));
                    if let Err(e) = r {
                        q.dead = Some(panic_text(e));
                    }
                    q.turn = (t + 1) % k;
                    cv.notify_all();
                }
            });
        }
    });
    let g = sh.into_inner().unwrap();
    match g.dead {
        None => {
            let n = g.out.pos();
            Resp { status: 0, allocs: 0, body: st.out[..n].to_vec() }
        }
        Some(m) => Resp { status: 1, allocs: 0, body: m.into_bytes() },
    }
}

/// body: threads u8, rounds u32, len u32, first part of a program, second part. Between the parts
/// all threads observe the live hashers through shared references.
fn kind_shared(body: &[u8], st: &mut State) -> Resp {
    let k = body[0] as usize;
    let rounds = u32::from_le_bytes(body[1..5].try_into().unwrap());
    let n = u32::from_le_bytes(body[5..9].try_into().unwrap()) as usize;
    let (first, second) = body[9..].split_at(n);
    let mut vm = Vm::default();
    struct Sp(*const Vm);
    unsafe impl Send for Sp {}
    unsafe impl Sync for Sp {}
    let mut out = Out::new(&mut st.out);
    if let Err(e) = catch_unwind(AssertUnwindSafe(|| vm.run(first, &mut NoEnv, &mut out))) {
        return Resp { status: 1, allocs: 0, body: panic_text(e).into_bytes() };
    }
    let vp = Sp(&vm);
    let barrier = std::sync::Barrier::new(k);
    let seen: Vec<_> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..k)
            .map(|t| {
                let (vp, barrier) = (&vp, &barrier);
                s.spawn(move || {
                    barrier.wait();
                    catch_unwind(AssertUnwindSafe(|| unsafe { &*vp.0 }.observe(t as u32, rounds))).map_err(panic_text)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(Err("thread panicked".into()))).collect()
    });
    let after = vm.observe(0, 1);
    for r in seen {
        match r {
            Err(m) => return Resp { status: 1, allocs: 0, body: m.into_bytes() },
            Ok(d) if d == after => {}
            Ok(_) => {
                let m = "observers running in several threads on the same hashers disagree";
                return Resp { status: 2, allocs: 0, body: m.into() };
            }
        }
    }
    if let Err(e) = catch_unwind(AssertUnwindSafe(|| vm.run(second, &mut NoEnv, &mut out))) {
        return Resp { status: 1, allocs: 0, body: panic_text(e).into_bytes() };
    }
    let n = out.pos();
    Resp { status: 0, allocs: 0, body: st.out[..n].to_vec() }
}

/// body: repeats u32, shared key[32], nprogs u8, (len u32, program)*. Every program runs in its own
/// thread `repeats` times; builder register 0 of every vm is one shared `HighwayBuildHasher`.
/// With bit 31 of `repeats` the concurrent phase comes before the baselines, without the shared
/// builder: whatever the crate sets up on first use is then set up by several threads at once.
/// Response: for each program the records of its first repetition whose output differed from the
/// sequential baseline (tag 1) or of the baseline itself (tag 0).
fn kind_threads(body: &[u8]) -> Resp {
    let rep = u32::from_le_bytes(body[..4].try_into().unwrap());
    let mut k = [0u64; 4];
    for (i, x) in k.iter_mut().enumerate() {
        *x = u64::from_le_bytes(body[4 + i * 8..12 + i * 8].try_into().unwrap());
    }
    let n = body[36] as usize;
    let mut p = 37;
    let mut progs = Vec::new();
    for _ in 0..n {
        let l = u32::from_le_bytes(body[p..p + 4].try_into().unwrap()) as usize;
        progs.push(body[p + 4..p + 4 + l].to_vec());
        p += 4 + l;
    }
    let (first, rep) = (rep >> 31 == 1, rep & 0x7fff_ffff);
    let builder = (!first).then(|| highway::HighwayBuildHasher::new(highway::Key(k)));
    struct Sp(*const highway::HighwayBuildHasher);
    unsafe impl Send for Sp {}
    unsafe impl Sync for Sp {}
    let bp = Sp(builder.as_ref().map_or(std::ptr::null(), |b| b as *const _));
    let one = |prog: &[u8], buf: &mut [u8], bp: &Sp, cap: u32| -> Result<Vec<u8>, String> {
        let mut vm = Vm::default();
        vm.cap = cap;
        if !bp.0.is_null() {
            unsafe { vm.share_builder(0, bp.0) };
        }
        let mut out = Out::new(buf);
        catch_unwind(AssertUnwindSafe(|| vm.run(prog, &mut NoEnv, &mut out))).map_err(panic_text)?;
        let n = out.pos();
        Ok(buf[..n].to_vec())
    };
    let early: Vec<Result<Vec<u8>, String>> = if first {
        let ready = std::sync::atomic::AtomicUsize::new(0);
        let start = |buf: &mut [u8], pr: &[u8]| {
            use std::sync::atomic::Ordering::SeqCst;
            ready.fetch_add(1, SeqCst);
            let mut spins = 0u32;
            while ready.load(SeqCst) < n {
                spins += 1;
                match spins {
                    0..20_000 => std::hint::spin_loop(),
                    _ => std::thread::yield_now(),
                }
            }
            one(pr, buf, &bp, 2)
        };
        std::thread::scope(|s| {
            let hs: Vec<_> = progs
                .iter()
                .map(|pr| {
                    let start = &start;
                    s.spawn(move || start(&mut vec![0u8; 1 << 20], pr))
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or(Err("thread panicked".into()))).collect()
        })
    } else {
        vec![]
    };
    let mut buf = vec![0u8; 1 << 20];
    let mut base = Vec::new();
    for pr in &progs {
        // a fresh thread per baseline, joined before the next one starts
        let r = std::thread::scope(|s| s.spawn(|| one(pr, &mut buf, &bp, 2)).join());
        match r {
            Ok(Ok(v)) => base.push(v),
            Ok(Err(m)) => return Resp { status: 1, allocs: 0, body: m.into_bytes() },
            Err(_) => return Resp { status: 1, allocs: 0, body: b"thread panicked".to_vec() },
        }
    }
    let barrier = std::sync::Barrier::new(n);
    let res: Vec<Result<Option<Vec<u8>>, String>> = if first {
        early.into_iter().zip(&base).map(|(e, b)| e.map(|v| (&v != b).then_some(v))).collect()
    } else { std::thread::scope(|s| {
        let hs: Vec<_> = progs
            .iter()
            .zip(&base)
            .map(|(pr, b)| {
                let (barrier, bp, one) = (&barrier, &bp, &one);
                s.spawn(move || {
                    let mut buf = vec![0u8; 1 << 20];
                    barrier.wait();
                    let mut bad = Ok(None);
                    for _ in 0..rep {
                        match one(pr, &mut buf, bp, u32::MAX) {
                            Ok(v) if &v == b => {}
                            Ok(v) => {
                                bad = Ok(Some(v));
                                break;
                            }
                            Err(m) => {
                                bad = Err(m);
                                break;
                            }
                        }
                    }
                    bad
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(Err("thread panicked".into()))).collect()
    }) };
    let mut body = Vec::new();
    for (r, b) in res.into_iter().zip(base) {
        let (tag, v) = match r {
            Ok(None) => (0u8, b),
            Ok(Some(v)) => (1, v),
            Err(m) => return Resp { status: 1, allocs: 0, body: m.into_bytes() },
        };
        body.push(tag);
        body.extend_from_slice(&(v.len() as u32).to_le_bytes());
        body.extend_from_slice(&v);
    }
    Resp { status: 0, allocs: 0, body }
}

/// body: backend u8, api u8, width u8, key[32], seed u64, prefix u64, total u64, chunk u64.
/// The stream is a 1 MiB tile repeated; its first `prefix` bytes go in one call, the rest in calls
/// of at most `chunk` bytes. Response: records of construction, bytes reported, result.
#[cfg(not(miri))]
fn kind_huge(body: &[u8]) -> Resp {
    use hvm::TILE;
    let (backend, api, width) = (body[0], body[1], body[2]);
    let g = |o: usize| u64::from_le_bytes(body[o..o + 8].try_into().unwrap());
    let key = highway::Key([g(3), g(11), g(19), g(27)]);
    let (seed, prefix, total, chunk) = (g(35), g(43), g(51), g(59));
    let map = usize::try_from(hvm::huge_span(api, prefix, total, chunk)).unwrap_or(usize::MAX & !(TILE - 1));
    // (there is a limit on the number of mappings)
    let big = if map as u64 > (TILE as u64) << 14 { TILE << 6 } else { TILE };
    let map = map.checked_next_multiple_of(big).unwrap_or(map);
    let base = unsafe {
        let fd = libc::memfd_create(c"tile".as_ptr(), 0);
        assert!(fd >= 0 && libc::ftruncate(fd, big as _) == 0);
        let p = libc::mmap(
            std::ptr::null_mut(),
            map,
            libc::PROT_NONE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        for i in 0..map / big {
            let q = libc::mmap(
                p.cast::<u8>().add(i * big).cast(),
                big,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_FIXED,
                fd,
                0,
            );
            assert!(q != libc::MAP_FAILED);
        }
        libc::close(fd);
        p.cast::<u8>()
    };
    hvm::expand(seed, unsafe { std::slice::from_raw_parts_mut(base, TILE) });
    for i in 1..big / TILE {
        unsafe { base.copy_to_nonoverlapping(base.add(i * TILE), TILE) };
    }
    let data = unsafe { std::slice::from_raw_parts(base, map) };
    let r = catch_unwind(AssertUnwindSafe(|| hvm::huge(backend, api, width, key, data, prefix, total, chunk)));
    unsafe { libc::munmap(base.cast(), map) };
    match r {
        Ok(Some((n, w))) => {
            let mut b = vec![1u8];
            b.extend_from_slice(&n.to_le_bytes());
            for x in w {
                b.extend_from_slice(&x.to_le_bytes());
            }
            Resp { status: 0, allocs: 0, body: b }
        }
        Ok(None) => Resp { status: 0, allocs: 0, body: vec![0] },
        Err(m) => Resp { status: 1, allocs: 0, body: panic_text(m).into_bytes() },
    }
}
#[cfg(miri)]
fn kind_huge(_: &[u8]) -> Resp {
    Resp { status: 0, allocs: 0, body: vec![0] }
}

struct State {
    out: Vec<u8>,
    env: PlaceEnv,
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    // Miri interprets every byte it initialises; keep its buffer small
    let mut st = State { out: vec![0; if cfg!(miri) { 1 << 17 } else { 4 << 20 }], env: PlaceEnv::new() };
    let mut i = std::io::stdin().lock();
    let mut o = std::io::stdout().lock();
    let mut req = Vec::new();
    loop {
        let mut l = [0u8; 4];
        if i.read_exact(&mut l).is_err() {
            return;
        }
        let n = u32::from_le_bytes(l) as usize;
        req.resize(n, 0);
        if i.read_exact(&mut req).is_err() {
            return;
        }
        let (kind, body) = (req[0], &req[1..]);
        let r = match kind {
            0 => kind_prog(body, &mut st),
            1 => {
                let mut out = Out::new(&mut st.out);
                hvm::info(&mut out);
                let n = out.pos();
                Resp { status: 0, allocs: 0, body: st.out[..n].to_vec() }
            }
            2 => kind_huge(body),
            3 => kind_threads(body),
            4 => kind_migrate(body, &mut st),
            5 => kind_shared(body, &mut st),
            _ => Resp { status: 3, allocs: 0, body: vec![] },
        };
        let mut msg = Vec::with_capacity(r.body.len() + 16);
        msg.extend_from_slice(&((r.body.len() + 9) as u32).to_le_bytes());
        msg.push(r.status);
        msg.extend_from_slice(&r.allocs.to_le_bytes());
        msg.extend_from_slice(&r.body);
        if o.write_all(&msg).is_err() || o.flush().is_err() {
            return;
        }
    }
}
