//! The only nondeterminism of the library is the OS entropy behind `rand::thread_rng()`.
//! Every thread may ask for a fixed answer: `getrandom` and `syscall(SYS_getrandom)` are interposed.

use std::cell::Cell;

thread_local! {
    /// 0: real entropy; otherwise the seed of the answer stream for this thread.
    static SEED: Cell<u64> = const { Cell::new(0) };
    static CTR: Cell<u64> = const { Cell::new(0) };
}

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

unsafe fn answer(buf: *mut u8, len: usize) -> bool {
    let s = SEED.with(|s| s.get());
    if s == 0 {
        return false;
    }
    for i in 0..len {
        let c = CTR.with(|c| {
            let v = c.get();
            c.set(v + 1);
            v
        });
        *buf.add(i) = (mix(s ^ mix(c / 8)) >> (8 * (c % 8))) as u8;
    }
    true
}

unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let ret: i64;
    std::arch::asm!("syscall", inlateout("rax") n => ret, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    ret
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_getrandom && answer(a as *mut u8, b as usize) {
        return b;
    }
    let r = raw6(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if answer(buf, len) {
        return len as isize;
    }
    syscall(libc::SYS_getrandom, buf as i64, len as i64, flags as i64, 0, 0, 0) as isize
}

/// Run `f` in a fresh thread (so with a fresh thread_rng) whose OS entropy is the stream of `seed`.
pub fn seeded<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> Result<T, String> {
    std::thread::scope(|s| {
        s.spawn(move || {
            SEED.with(|c| c.set(seed));
            CTR.with(|c| c.set(0));
            crate::core::panics(f)
        })
        .join()
    })
    .unwrap_or_else(|_| Err("thread died".into()))
}
