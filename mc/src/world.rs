//! What a parse could learn besides its input: environment variables, clocks, random numbers and files.
//!
//! The functions of the C library that tell are defined here in their place. Within `within`, they give the answers
//! of one of the `WORLDS`, so that a parse that asks is run under every answer. Otherwise they do what they should.
use std::cell::{Cell, RefCell};
use std::ffi::{CStr, c_char};
use std::ptr;

unsafe extern "C" {
    static environ: *const *const c_char;
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
}
const GETRANDOM: i64 = 318;
const CLOCK_GETTIME: i64 = 228;
const OPENAT: i64 = 257;

/// How a world answers.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct World {
    /// The value of every variable, if there are any. None: as it is.
    pub var: Option<Option<&'static CStr>>,
    /// The time of the first look at a clock in seconds, and how many ns pass between two looks. None: as it is.
    pub clock: Option<(i64, i64)>,
    /// Random bytes start with this number. None: as they are.
    pub random: Option<u8>,
    /// Whether files can be opened.
    pub files: bool,
}
const REAL: World = World { var: None, clock: None, random: None, files: true };

pub fn worlds(thorough: bool) -> Vec<World> {
    let mut l = vec![REAL];
    for v in [None, Some(c""), Some(c"0"), Some(c"1"), Some(c"true"), Some(c"false"), Some(c"full"), Some(c"x"), Some(c"65536"), Some(c"-1")] {
        l.push(World { var: Some(v), ..REAL })
    }
    let second = 1_000_000_000;
    for start in [0, 1, 1 << 31, 1 << 33] {
        for tick in [0, 1, 1_000_000, second, 3600 * second] {
            l.push(World { clock: Some((start, tick)), ..REAL })
        }
    }
    l.push(World { clock: Some((1 << 20, -second)), ..REAL });
    for seed in 0..if thorough { 255 } else { 16 } {
        l.push(World { random: Some(seed), ..REAL })
    }
    l.push(World { files: false, ..REAL });
    l
}

thread_local! {
    static NOW: Cell<Option<World>> = const { Cell::new(None) };
    static LOOKS: Cell<i64> = const { Cell::new(0) };
    static ASKED: RefCell<Vec<&'static str>> = const { RefCell::new(vec![]) };
}
/// The world of the current region; notes what was asked for.
fn now(what: &'static str) -> Option<World> {
    let w = NOW.try_with(|n| n.get()).ok().flatten()?;
    // nothing in here may ask again
    NOW.with(|n| n.set(None));
    ASKED.with(|a| a.borrow_mut().push(what));
    NOW.with(|n| n.set(Some(w)));
    Some(w)
}
/// Runs something in a world: what it yields and what it asked for.
pub fn within<R>(w: World, f: impl FnOnce() -> R) -> (R, Vec<&'static str>) {
    struct Back;
    impl Drop for Back {
        fn drop(&mut self) {
            NOW.with(|n| n.set(None))
        }
    }
    LOOKS.with(|l| l.set(0));
    ASKED.with(|a| a.borrow_mut().clear());
    NOW.with(|n| n.set(Some(w)));
    let back = Back;
    let r = f();
    drop(back);
    (r, ASKED.with(|a| std::mem::take(&mut *a.borrow_mut())))
}

fn var(name: *const c_char) -> *const c_char {
    unsafe {
        let name = CStr::from_ptr(name).to_bytes();
        let mut e = environ;
        while !e.is_null() && !(*e).is_null() {
            let v = CStr::from_ptr(*e).to_bytes();
            if v.len() > name.len() && v.starts_with(name) && v[name.len()] == b'=' {
                return (*e).add(name.len() + 1);
            }
            e = e.add(1);
        }
    }
    ptr::null()
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *const c_char {
    match now("an environment variable") {
        Some(World { var: Some(v), .. }) => v.map_or(ptr::null(), |v| v.as_ptr()),
        _ => var(name),
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clock: i32, time: *mut i64) -> i32 {
    match now("the time") {
        Some(World { clock: Some((start, tick)), .. }) => {
            let n = LOOKS.with(|l| l.replace(l.get() + 1));
            let t = i128::from(start) * 1_000_000_000 + i128::from(tick) * i128::from(n);
            unsafe {
                *time = t.div_euclid(1_000_000_000) as i64;
                *time.add(1) = t.rem_euclid(1_000_000_000) as i64;
            }
            0
        }
        _ => unsafe { syscall(CLOCK_GETTIME, clock, time) as i32 },
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, flags: u32) -> isize {
    match now("random numbers") {
        Some(World { random: Some(seed), .. }) => {
            for i in 0..n {
                unsafe { *buf.add(i) = seed.wrapping_mul(37).wrapping_add(i as u8 * 11) }
            }
            n as isize
        }
        _ => unsafe { syscall(GETRANDOM, buf, n, flags) as isize },
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(path: *const c_char, flags: i32, mode: u32) -> i32 {
    match now("a file") {
        Some(World { files: false, .. }) => unsafe {
            *__errno_location() = 2;
            -1
        },
        _ => unsafe { syscall(OPENAT, -100, path, flags, mode) as i32 },
    }
}
