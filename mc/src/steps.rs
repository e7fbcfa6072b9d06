//! Parses under single step: after every machine instruction, has memory that threads share changed? A
//! parse which writes none cannot be told from one that runs alone, whatever runs beside it, so that all
//! its schedules are one. Where a parse does write, another thread runs right before and after the write.
use crate::history::{Msg, fold, shown, spy};
use crate::serdes::Spy;
use nrbf::RemotingMessage;
use std::cell::Cell;
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

unsafe extern "C" {
    static data_start: u8;
    static _end: u8;
    fn sigaction(sig: i32, new: *const Action, old: *mut Action) -> i32;
    fn personality(p: u64) -> i32;
}
#[repr(C)]
struct Action {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

/// A write: the instructions since the write before it, and where it is.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Write {
    pub since: u64,
    pub at: usize,
}
/// A point of a parse: after so many writes, so many instructions later.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Point {
    pub writes: usize,
    pub since: u64,
}

struct Watch {
    snap: Vec<u8>,
    n: u64,
    since: u64,
    count: usize,
    writes: Vec<Write>,
    stop: Option<Point>,
    baton: Option<(Arc<AtomicUsize>, usize)>,
}
thread_local! {
    static WATCH: Cell<*mut Watch> = const { Cell::new(std::ptr::null_mut()) };
}

fn shared() -> &'static [u8] {
    unsafe {
        let lo = &raw const data_start;
        let hi = &raw const _end;
        std::slice::from_raw_parts(lo, hi as usize - lo as usize)
    }
}

/// Once per instruction. Nothing in here allocates: the instruction may be one of the allocator's.
extern "C" fn trap(_: i32, _: *mut u8, context: *mut u8) {
    let w = WATCH.with(|w| w.get());
    if w.is_null() {
        return;
    }
    let w = unsafe { &mut *w };
    w.n += 1;
    w.since += 1;
    let now = shared();
    if *now != *w.snap {
        let at = now.iter().zip(&w.snap).position(|(a, b)| a != b).unwrap_or(0);
        if w.writes.len() < w.writes.capacity() {
            w.writes.push(Write { since: w.since, at });
        }
        w.count += 1;
        w.since = 0;
        w.snap.copy_from_slice(now);
    }
    if w.stop == Some(Point { writes: w.count, since: w.since }) {
        w.stop = None;
        if let Some((b, me)) = &w.baton {
            b.store(1 - me, SeqCst);
            wait(b, *me);
            // nothing more to wait for: at full speed from here
            unsafe { *context.add(40 + 17 * 8).cast::<u64>() &= !0x100 };
        }
    }
}
/// Until it is this thread's turn, or everybody's. An implementation that locks may keep the other thread
/// from ever giving it.
fn wait(b: &AtomicUsize, me: usize) {
    let t = std::time::Instant::now();
    while b.load(SeqCst) != me && b.load(SeqCst) != 9 && t.elapsed().as_millis() < 500 {
        std::thread::yield_now();
    }
}

fn install() {
    unsafe extern "C" {
        fn __errno_location() -> *mut i32;
    }
    let a = Action { handler: trap as *const () as usize, mask: [0; 16], flags: 4 | 0x1000_0000, restorer: 0 };
    unsafe {
        assert_eq!(sigaction(5, &a, std::ptr::null_mut()), 0);
        // let thread locals of the C library be there
        let _ = *__errno_location();
    }
}

fn stepping<T>(stop: Option<Point>, baton: Option<(Arc<AtomicUsize>, usize)>, f: impl FnOnce() -> T) -> (T, Watch) {
    let mut w = Watch { snap: shared().to_vec(), n: 0, since: 0, count: 0, writes: Vec::with_capacity(4096), stop, baton };
    WATCH.with(|x| x.set(&mut w));
    w.snap.copy_from_slice(shared());
    unsafe { std::arch::asm!("pushfq", "or dword ptr [rsp], 0x100", "popfq") };
    let r = f();
    unsafe { std::arch::asm!("pushfq", "and dword ptr [rsp], 0xfffffeff", "popfq") };
    WATCH.with(|x| x.set(std::ptr::null_mut()));
    (r, w)
}

fn run(m: &Msg, op: usize) -> String {
    if op == 0 { shown(&RemotingMessage::parse(&m.b), m.loose) } else { spy(nrbf::from_slice::<Spy>(&m.b)) }
}

/// `mc steps`: prints the number of instructions and the writes.
pub fn steps(hex: &str, op: usize) {
    let m = Msg { name: String::new(), b: crate::harness::unhex(hex), loose: false };
    install();
    let w = if op == 0 {
        stepping(None, None, || RemotingMessage::parse(&m.b)).1
    } else {
        stepping(None, None, || run(&m, op)).1
    };
    println!("{} {}", w.n, w.count);
    for x in &w.writes {
        println!("{} {}", x.since, x.at);
    }
}

/// This program in another process, with the same addresses every time: how many instructions a copy of
/// bytes takes may depend on them.
fn command(args: &[&str]) -> std::process::Command {
    use std::os::unix::process::CommandExt;
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.args(args);
    unsafe {
        c.pre_exec(|| {
            personality(0x0040000);
            Ok(())
        });
    }
    c
}
pub struct Trace {
    pub instructions: u64,
    pub count: usize,
    pub writes: Vec<Write>,
}
/// The writes of a parse in a process of its own. None: it crashes.
pub fn trace(b: &[u8], op: usize) -> Option<Trace> {
    let o = command(&["steps", &crate::harness::hex_str(b), &op.to_string()]).output().unwrap();
    let s = String::from_utf8_lossy(&o.stdout);
    let mut l = s.lines().map(|l| l.split(' ').map(|x| x.parse::<u64>().unwrap()).collect::<Vec<_>>());
    let h = l.next()?;
    Some(Trace { instructions: h[0], count: h[1] as usize, writes: l.map(|x| Write { since: x[0], at: x[1] as usize }).collect() })
}
/// Where to stop such a parse: around its first and its last writes.
pub fn points(t: &Trace, ends: usize, near: u64) -> Vec<Point> {
    let n = t.writes.len();
    let mut v = vec![];
    for (k, w) in t.writes.iter().enumerate() {
        if k < ends || k + ends >= n {
            // before: the instructions that may have read what this one overwrites
            for back in 1..=near.min(w.since.saturating_sub(1)) {
                v.push(Point { writes: k, since: w.since - back });
            }
            v.push(Point { writes: k + 1, since: 0 });
            v.push(Point { writes: k + 1, since: 1 });
        }
    }
    v.dedup();
    v
}

/// `mc preempt`: `a` stops at a point, `b` runs, as far as its own point if it has one, `a` runs to its
/// end and then `b` does. Prints both results.
pub fn preempt(a: &Msg, b: &Msg, op: usize, pa: Point, pb: Option<Point>) {
    install();
    let baton = Arc::new(AtomicUsize::new(0));
    std::thread::scope(|s| {
        let other = baton.clone();
        let t = s.spawn(move || {
            wait(&other, 1);
            let r = match pb {
                None => run(b, op),
                Some(_) => stepping(pb, Some((other.clone(), 1)), || run(b, op)).0,
            };
            other.store(9, SeqCst);
            r
        });
        let ra = stepping(Some(pa), Some((baton.clone(), 0)), || run(a, op)).0;
        baton.store(9, SeqCst);
        let rb = t.join().unwrap();
        println!("{:x} {:x}", fold(&ra) | 1, fold(&rb) | 1);
        println!("{ra:.300}\n{rb:.300}");
    });
}

fn arg(p: Option<Point>) -> String {
    p.map_or("-".into(), |p| format!("{}.{}", p.writes, p.since))
}
pub fn point(s: &str) -> Option<Point> {
    let (a, b) = s.split_once('.')?;
    Some(Point { writes: a.parse().ok()?, since: b.parse().ok()? })
}
/// The schedule in a process of its own: the two results' hashes, and what they are.
pub fn schedule(a: &Msg, b: &Msg, op: usize, pa: Point, pb: Option<Point>) -> Option<([u64; 2], String)> {
    let loose = |m: &Msg| if m.loose { "loose" } else { "exact" };
    let o = command(&["preempt", &crate::harness::hex_str(&a.b), loose(a), &crate::harness::hex_str(&b.b), loose(b), &op.to_string(), &arg(Some(pa)), &arg(pb)]).output().unwrap();
    let s = String::from_utf8_lossy(&o.stdout);
    let (h, rest) = s.split_once('\n')?;
    let (x, y) = h.split_once(' ')?;
    Some(([u64::from_str_radix(x, 16).ok()?, u64::from_str_radix(y, 16).ok()?], rest.to_string()))
}
