//! Running the implementation under supervision, comparing it to the model, counting and reporting.
use crate::model::{self, Verdict};
use crate::{alloc, rv};
use nrbf::RemotingMessage;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

/// Label of inputs whose crash is not the concern of the property being checked.
pub const OUT_OF_SCOPE: &str = "~";
pub const SLOTS: usize = 64;
pub const SLOT_DATA: usize = 1 << 22;
pub const SLOT_LABEL: usize = 240;
/// The implementation never gets more memory than this for one input (in addition to the measured peak).
/// What a single operation may hold at most.
pub static MEM_CAP: AtomicUsize = AtomicUsize::new(1 << 30);

/// What a thread is doing right now, visible to the supervising process even after a crash.
#[repr(C)]
pub struct Slot {
    pub seq: AtomicU64,
    pub busy: AtomicU32,
    pub len: AtomicU32,
    pub label_len: AtomicU32,
    pub label: [u8; SLOT_LABEL],
    pub data: [u8; SLOT_DATA],
}

static BOARD: AtomicPtr<Slot> = AtomicPtr::new(std::ptr::null_mut());
/// Inputs that crashed an earlier run of this check, without that being a violation of the property.
pub static SKIP: std::sync::OnceLock<HashSet<Vec<u8>>> = std::sync::OnceLock::new();
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);

unsafe extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

pub fn map_board(path: &str) -> *mut Slot {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
    let size = SLOTS * std::mem::size_of::<Slot>();
    f.set_len(size as u64).unwrap();
    let p = unsafe { mmap(std::ptr::null_mut(), size, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap failed");
    p as *mut Slot
}
pub fn set_board(p: *mut Slot) {
    BOARD.store(p, SeqCst);
}

thread_local! {
    static SLOT: *mut Slot = {
        let b = BOARD.load(SeqCst);
        if b.is_null() { b } else {
            let i = NEXT_SLOT.fetch_add(1, SeqCst) % SLOTS;
            unsafe { b.add(i) }
        }
    };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static IN_IMPL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_IMPL.with(|f| f.get()) {
            let text = info.to_string().replace('\n', " ");
            PANIC.with(|p| *p.borrow_mut() = Some(text));
        } else {
            default(info)
        }
    }));
}

/// Runs `f`, which calls the implementation on `data`, under supervision. Returns its result, or the panic
/// message, and the peak of allocated memory.
pub fn supervised<T>(label: &str, data: &[u8], f: impl FnOnce() -> T) -> (Result<T, String>, usize) {
    SLOT.with(|s| {
        let s = *s;
        if s.is_null() {
            return;
        }
        let n = data.len().min(SLOT_DATA);
        let l = label.len().min(SLOT_LABEL);
        unsafe {
            std::ptr::copy_nonoverlapping(data.as_ptr(), (*s).data.as_mut_ptr(), n);
            std::ptr::copy_nonoverlapping(label.as_ptr(), (*s).label.as_mut_ptr(), l);
            (*s).len.store(data.len() as u32, Relaxed);
            (*s).label_len.store(l as u32, Relaxed);
            (*s).seq.fetch_add(1, Relaxed);
            (*s).busy.store(1, Release);
        }
    });
    IN_IMPL.with(|f| f.set(true));
    let (r, peak) = alloc::measure(MEM_CAP.load(Relaxed), || catch_unwind(AssertUnwindSafe(f)));
    IN_IMPL.with(|f| f.set(false));
    SLOT.with(|s| {
        if !s.is_null() {
            unsafe { (**s).busy.store(0, Release) }
        }
    });
    let r = r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()));
    (r, peak)
}

/// Which disagreements count for the property at hand.
#[derive(Clone, Copy, PartialEq)]
pub enum Scope {
    /// Every disagreement with the model.
    All,
    /// Panics only (crashes and hangs are seen by the supervising process).
    Crash,
    /// Memory use only.
    Memory,
    /// Messages the model rejects for one of these reasons, or `accept`s, or that are `incomplete`.
    Reasons(&'static [&'static str]),
    /// All disagreements, and every string of the result has to lie inside the input.
    Borrow,
    /// As `Crash`, and the result is deserialised as well.
    CrashSerde,
    /// Deserialising from the bytes and from the parsed message has to end alike.
    Agree,
}

impl Scope {
    fn covers(self, v: &Verdict) -> bool {
        match self {
            Scope::All | Scope::Borrow => !matches!(v, Verdict::Unspec(_) | Verdict::Huge),
            Scope::Crash | Scope::Memory | Scope::CrashSerde | Scope::Agree => false,
            Scope::Reasons(l) => match v {
                Verdict::Accept { .. } => l.contains(&"accept"),
                Verdict::Incomplete { .. } => l.contains(&"incomplete"),
                Verdict::Reject(why) => l.contains(why),
                _ => false,
            },
        }
    }
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub suite: String,
    /// How to replay: "parse" or "case:<suite>:<case>".
    pub kind: String,
    pub bytes: Vec<u8>,
    pub detail: String,
}

#[derive(Default)]
pub struct SuiteStat {
    pub evals: u64,
    pub accepts: u64,
    pub rejects: u64,
    pub unspec: u64,
    pub nodes: u64,
    pub transitions: u64,
    pub kf: u64,
    pub note: String,
}

pub struct Cx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub threads: usize,
    pub stop: AtomicBool,
    pub late: AtomicBool,
    pub viols: Mutex<Vec<Viol>>,
    pub suites: Mutex<BTreeMap<String, SuiteStat>>,
    pub states: Mutex<HashSet<u64>>,
    pub samples: Mutex<Vec<String>>,
    pub kf_share: AtomicU64,
    pub outcomes: Mutex<BTreeMap<String, u64>>,
    pub known: Mutex<Vec<String>>,
    pub only: Option<String>,
    pub scope: Mutex<Scope>,
}

/// Per-thread view: counts locally, merges at the end.
pub struct Th<'c> {
    pub cx: &'c Cx,
    pub suite: &'c str,
    pub st: SuiteStat,
    pub states: HashSet<u64>,
    pub outcomes: BTreeMap<&'static str, u64>,
    pub scope: Scope,
    pub max_ratio: f64,
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn hex_str(b: &[u8]) -> String {
    hex(b)
}

fn short(s: String) -> String {
    if s.len() > 600 { format!("{}…", s.chars().take(600).collect::<String>()) } else { s }
}

/// Memory a parse may hold: a multiple of the input's length and of the number of elements.
pub fn mem_bound(len: usize, elements: usize) -> usize {
    (1 << 20) + 512 * len + 400 * elements
}

/// The implementation's answer, held against the model's verdict.
fn judge(v: &Verdict, r: &Result<RemotingMessage<'_>, String>) -> Result<&'static str, String> {
    match (v, r) {
        (Verdict::Huge, _) => Ok("huge"),
        (Verdict::Unspec(_), _) => Ok("unspecified"),
        (Verdict::Accept { msg, .. }, Ok(m)) => {
            if rv::matches_msg(m, msg) {
                Ok("accepted")
            } else {
                Err(short(format!("expected {msg:?}, got {m:?}")))
            }
        }
        (Verdict::Accept { lenient: Some(why), .. }, Err(_)) => Ok(why),
        (Verdict::Accept { msg, lenient: None }, Err(e)) => {
            Err(short(format!("expected {msg:?}, but it was rejected: {e}")))
        }
        (Verdict::Reject(why), Ok(m)) => Err(short(format!("accepted as {m:?}, but must be rejected: {why}"))),
        (Verdict::Incomplete { exp, .. }, Ok(m)) => {
            Err(short(format!("accepted as {m:?}, but it is incomplete: {exp:?} expected")))
        }
        (Verdict::Reject(why), Err(_)) => Ok(why),
        (Verdict::Incomplete { .. }, Err(_)) => Ok("incomplete"),
    }
}

fn count_msg(m: &RemotingMessage<'_>) -> usize {
    let args = |a: &Option<Vec<nrbf::Value<'_>>>| a.iter().flatten().map(rv::count_nodes).sum::<usize>();
    match m {
        RemotingMessage::Value(v) => rv::count_nodes(v),
        RemotingMessage::MethodCall(c) => args(&c.args),
        RemotingMessage::MethodReturn(c) => args(&c.args) + c.return_value.as_ref().map_or(0, rv::count_nodes),
    }
}

/// Parses and compares with the model; used by every suite and by the replay.
pub fn diff(scope: Scope, label: &str, b: &[u8], v: &Verdict, elements: usize) -> Result<&'static str, String> {
    if matches!(v, Verdict::Huge) {
        return Ok("huge");
    }
    if SKIP.get().is_some_and(|s| s.contains(b)) {
        return Ok("skipped (crashes, but not this property)");
    }
    let counts = matches!(scope, Scope::Crash | Scope::CrashSerde | Scope::Memory | Scope::Agree) || scope.covers(v);
    let mut agreed = Ok(());
    let (r, peak) = supervised(if counts { label } else { OUT_OF_SCOPE }, b, || {
        let r = RemotingMessage::parse(b).map_err(|e| e.to_string());
        if scope == Scope::CrashSerde {
            if let Ok(m) = &r {
                crate::serdes::exercise(m);
            }
        }
        if scope == Scope::Agree {
            agreed = crate::serdes::agree(b, &r, v);
        }
        r
    });
    agreed?;
    let r = match r {
        Ok(r) => r,
        Err(p) => {
            return if counts && scope != Scope::Memory { Err(format!("panicked: {p}")) } else { Ok("panicked (not this property)") };
        }
    };
    if scope == Scope::Memory {
        let n = r.as_ref().map_or(0, count_msg).max(elements);
        if peak > mem_bound(b.len(), n) {
            return Err(format!(
                "{peak} bytes allocated for {} bytes of input with {n} elements (bound {})",
                b.len(),
                mem_bound(b.len(), n)
            ));
        }
    }
    if scope == Scope::Borrow {
        if let Ok(m) = &r {
            let range = b.as_ptr_range();
            let mut bad = None;
            rv::strings_msg(m, &mut |s| {
                let p = s.as_bytes().as_ptr_range();
                if !s.is_empty() && !(range.start <= p.start && p.end <= range.end) {
                    bad = Some(s.to_string());
                }
            });
            if let Some(s) = bad {
                return Err(format!("string {s:?} is not borrowed from the input"));
            }
        }
    }
    match judge(v, &r) {
        Err(d) if scope.covers(v) => Err(d),
        Err(_) => Ok("disagreement outside of this property"),
        Ok(o) => Ok(o),
    }
}

impl<'c> Th<'c> {
    pub fn new(cx: &'c Cx, suite: &'c str) -> Self {
        Th { cx, suite, st: SuiteStat::default(), states: HashSet::new(), outcomes: BTreeMap::new(), scope: *cx.scope.lock().unwrap(), max_ratio: 0.0 }
    }
    pub fn stopped(&self) -> bool {
        self.cx.stop.load(Relaxed)
    }
    pub fn violation(&self, kind: String, bytes: &[u8], detail: String) {
        self.cx.violation(Viol { suite: self.suite.into(), kind, bytes: bytes.to_vec(), detail })
    }
    pub fn sample(&self, what: &str, b: &[u8]) {
        let mut s = self.cx.samples.lock().unwrap();
        if s.len() < 40 && s.iter().filter(|x| x.starts_with(self.suite)).count() < 3 {
            s.push(short(format!("{}: {} {}", self.suite, what, hex(&b[..b.len().min(200)]))));
        }
    }
    pub fn state(&mut self, fingerprint: u64) {
        if self.states.len() < 4_000_000 {
            self.states.insert(fingerprint);
        }
    }
    /// Counts one evaluated input, whatever its kind.
    pub fn count(&mut self, outcome: &'static str) {
        self.st.evals += 1;
        *self.outcomes.entry(outcome).or_default() += 1;
    }
    /// One measurement.
    pub fn measured(&mut self, fingerprint: u64) {
        self.st.nodes += 1;
        self.st.transitions += 1;
        self.state(fingerprint);
        self.count("measured")
    }
    /// One complete input: model verdict against the implementation.
    pub fn check(&mut self, b: &[u8]) {
        let mut m = model::Model::new(b);
        let v = m.run();
        self.st.nodes += 1;
        self.st.transitions += u64::from(m.fields);
        let exp = match v {
            Verdict::Incomplete { exp, .. } => exp,
            _ => model::Exp::Nothing,
        };
        self.state(m.fingerprint(exp));
        self.check_with(b, &v, m.elements)
    }
    pub fn check_with(&mut self, b: &[u8], v: &Verdict, elements: usize) {
        match v {
            Verdict::Accept { .. } => {
                if self.st.accepts < 3 {
                    self.sample("accepted", b)
                }
                self.st.accepts += 1
            }
            Verdict::Unspec(_) | Verdict::Huge => self.st.unspec += 1,
            _ => {
                if self.st.rejects < 1 {
                    self.sample("rejected", b)
                }
                self.st.rejects += 1
            }
        }
        match diff(self.scope, self.suite, b, v, elements) {
            Ok(o) => {
                if o == model::KF_SHARE {
                    self.st.kf += 1;
                    self.cx.kf_share.fetch_add(1, Relaxed);
                }
                self.count(o)
            }
            Err(d) => {
                self.st.evals += 1;
                self.violation("parse".into(), b, d)
            }
        }
    }
    /// As `check`, for an input whose meaning the suite knows by construction: the model has to agree too.
    pub fn check_known(&mut self, b: &[u8], want: &rv::RMsg) {
        match model::run(b) {
            Verdict::Accept { msg, lenient: None } if msg == *want => (),
            v => panic!("model disagrees with construction: {v:?}\n{want:?}\n{}", hex(b)),
        }
        self.check(b)
    }
    pub fn merge(self) {
        let mut s = self.cx.suites.lock().unwrap();
        let e = s.entry(self.suite.to_string()).or_default();
        e.evals += self.st.evals;
        e.accepts += self.st.accepts;
        e.rejects += self.st.rejects;
        e.unspec += self.st.unspec;
        e.nodes += self.st.nodes;
        e.transitions += self.st.transitions;
        e.kf += self.st.kf;
        if !self.st.note.is_empty() {
            e.note = self.st.note.clone();
        }
        drop(s);
        self.cx.states.lock().unwrap().extend(self.states.iter().copied());
        let mut o = self.cx.outcomes.lock().unwrap();
        for (k, v) in self.outcomes {
            *o.entry(k.to_string()).or_default() += v;
        }
    }
}

impl Cx {
    pub fn new(prop: &str, thorough: bool, seed: u64, threads: usize) -> Self {
        Cx {
            prop: prop.into(),
            thorough,
            seed,
            threads,
            stop: AtomicBool::new(false),
            late: AtomicBool::new(false),
            viols: Mutex::default(),
            suites: Mutex::default(),
            states: Mutex::default(),
            samples: Mutex::default(),
            kf_share: AtomicU64::new(0),
            outcomes: Mutex::default(),
            known: Mutex::default(),
            only: std::env::var("MC_ONLY").ok(),
            scope: Mutex::new(Scope::All),
        }
    }
    pub fn violation(&self, v: Viol) {
        let mut l = self.viols.lock().unwrap();
        l.push(v);
        if l.len() >= 20 {
            self.stop.store(true, Relaxed);
        }
    }
    pub fn scope(&self, s: Scope) {
        *self.scope.lock().unwrap() = s
    }
    pub fn wants(&self, suite: &str) -> bool {
        self.only.as_ref().is_none_or(|o| suite.starts_with(o.as_str()))
    }
    pub fn note(&self, suite: &str, note: String) {
        self.suites.lock().unwrap().entry(suite.to_string()).or_default().note = note;
    }
    /// Runs `f` for every index in `0..n`, spread over all threads.
    pub fn par(&self, suite: &str, n: usize, f: impl Fn(&mut Th<'_>, usize) + Sync) {
        if !self.wants(suite) {
            return;
        }
        if self.stop.load(Relaxed) {
            return;
        }
        let t0 = std::time::Instant::now();
        let next = AtomicUsize::new(0);
        let chunk = (n / (self.threads * 512)).max(1);
        std::thread::scope(|s| {
            for _ in 0..self.threads.min(n.max(1)) {
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, || {
                        let mut th = Th::new(self, suite);
                        'out: loop {
                            let i = next.fetch_add(chunk, Relaxed);
                            if i >= n {
                                break;
                            }
                            for i in i..(i + chunk).min(n) {
                                if th.stopped() {
                                    break 'out;
                                }
                                f(&mut th, i)
                            }
                        }
                        th.merge()
                    })
                    .unwrap();
            }
        });
        if std::env::var_os("MC_TIMES").is_some() {
            eprintln!("{suite}: {:.2} s", t0.elapsed().as_secs_f64());
        }
    }
    /// A suite over a list of messages.
    pub fn msgs(&self, suite: &str, l: &[Vec<u8>]) {
        self.par(suite, l.len(), |th, i| th.check(&l[i]))
    }
}
