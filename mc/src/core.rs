//! Stateless explicit exploration of the real code.
//!
//! A scenario is a deterministic closure in which everything that may vary is an explicit
//! `ctx.choose(label, n)`.  The explorer enumerates the complete tree of choices by prefix replay.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst, Ordering::Relaxed};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

// ---------------------------------------------------------------- memory accounting

pub struct Counting;
pub static LIVE: AtomicI64 = AtomicI64::new(0);
thread_local! {
    static HELD: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}
/// Bytes on the heap allocated by this thread and not yet freed by it.
pub fn held() -> i64 {
    HELD.with(|h| h.get())
}
fn hold(n: i64) {
    let _ = HELD.try_with(|h| h.set(h.get() + n));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        hold(l.size() as i64);
        LIVE.fetch_add(l.size() as i64, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        hold(-(l.size() as i64));
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        hold(n as i64 - l.size() as i64);
        LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed);
        System.realloc(p, l, n)
    }
}
const MEM_CAP: i64 = 12 << 30;

// ---------------------------------------------------------------- context

#[derive(Clone, Debug, PartialEq)]
pub struct Pt {
    pub label: &'static str,
    pub n: u32,
    pub c: u32,
}

pub struct Slot {
    pub started_ms: AtomicU64,
    pub trace: Mutex<Vec<Pt>>,
}
impl Slot {
    pub fn new() -> Self {
        Slot { started_ms: AtomicU64::new(0), trace: Mutex::new(vec![]) }
    }
}

pub struct Ctx<'a> {
    prefix: &'a [Pt],
    slot: &'a Slot,
    pos: usize,
    pub steps: u64,
    obs: Vec<u64>,
    notes: Vec<String>,
    pub want_notes: bool,
    site: String,
    /// Replay from a file: labels are owned by the file, only numbers are compared.
    loose: bool,
}

/// Raised when replaying a prefix meets a different choice point: an error of the harness, never a verdict.
pub struct Divergence(pub String);

impl<'a> Ctx<'a> {
    pub fn choose(&mut self, label: &'static str, n: usize) -> usize {
        assert!(n >= 1, "harness: empty choice {label}");
        let i = self.pos;
        self.pos += 1;
        let c = if i < self.prefix.len() {
            let p = &self.prefix[i];
            if p.n as usize != n || (!self.loose && p.label != label) {
                let m = format!("replay divergence at point {i}: recorded {}({}) now {label}({n})", p.label, p.n);
                std::panic::panic_any(Divergence(m));
            }
            p.c
        } else {
            0
        };
        self.slot.trace.lock().unwrap().push(Pt { label, n: n as u32, c });
        c as usize
    }
    pub fn pick<T: Clone>(&mut self, label: &'static str, items: &[T]) -> T {
        items[self.choose(label, items.len())].clone()
    }
    /// All bit strings of one length (one choice point with 2^len branches).
    pub fn bits(&mut self, label: &'static str, len: usize) -> Vec<bool> {
        if len == 0 {
            return vec![];
        }
        let v = self.choose(label, 1 << len);
        (0..len).map(|i| (v >> (len - 1 - i)) & 1 == 1).collect()
    }
    pub fn step(&mut self, n: usize) {
        self.steps += n as u64;
    }
    pub fn observe(&mut self, h: u64) {
        self.obs.push(h);
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_notes {
            self.notes.push(f());
        }
    }
    pub fn site(&mut self, s: String) {
        self.site = s;
    }
}

pub struct Scn {
    pub name: String,
    pub bound: String,
    pub f: Box<dyn Fn(&mut Ctx) -> R + Send + Sync>,
}

pub fn scn(name: &str, bound: &str, f: impl Fn(&mut Ctx) -> R + Send + Sync + 'static) -> Scn {
    Scn { name: name.into(), bound: bound.into(), f: Box::new(f) }
}

pub struct Outcome {
    pub trace: Vec<Pt>,
    pub steps: u64,
    pub obs: Vec<u64>,
    pub notes: Vec<String>,
    pub site: String,
    pub verdict: Verdict,
}
pub enum Verdict {
    Ok,
    Bad(String),
    Diverged(String),
}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

/// Run code that is expected to be allowed to panic; Some(message) if it did.
pub fn panics<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            if let Ok(d) = e.downcast::<Divergence>() {
                std::panic::panic_any(*d);
            }
            Err(PANIC_MSG.with(|p| p.borrow().clone()))
        }
    }
}

pub fn run_once(s: &Scn, prefix: &[Pt], slot: &Slot, want_notes: bool, loose: bool) -> Outcome {
    slot.trace.lock().unwrap().clear();
    let mut ctx = Ctx {
        prefix, slot, pos: 0, steps: 0, obs: vec![], notes: vec![], want_notes, site: String::new(), loose,
    };
    slot.started_ms.store(now_ms(), SeqCst);
    let res = catch_unwind(AssertUnwindSafe(|| (s.f)(&mut ctx)));
    slot.started_ms.store(0, SeqCst);
    let trace = slot.trace.lock().unwrap().clone();
    let verdict = match res {
        Ok(Ok(())) => {
            if trace.len() < prefix.len() {
                Verdict::Diverged(format!("execution ended after {} of {} replayed choices", trace.len(), prefix.len()))
            } else {
                Verdict::Ok
            }
        }
        Ok(Err(m)) => Verdict::Bad(m),
        Err(e) => match e.downcast::<Divergence>() {
            Ok(d) => Verdict::Diverged(d.0),
            Err(_) => Verdict::Bad(format!("panicked: {}", PANIC_MSG.with(|p| p.borrow().clone()))),
        },
    };
    Outcome { trace, steps: ctx.steps, obs: ctx.obs, notes: ctx.notes, site: ctx.site, verdict }
}

static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
pub fn now_ms() -> u64 {
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

// ---------------------------------------------------------------- exploration

struct Item {
    prefix: Vec<Pt>, // without the varying last point
    label: &'static str,
    n: u32,
    next: u32,
    end: u32,
}

pub struct Violation {
    pub scenario: String,
    pub trace: Vec<Pt>,
    pub msg: String,
    pub site: String,
}

#[derive(Default)]
pub struct Stats {
    pub executions: u64,
    pub states: u64,
    pub steps: u64,
    pub max_depth: usize,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub error: Option<String>,
    pub capped: bool,
}

const OBS_CAP: usize = 2_000_000;

pub struct Limits {
    pub deadline_ms: u64,
    pub hang_s: u64,
    pub threads: usize,
}

/// What to do when an execution hangs or eats all memory: cannot be unwound, so the process reports and ends.
pub type Fatal<'a> = &'a (dyn Fn(&Scn, Vec<Pt>, String) + Sync);

pub fn explore(s: &Scn, lim: &Limits, fatal: Fatal, known: &(dyn Fn(&str, &Violation) -> bool + Sync)) -> Stats {
    let nthreads = lim.threads;
    let pool: Mutex<Vec<Item>> = Mutex::new(vec![]);
    let cv = Condvar::new();
    let idle = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let all_done = AtomicBool::new(false);
    let total: Mutex<Stats> = Mutex::new(Stats::default());
    let slots: Vec<Slot> = (0..nthreads).map(|_| Slot::new()).collect();
    let root_taken = AtomicBool::new(false);

    let worker = |wid: usize| {
        let slot = &slots[wid];
        let mut st = Stats::default();
        let mut stack: Vec<Item> = vec![];
        let mut root = !root_taken.swap(true, SeqCst);
        loop {
            if stop.load(SeqCst) {
                break;
            }
            // next prefix
            let prefix: Vec<Pt>;
            let base: usize;
            if root {
                root = false;
                prefix = vec![];
                base = 0;
            } else {
                if stack.is_empty() {
                    let mut p = pool.lock().unwrap();
                    loop {
                        if let Some(it) = p.pop() {
                            stack.push(it);
                            break;
                        }
                        if stop.load(SeqCst) || all_done.load(SeqCst) {
                            break;
                        }
                        let k = idle.fetch_add(1, SeqCst) + 1;
                        if k == nthreads {
                            all_done.store(true, SeqCst);
                            idle.fetch_sub(1, SeqCst);
                            cv.notify_all();
                            break;
                        }
                        p = cv.wait_timeout(p, Duration::from_millis(50)).unwrap().0;
                        idle.fetch_sub(1, SeqCst);
                    }
                    if stack.is_empty() {
                        break;
                    }
                }
                let it = stack.last_mut().unwrap();
                let mut pr = Vec::with_capacity(it.prefix.len() + 1);
                pr.extend_from_slice(&it.prefix);
                pr.push(Pt { label: it.label, n: it.n, c: it.next });
                it.next += 1;
                if it.next >= it.end {
                    stack.pop();
                }
                base = pr.len();
                prefix = pr;
            }
            let want = st.executions % 4096 == 0 && st.samples.len() < 3;
            let o = run_once(s, &prefix, slot, want, false);
            st.executions += 1;
            st.states += (o.trace.len() - base.min(o.trace.len())) as u64 + 1;
            st.steps += o.steps;
            st.max_depth = st.max_depth.max(o.trace.len());
            if st.distinct.len() < OBS_CAP {
                st.distinct.extend(o.obs.iter());
            }
            if want {
                st.samples.push(format!(
                    "{}: [{}] {}",
                    s.name,
                    o.trace.iter().map(|p| format!("{}={}/{}", p.label, p.c, p.n)).collect::<Vec<_>>().join(" "),
                    o.notes.join("; ")
                ));
            }
            match o.verdict {
                Verdict::Ok => {}
                Verdict::Diverged(m) => {
                    st.error = Some(m);
                    stop.store(true, SeqCst);
                }
                Verdict::Bad(m) => {
                    let v = Violation { scenario: s.name.clone(), trace: o.trace.clone(), msg: m, site: o.site };
                    if known(&s.name, &v) {
                        // listed finding: reported once by the caller, exploration goes on
                    } else {
                        st.violations.push(v);
                        stop.store(true, SeqCst);
                    }
                }
            }
            for i in base..o.trace.len() {
                let p = &o.trace[i];
                if p.n > 1 {
                    stack.push(Item { prefix: o.trace[..i].to_vec(), label: p.label, n: p.n, next: 1, end: p.n });
                }
            }
            if idle.load(SeqCst) > 0 && !stack.is_empty() {
                // donate: the shallowest item, or half of its remaining range
                let mut p = pool.lock().unwrap();
                if p.len() < nthreads {
                    let it = &mut stack[0];
                    let left = it.end - it.next;
                    if left >= 2 {
                        let mid = it.next + left / 2;
                        p.push(Item { prefix: it.prefix.clone(), label: it.label, n: it.n, next: mid, end: it.end });
                        it.end = mid;
                    } else if stack.len() >= 2 {
                        p.push(stack.remove(0));
                    }
                    cv.notify_one();
                }
            }
            if now_ms() > lim.deadline_ms {
                st.capped = true;
                stop.store(true, SeqCst);
            }
        }
        cv.notify_all();
        let mut t = total.lock().unwrap();
        t.executions += st.executions;
        t.states += st.states;
        t.steps += st.steps;
        t.max_depth = t.max_depth.max(st.max_depth);
        if t.distinct.len() < OBS_CAP {
            t.distinct.extend(st.distinct);
        }
        t.samples.extend(st.samples);
        t.violations.extend(st.violations);
        t.capped |= st.capped;
        if st.error.is_some() {
            t.error = st.error;
        }
    };

    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..nthreads)
            .map(|w| {
                let worker = &worker;
                std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, move || worker(w)).unwrap()
            })
            .collect();
        // watchdog
        loop {
            if hs.iter().all(|h| h.is_finished()) {
                break;
            }
            std::thread::sleep(Duration::from_millis(5));
            let n = now_ms();
            let oom = LIVE.load(Relaxed) > MEM_CAP;
            let mut oldest: Option<(u64, usize)> = None;
            for (i, sl) in slots.iter().enumerate() {
                let b = sl.started_ms.load(SeqCst);
                if b != 0 && (oldest.is_none() || b < oldest.unwrap().0) {
                    oldest = Some((b, i));
                }
            }
            if let Some((b, i)) = oldest {
                let hung = n.saturating_sub(b) > lim.hang_s * 1000;
                if hung || oom {
                    let tr = match slots[i].trace.try_lock() {
                        Ok(t) => t.clone(),
                        Err(_) => continue,
                    };
                    let why = if oom {
                        format!("more than {} GB allocated: unbounded output", MEM_CAP >> 30)
                    } else {
                        format!("no result after {} s: the call does not end", lim.hang_s)
                    };
                    fatal(s, tr, why);
                }
            }
        }
    });
    total.into_inner().unwrap()
}

// ---------------------------------------------------------------- helpers for scenarios

/// Collect at most `max` items; more is an error (an endless iterator must not hang the check).
pub fn pull<T>(it: impl Iterator<Item = T>, max: usize) -> Result<Vec<T>, String> {
    let mut v = Vec::new();
    for x in it {
        if v.len() == max {
            return Err(format!("more than {max} items produced"));
        }
        v.push(x);
    }
    Ok(v)
}

pub fn fnv(bytes: impl Iterator<Item = u64>) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes {
        h = (h ^ b).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h
}
pub fn hash_bits(b: &[bool]) -> u64 {
    fnv(b.iter().map(|&x| x as u64 + 1))
}
pub fn hash_f(b: &[f64]) -> u64 {
    fnv(b.iter().map(|&x| x.to_bits()))
}

pub fn bstr(b: &[bool]) -> String {
    let s: String = b.iter().take(48).map(|&x| if x { '1' } else { '0' }).collect();
    if b.len() > 48 {
        format!("{s}...({})", b.len())
    } else {
        s
    }
}

pub fn same_bits(ctx: &mut Ctx, what: &str, got: &[bool], want: &[bool]) -> R {
    ctx.step(got.len());
    ctx.observe(hash_bits(got));
    if let Some(i) = (0..got.len().min(want.len())).find(|&i| got[i] != want[i]) {
        return Err(format!("{what}: bit {i} of {} is {} instead of {}", want.len(), got[i], want[i]));
    }
    ensure!(got.len() == want.len(), "{what}: {} bits instead of {}", got.len(), want.len());
    Ok(())
}

pub fn prefix_bits(ctx: &mut Ctx, what: &str, got: &[bool], want: &[bool]) -> R {
    ensure!(got.len() >= want.len(), "{what}: only {} bits decoded of {}", got.len(), want.len());
    same_bits(ctx, what, &got[..want.len()], want)
}

pub fn close(ctx: &mut Ctx, what: &str, got: &[f64], want: &[f64], tol: f64) -> R {
    ctx.step(got.len());
    ctx.observe(hash_f(got));
    ensure!(got.len() == want.len(), "{what}: {} samples instead of {}", got.len(), want.len());
    for i in 0..got.len() {
        let d = (got[i] - want[i]).abs();
        if !(d <= tol) {
            return Err(format!("{what}: sample {i} of {} is {} instead of {}", got.len(), got[i], want[i]));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- messages

/// Every binary word of length `order` occurs in the first 2^order + order - 1 bits.
pub fn de_bruijn(order: usize) -> Vec<bool> {
    // "prefer one" construction
    let n = 1usize << order;
    let mut seen = vec![false; n];
    let mut v = vec![false; order];
    let mut w = 0usize;
    seen[0] = true;
    loop {
        let one = ((w << 1) | 1) & (n - 1);
        let zero = (w << 1) & (n - 1);
        let nx = if !seen[one] { one } else if !seen[zero] { zero } else { break };
        seen[nx] = true;
        v.push(nx & 1 == 1);
        w = nx;
    }
    v
}

static DB: std::sync::OnceLock<Vec<bool>> = std::sync::OnceLock::new();
/// A fixed long bit string: de Bruijn(6) then de Bruijn(10) then de Bruijn(16), repeated.
pub fn content(len: usize) -> Vec<bool> {
    let d = DB.get_or_init(|| {
        let mut v = de_bruijn(6);
        v.extend(de_bruijn(10));
        v.extend(de_bruijn(16));
        v
    });
    (0..len).map(|i| d[i % d.len()]).collect()
}

/// Bit i of pattern `kind`, for messages too long to hold.
pub fn bit_at(kind: usize, i: usize) -> bool {
    let d = || {
        content(0);
        let d = DB.get().unwrap();
        d[i % d.len()]
    };
    match kind {
        0 => d(),
        1 => !d(),
        2 => true,
        3 => false,
        4 => i % 2 == 0,
        _ => (i as u64).count_ones() % 2 == 1 || i % 37 == 0,
    }
}

/// Compare a stream item by item as it is produced.
pub fn stream_close(ctx: &mut Ctx, what: &str, mut it: impl Iterator<Item = f64>, n: usize, mut want: impl FnMut(usize) -> f64, tol: f64) -> R {
    for i in 0..n {
        let w = want(i);
        match it.next() {
            Some(g) if (g - w).abs() <= tol => {}
            g => return Err(format!("{what}: sample {i} of {n} is {g:?} instead of {w}")),
        }
    }
    ctx.step(n);
    ensure!(it.next().is_none(), "{what}: more than {n} samples");
    Ok(())
}
pub fn stream_bits(ctx: &mut Ctx, what: &str, mut it: impl Iterator<Item = bool>, n: usize, want: impl Fn(usize) -> bool) -> R {
    for i in 0..n {
        let w = want(i);
        let g = it.next();
        if g != Some(w) {
            return Err(format!("{what}: bit {i} of {n} is {g:?} instead of {w}"));
        }
    }
    ctx.step(n);
    ensure!(it.next().is_none(), "{what}: more than {n} bits");
    Ok(())
}

pub const PATTERNS: usize = 6;
pub fn pattern(kind: usize, len: usize) -> Vec<bool> {
    match kind {
        0 => content(len),
        1 => content(len).into_iter().map(|b| !b).collect(),
        2 => vec![true; len],
        3 => vec![false; len],
        4 => (0..len).map(|i| i % 2 == 0).collect(),
        _ => (0..len).map(|i| (i as u64).count_ones() % 2 == 1 || i % 37 == 0).collect(),
    }
}

/// One message: either any bit string of length <= exh, or one of the patterns at one of `lens`.
pub fn message(ctx: &mut Ctx, exh: usize, lens: &[usize], pats: usize) -> Vec<bool> {
    let k = ctx.choose("msg", 1 + if lens.is_empty() { 0 } else { pats });
    if k == 0 {
        let n = ctx.choose("len", exh + 1);
        ctx.bits("bits", n)
    } else {
        let n = ctx.pick("len", lens);
        pattern(k - 1, n)
    }
}

/// 2^k-1, 2^k, 2^k+1 for lo <= k <= hi
pub fn ladder(lo: u32, hi: u32) -> Vec<usize> {
    let mut v = vec![];
    for k in lo..=hi {
        let p = 1usize << k;
        v.extend([p - 1, p, p + 1]);
    }
    v.dedup();
    v
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ---------------------------------------------------------------- sources

/// An iterator with any honest size bound.
pub struct Hinted<I> {
    pub it: I,
    pub left: usize,
    pub mode: usize,
}
impl<T, I: Iterator<Item = T>> Iterator for Hinted<I> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let r = self.it.next();
        if r.is_some() {
            self.left -= 1;
        }
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.mode {
            0 => (self.left, Some(self.left)),
            1 => (0, None),
            2 => (0, Some(self.left)),
            3 => (self.left / 2, Some(self.left * 2 + 7)),
            4 => (self.left, None),
            _ => (self.left.min(1), Some(usize::MAX)),
        }
    }
}
pub const SHAPES: usize = 8;
/// The same items from differently shaped sources.
pub fn shaped<T: Clone + 'static>(v: Vec<T>, shape: usize) -> Box<dyn Iterator<Item = T>> {
    let n = v.len();
    match shape {
        6 => {
            let (a, b) = (v[..n / 3].to_vec(), v[n / 3..].to_vec());
            Box::new(a.into_iter().chain(b))
        }
        7 => Box::new(v.into_iter().rev().collect::<Vec<_>>().into_iter().rev()),
        m => Box::new(Hinted { it: v.into_iter(), left: n, mode: m }),
    }
}

/// Floating-point values with something special about them.
pub const SPECIAL: [f64; 14] = [
    0.0, -0.0, 1.0, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, -f64::MAX, 5e-324, f64::MIN_POSITIVE, 1e300, -2.5, 0.1,
];

/// Round numbers and their neighbours: powers of two and of ten, usual sample rates, up to `hi`.
pub fn steps_to(hi: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    let mut p = 1usize;
    while p <= hi {
        v.extend([p - 1, p, p + 1]);
        p *= 2;
    }
    let mut p = 1usize;
    while p <= hi {
        for m in [1, 2, 3, 5] {
            v.extend([(p * m) - 1, p * m, p * m + 1]);
        }
        p *= 10;
    }
    v.extend([360, 441, 768, 900, 1440, 1536, 8000, 9600, 11025, 16000, 22050, 44100, 48000, 96000, 192000, 65521, 99991]);
    v.retain(|&x| x <= hi);
    v.sort();
    v.dedup();
    v
}

/// Pairs of different 7-byte blocks that a common digest cannot tell apart: sums, CRCs, Fletcher and
/// multiplicative hashes, leading or trailing bytes, number of ones.  (A cache keyed by such a digest mixes them up.)
pub fn twins() -> &'static [(&'static str, [u8; 7], [u8; 7])] {
    static P: std::sync::OnceLock<Vec<(&'static str, [u8; 7], [u8; 7])>> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        fn poly(b: &[u8; 7], m: u32, s: u32) -> u32 {
            b.iter().fold(s, |a, &x| a.wrapping_mul(m).wrapping_add(x as u32))
        }
        fn crc(b: &[u8; 7], w: u32, p: u32, init: u32, refl: bool) -> u32 {
            let mask = if w == 32 { u32::MAX } else { (1 << w) - 1 };
            let mut r = init & mask;
            for &x in b {
                if refl {
                    r ^= x as u32;
                    for _ in 0..8 {
                        r = if r & 1 == 1 { r >> 1 ^ p } else { r >> 1 };
                    }
                } else {
                    r ^= (x as u32) << (w - 8);
                    for _ in 0..8 {
                        r = (if r >> (w - 1) & 1 == 1 { r << 1 ^ p } else { r << 1 }) & mask;
                    }
                }
            }
            r
        }
        type H = fn(&[u8; 7]) -> u32;
        let hashes: Vec<(&'static str, H)> = vec![
            ("sum", |b| b.iter().map(|&x| x as u32).sum()),
            ("sum mod 256", |b| b.iter().fold(0u8, |a, &x| a.wrapping_add(x)) as u32),
            ("xor", |b| b.iter().fold(0u8, |a, &x| a ^ x) as u32),
            ("ones", |b| b.iter().map(|x| x.count_ones()).sum()),
            ("ones per byte", |b| b.iter().fold(0, |a, x| a * 9 + x.count_ones())),
            ("weighted sum", |b| b.iter().enumerate().map(|(i, &x)| (i as u32 + 1) * x as u32).sum()),
            ("sum of squares", |b| b.iter().map(|&x| x as u32 * x as u32).sum()),
            ("fletcher", |b| { let (mut p, mut q) = (0u32, 0u32); for &x in b { p = (p + x as u32) % 255; q = (q + p) % 255; } q << 8 | p }),
            ("adler", |b| { let (mut p, mut q) = (1u32, 0u32); for &x in b { p = (p + x as u32) % 65521; q = (q + p) % 65521; } q << 16 | p }),
            ("31", |b| poly(b, 31, 0)),
            ("31 mod 2^16", |b| poly(b, 31, 7) & 0xffff),
            ("31 mod 2^8", |b| poly(b, 31, 0) & 0xff),
            ("33", |b| poly(b, 33, 5381)),
            ("37 mod 2^16", |b| poly(b, 37, 0) & 0xffff),
            ("131", |b| poly(b, 131, 0)),
            ("257", |b| poly(b, 257, 0)),
            ("65599", |b| poly(b, 65599, 0)),
            ("fnv1a", |b| b.iter().fold(0x811c9dc5u32, |a, &x| (a ^ x as u32).wrapping_mul(0x01000193))),
            ("fnv1", |b| b.iter().fold(0x811c9dc5u32, |a, &x| a.wrapping_mul(0x01000193) ^ x as u32)),
            ("rotate-xor 5", |b| b.iter().fold(0u32, |a, &x| a.rotate_left(5) ^ x as u32)),
            ("rotate-xor 8", |b| b.iter().fold(0u32, |a, &x| a.rotate_left(8) ^ x as u32)),
            ("shift-xor 4", |b| b.iter().fold(0u32, |a, &x| (a << 4) ^ x as u32)),
            ("first byte", |b| b[0] as u32),
            ("first two", |b| (b[0] as u32) << 8 | b[1] as u32),
            ("first three", |b| (b[0] as u32) << 16 | (b[1] as u32) << 8 | b[2] as u32),
            ("first four", |b| u32::from_le_bytes([b[0], b[1], b[2], b[3]])),
            ("last four", |b| u32::from_le_bytes([b[3], b[4], b[5], b[6]])),
            ("last two", |b| (b[5] as u32) << 8 | b[6] as u32),
            ("last byte", |b| b[6] as u32),
            ("ends", |b| (b[0] as u32) << 8 | b[6] as u32),
            ("middle", |b| b[3] as u32),
            ("folded", |b| u32::from_le_bytes([b[0], b[1], b[2], b[3]]) ^ u32::from_le_bytes([b[4], b[5], b[6], 0])),
            ("crc8", |b| crc(b, 8, 0x07, 0, false)),
            ("crc8 maxim", |b| crc(b, 8, 0x8c, 0, true)),
            ("crc8 0x1d", |b| crc(b, 8, 0x1d, 0xff, false)),
            ("crc16 ccitt", |b| crc(b, 16, 0x1021, 0xffff, false)),
            ("crc16 arc", |b| crc(b, 16, 0xa001, 0, true)),
            ("crc32", |b| crc(b, 32, 0xedb88320, u32::MAX, true)),
            ("crc32c", |b| crc(b, 32, 0x82f63b78, u32::MAX, true)),
            ("low bits", |b| b.iter().fold(0, |a, &x| a << 4 | (x & 15) as u32)),
            ("high bits", |b| b.iter().fold(0, |a, &x| a << 4 | (x >> 4) as u32)),
        ];
        // near neighbours of a few blocks first, then arbitrary ones
        let mut blocks: Vec<[u8; 7]> = vec![[0; 7], [0xff; 7], [0x55; 7], *b"message", *b"MESSAGE", *b"egassem", [1, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 1], [1, 2, 3, 4, 5, 6, 7], [7, 6, 5, 4, 3, 2, 1]];
        for i in 0..(1u64 << 17) {
            let h = fnv([i, 77].into_iter()).to_le_bytes();
            let mut b = [h[0], h[1], h[2], h[3], h[4], h[5], h[6]];
            if i % 4 == 1 {
                for x in &mut b {
                    *x = b'a' + *x % 26;
                }
            }
            blocks.push(b);
        }
        let mut v = vec![];
        for (name, h) in hashes {
            let mut k: Vec<(u32, usize)> = blocks.iter().enumerate().map(|(i, b)| (h(b), i)).collect();
            k.sort_unstable();
            let mut pairs: Vec<(usize, usize)> = k.windows(2).filter(|w| w[0].0 == w[1].0 && blocks[w[0].1] != blocks[w[1].1]).map(|w| (w[0].1, w[1].1)).collect();
            pairs.sort_unstable();
            // the first few, and some further on
            let step = (pairs.len() / 4).max(1);
            for (j, &(a, b)) in pairs.iter().enumerate() {
                if j < 3 || j % step == step - 1 {
                    v.push((name, blocks[a], blocks[b]));
                }
            }
        }
        v
    })
}
pub fn bits_of(b: &[u8]) -> Vec<bool> {
    b.iter().flat_map(|&x| (0..8).map(move |k| x >> k & 1 == 1)).collect()
}
