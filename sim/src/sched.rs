//! Cooperative scheduler: exactly one application thread runs at a time; which one, and where it is preempted, is decided
//! here from the seed (or from a recorded decision list).
use crate::rng::{hash2, Rng};
use crate::sys;
use crate::world::*;
use std::collections::{BTreeMap, VecDeque};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Run,
    Blocked,
    Stalled,
    Exited,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Wait {
    None,
    Futex(usize, u32), // address, bitset
    Epoll(i32),        // epoll description
    Sleep,
    Join(usize),
    Desc(i32),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Why {
    Woken,
    Timeout,
}
pub struct Thr {
    pub st: St,
    pub wait: Wait,
    pub gen: u64,
    pub why: Why,
    pub word: *mut u32,
    pub pth: usize,
    pub start_stall: bool,
    pub wakes: u64,
}
/// One forced preemption in incarnation `inc` (0 = any) for `stall` ns: at the `at`-th edge (`app` edges only, or all), or
/// at the `at`-th time a chosen edge of the application's own code is passed.
#[derive(Clone, Debug, PartialEq)]
pub struct Preempt {
    pub inc: u32,
    pub app: bool,
    pub at: u64,
    pub stall: u64,
    pub sel: Option<(bool, u64)>, // (state-handling code only?, selector)
    pub guard: u32,
    pub seen: u64,
    pub pause: bool,
}
pub struct Crawl {
    inc: u32,
    thread: usize,
    every: u64,
    left: u64,
    stall: u64,
    at: u64,
}
/// Stop at the `left`-th passage of an application edge that this process has passed at most `max` times.
pub struct Rare {
    inc: u32,
    hot: bool,
    max: u8,
    left: u64,
    stall: u64,
}
/// The `left`-th waking of a thread by another one, among threads woken at most `max` times so far, takes its time.
pub struct Late {
    inc: u32,
    max: u64,
    left: u64,
    stall: u64,
}
pub struct Sched {
    pub late: Option<Late>,
    pub rare: Option<Rare>,
    pub crawl: Option<Crawl>,
    pub thr: Vec<Thr>,
    pub cur: usize,
    pub runq: VecDeque<usize>,
    pub rng: Rng,
    pub explicit: Option<BTreeMap<u64, u64>>,
    pub idx: u64,
    pub taken: Vec<(u64, u64)>,
    pub switch_pm: u64, // permille: change thread at a system call
    pub wake_pm: u64,   // permille: run a thread the moment it is woken
    pub pick_pm: u64,   // permille: when the current thread blocks, take another than the oldest runnable
    pub spur_pm: u64,   // 1/10000: spurious futex wake / EINTR
    pub preempts: Vec<Preempt>,
    pub hash: u64,
    pub switches: u64,
    pub states: u64,
    pub stalls: Vec<(u64, u64)>,
    pub slice: u64,
}

// Edge counters live outside the world for speed; they belong to the current process.
pub static mut APP_EDGES: u64 = 0;
pub static mut ALL_EDGES: u64 = 0;
pub static mut NEXT_APP: u64 = u64::MAX;
pub static mut NEXT_ALL: u64 = u64::MAX;
pub static mut LIMIT_ALL: u64 = u64::MAX;
static mut LAST_EDGES: u64 = 0;
static mut SPIN: u32 = 0;
pub static mut CALLS: u64 = 0; // system calls in this process
const CALL_LIMIT: u64 = 8_000_000;
// The operating system's time slice: a thread that never blocks does not keep the others from running.
static mut SLICE_ALL: u64 = u64::MAX;
static mut SLICE_END: u64 = u64::MAX;
pub static mut LAST_GUARD: u32 = 0;
pub static mut EDGE_APP: *mut u8 = std::ptr::null_mut();
pub static mut PASSED: *mut u8 = std::ptr::null_mut(); // how often each edge was passed, up to 255
static mut RARE: u8 = 0;
pub static mut COV: *mut u8 = std::ptr::null_mut();
static mut IN_SIM: bool = false;

impl Sched {
    pub fn alive(&self) -> u64 {
        self.thr.iter().filter(|t| t.st != St::Exited).count() as u64
    }
    pub fn choose(&mut self, n: u64, pm: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let i = self.idx;
        self.idx += 1;
        match &self.explicit {
            Some(m) => *m.get(&i).unwrap_or(&0) % n,
            None => {
                let v = if self.rng.below(1000) < pm { self.rng.below(n) } else { 0 };
                if v != 0 {
                    self.taken.push((i, v));
                }
                v
            }
        }
    }
    /// A yes/no event with probability p out of 10000, recorded like a choice.
    pub fn rare(&mut self, p: u64) -> bool {
        if p == 0 {
            return false;
        }
        let i = self.idx;
        self.idx += 1;
        match &self.explicit {
            Some(m) => m.contains_key(&i),
            None => {
                let v = self.rng.below(10000) < p;
                if v {
                    self.taken.push((i, 1));
                }
                v
            }
        }
    }
}

pub fn reset_for_process() {
    let s = &mut w().sched;
    s.thr.clear();
    s.runq.clear();
    s.cur = 0;
    new_thread();
    s.runq.clear();
    unsafe {
        APP_EDGES = 0;
        ALL_EDGES = 0;
        LAST_EDGES = 0;
        SPIN = 0;
        CALLS = 0;
        LIMIT_ALL = 800_000_000;
        let (n, app, hot) = crate::driver::lists();
        for g in 0..n {
            *EDGE_APP.add(g) &= 1 | 8;
            *PASSED.add(g) = 0;
        }
        RARE = 0;
        let wd = w();
        for p in wd.sched.preempts.iter_mut() {
            p.seen = 0;
            if let Some((h, sel)) = p.sel {
                let l = if h && !hot.is_empty() { hot } else { app };
                if !l.is_empty() && (p.inc == 0 || p.inc == wd.inc) {
                    p.guard = l[(sel % l.len() as u64) as usize];
                    *EDGE_APP.add(p.guard as usize) |= 2;
                }
            }
        }
    }
    new_slice();
}
pub fn recompute() {
    next_preempt();
}
fn new_slice() {
    unsafe {
        SLICE_END = w().now + w().sched.slice;
        SLICE_ALL = ALL_EDGES + w().sched.slice / 4;
    }
    next_preempt();
}
/// Stall the thread that passes the `n`-th edge of the application's code from now on, or for the `n`-th time a chosen
/// edge of its state-handling code.
pub fn pause_in(n: u64, sel: Option<u64>, stall: u64) {
    let wd = w();
    let (_, app, hot) = crate::driver::lists();
    let mut p = Preempt { inc: wd.inc, app: true, at: n.max(1), stall, sel: None, guard: 0, seen: 0, pause: true };
    match sel {
        Some(x) => {
            let l = if hot.is_empty() { app } else { hot };
            if l.is_empty() {
                return;
            }
            p.sel = Some((true, x));
            p.guard = l[(x % l.len() as u64) as usize];
            unsafe { *EDGE_APP.add(p.guard as usize) |= 2 };
            wd.sched.preempts.push(p);
        }
        None => {
            p.at += unsafe { APP_EDGES };
            wd.sched.preempts.push(p);
        }
    }
    next_preempt();
}
/// From now on the running thread stops for a while at every `every`-th edge of the application's code, `count` times.
pub fn crawl(every: u64, count: u64, stall: u64) {
    let wd = w();
    if !app() {
        return;
    }
    wd.sched.crawl = Some(Crawl { inc: wd.inc, thread: wd.sched.cur, every: every.max(1), left: count, stall, at: unsafe { APP_EDGES } + every.max(1) });
    wd.stat("crawl", 1);
    next_preempt();
}
/// Stall the thread that passes the `n`-th seldom-used edge from now on.
pub fn rare_in(n: u64, max: u64, hot: bool, stall: u64) {
    let wd = w();
    wd.sched.rare = Some(Rare { inc: wd.inc, hot, max: max.clamp(1, 200) as u8, left: n.max(1), stall });
    unsafe { RARE = max.clamp(1, 200) as u8 };
}
pub fn late_in(n: u64, max: u64, stall: u64) {
    let wd = w();
    wd.sched.late = Some(Late { inc: wd.inc, max, left: n.max(1), stall });
}
pub fn rare_off() {
    w().sched.rare = None;
    unsafe { RARE = 0 };
}
fn next_preempt() {
    let wd = w();
    unsafe {
        NEXT_APP = u64::MAX;
        NEXT_ALL = LIMIT_ALL.min(SLICE_ALL);
        if let Some(c) = &wd.sched.crawl {
            if c.inc == wd.inc {
                NEXT_APP = c.at.max(APP_EDGES + 1);
            }
        }
        for p in &wd.sched.preempts {
            if p.inc == wd.inc && p.sel.is_none() {
                if p.app && p.at > APP_EDGES {
                    NEXT_APP = NEXT_APP.min(p.at);
                }
                if !p.app && p.at > ALL_EDGES {
                    NEXT_ALL = NEXT_ALL.min(p.at);
                }
            }
        }
    }
}
pub fn new_thread() -> usize {
    let wd = w();
    let id = wd.sched.thr.len();
    wd.sched.thr.push(Thr {
        st: St::Run,
        wait: Wait::None,
        gen: 0,
        why: Why::Woken,
        word: Box::into_raw(Box::new(0u32)),
        pth: 0,
        start_stall: false,
        wakes: 0,
    });
    wd.sched.runq.push_back(id);
    id
}

pub fn edge(g: u32) {
    unsafe {
        ALL_EDGES += 1;
        let mut hit = ALL_EDGES == NEXT_ALL;
        *COV.add(g as usize) = 1;
        let k = *EDGE_APP.add(g as usize);
        if k != 0 {
            APP_EDGES += 1;
            LAST_GUARD = g;
            hit |= APP_EDGES == NEXT_APP || k & 2 != 0;
            let c = PASSED.add(g as usize);
            if *c < 255 {
                *c += 1;
                hit |= *c <= RARE;
            }
        }
        if hit {
            preempt(g);
        }
    }
}
#[inline(never)]
fn preempt(g: u32) {
    if !app() || unsafe { IN_SIM } {
        return;
    }
    let wd = w();
    let (a, l) = unsafe { (APP_EDGES, ALL_EDGES) };
    if l >= unsafe { LIMIT_ALL } {
        wd.violate("cpu-exhausted", format!("{} control-flow edges executed in one process", l));
        crate::driver::leave(crate::driver::X_CPU);
    }
    let mut stall = None;
    let mut paused = false;
    if l >= unsafe { SLICE_ALL } {
        new_slice();
        stall = Some(0);
        unsafe {
            SPIN += 1;
        }
    }
    let wd = w();
    for p in wd.sched.preempts.iter_mut() {
        if p.sel.is_some() {
            if p.guard == g && (p.inc == 0 || p.inc == wd.inc) {
                p.seen += 1;
                if p.seen == p.at {
                    stall = Some(p.stall);
                    paused |= p.pause;
                }
            }
            continue;
        }
        if p.inc == wd.inc && ((p.app && p.at == a && a == unsafe { NEXT_APP }) || (!p.app && p.at == l)) {
            stall = Some(p.stall);
            paused |= p.pause;
        }
    }
    let me = wd.sched.cur;
    let inc = wd.inc;
    if let Some(r) = &mut wd.sched.rare {
        if r.inc != inc {
            rare_off();
        } else if unsafe { RARE > 0 && *EDGE_APP.add(g as usize) & if r.hot { 8 } else { 1 } != 0 && *PASSED.add(g as usize) <= r.max } {
            r.left -= 1;
            if r.left == 0 {
                stall = Some(stall.unwrap_or(0).max(r.stall));
                paused = true;
                rare_off();
            }
        }
    }
    let wd = w();
    if let Some(c) = &mut wd.sched.crawl {
        if c.inc == inc && a >= c.at {
            c.at = a + c.every;
            if c.thread == me {
                c.left -= 1;
                stall = Some(stall.unwrap_or(0).max(c.stall));
                paused = true;
                if c.left == 0 {
                    wd.sched.crawl = None;
                }
            }
        }
    }
    next_preempt();
    let Some(stall) = stall else { return };
    wd.stat("preempt", 1);
    let sp: *const usize;
    unsafe { std::arch::asm!("mov {}, rsp", out(reg) sp) };
    if crate::driver::in_handover(sp, 120) {
        let wd = w();
        wd.stat("handover_preempt", 1);
        wd.excuse("rpc-lost");
        wd.node.silent_ns += 660 * SEC;
    }
    let wd = w();
    wd.lg(77, g as u64);
    let e = sys::errno();
    tick(0);
    run_due();
    check_finished();
    let wd = w();
    let me = wd.sched.cur;
    if stall > 0 {
        wd.stat("stall", 1);
        wd.stall_total += stall;
        wd.busy(stall);
        let now = wd.now;
        wd.sched.stalls.push((now, now + stall));
        wd.sched.thr[me].st = St::Stalled;
        wd.at(now + stall, Ev::Unstall(me));
        wd.tr(|| format!("stall thread {} for {} us at edge {}", me, stall / 1000, g));
        if paused {
            wd.stat("pause", 1);
            point("pause");
        }
        switch_away();
    } else if !wd.sched.runq.is_empty() {
        wd.tr(|| format!("preempt thread {} at edge {}", me, g));
        wd.sched.runq.push_back(me);
        switch_away();
    } else if unsafe { SPIN } > 3 && wd.sched.thr.iter().any(|t| t.st == St::Stalled) {
        // spinning on something a stalled thread holds: let the time pass without executing it all
        if let Some(k) = wd.events.keys().next() {
            wd.now = wd.now.max(k.0);
            wd.stat("spin_skip", 1);
            run_due();
            check_finished();
            if !w().sched.runq.is_empty() {
                w().sched.runq.push_back(me);
                switch_away();
            }
        }
    }
    sys::set_errno(e);
}

/// Simulated CPU time passes: a constant per system call plus executed edges.
pub fn tick(cost: u64) {
    let wd = w();
    unsafe {
        let d = ALL_EDGES - LAST_EDGES;
        LAST_EDGES = ALL_EDGES;
        wd.now += cost + d * 4;
    }
}
// A loop in which not a single instrumented edge and no system call happens cannot be seen by the counters above. No
// code of the program computes for 15 s of processor time like that.
extern "C" fn hung(_: i32) {
    static mut SEEN: ((u64, u64, u64), u32) = ((0, 0, 0), 0);
    unsafe {
        let now = (ALL_EDGES, CALLS, w().log_n);
        SEEN = if SEEN.0 == now { (now, SEEN.1 + 1) } else { (now, 0) };
        if SEEN.1 >= 3 {
            w().violate("cpu-exhausted", "the process computes for ever without a system call".into());
            crate::driver::leave(crate::driver::X_CPU);
        }
    }
}
pub fn watch_hung() {
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = hung as extern "C" fn(i32) as usize;
        a.sa_flags = libc::SA_RESTART;
        libc::sigaction(libc::SIGVTALRM, &a, std::ptr::null_mut());
        let t = [5i64, 0, 5, 0];
        crate::sys::sc3(libc::SYS_setitimer, 1, t.as_ptr() as i64, 0);
    }
}
pub fn check_finished() {
    if w().finished {
        crate::driver::leave(crate::driver::X_DONE);
    }
}

/// A system call boundary: time passes, due events happen, another thread may run.
pub fn yield_point(kind: u64) {
    let wd = w();
    unsafe {
        SPIN = 0;
        CALLS += 1;
        if CALLS > CALL_LIMIT {
            wd.violate("cpu-exhausted", format!("{} system calls in one process", CALLS));
            crate::driver::leave(crate::driver::X_CPU);
        }
    }
    tick(700);
    wd.lg(kind, wd.sched.cur as u64);
    run_due();
    check_finished();
    let wd = w();
    if wd.now >= unsafe { SLICE_END } {
        new_slice();
        if !wd.sched.runq.is_empty() {
            let me = wd.sched.cur;
            wd.sched.runq.push_back(me);
            let t = wd.sched.runq.pop_front().unwrap();
            go(t);
        }
        return;
    }
    if !wd.sched.runq.is_empty() {
        let n = wd.sched.runq.len() as u64 + 1;
        let pm = wd.sched.switch_pm;
        let c = wd.sched.choose(n, pm);
        if c > 0 {
            let t = wd.sched.runq.remove(c as usize - 1).unwrap();
            let me = wd.sched.cur;
            wd.sched.runq.push_back(me);
            go(t);
        }
    }
}
pub fn block(wait: Wait, deadline: Option<u64>) -> Why {
    let wd = w();
    let me = wd.sched.cur;
    let t = &mut wd.sched.thr[me];
    t.st = St::Blocked;
    t.wait = wait;
    t.gen += 1;
    let g = t.gen;
    if let Some(d) = deadline {
        wd.at(d, Ev::Wake(me, g));
    }
    switch_away();
    w().sched.thr[me].why
}
/// Make a blocked thread runnable.
pub fn wake(t: usize, why: Why) {
    let wd = w();
    let th = &mut wd.sched.thr[t];
    if th.st != St::Blocked {
        return;
    }
    let futex = matches!(th.wait, Wait::Futex(..)) && why == Why::Woken;
    th.st = St::Run;
    th.wait = Wait::None;
    th.gen += 1;
    th.why = why;
    th.wakes += futex as u64;
    let wakes = th.wakes;
    if let (true, Some(l)) = (futex, &mut wd.sched.late) {
        if l.inc != wd.inc {
            wd.sched.late = None;
        } else if wakes <= l.max {
            l.left -= 1;
            if l.left == 0 {
                let stall = l.stall;
                wd.sched.late = None;
                wd.stat("stall", 1);
                wd.stat("late_wake", 1);
                wd.stall_total += stall;
                wd.busy(stall);
                let now = wd.now;
                wd.sched.stalls.push((now, now + stall));
                wd.sched.thr[t].st = St::Stalled;
                wd.at(now + stall, Ev::Unstall(t));
                wd.tr(|| format!("thread {} is woken, but gets no processor for {} us", t, stall / 1000));
                point("pause");
                return;
            }
        }
    }
    let pm = wd.sched.wake_pm;
    if wd.sched.choose(2, pm) == 1 {
        wd.sched.runq.push_front(t);
    } else {
        wd.sched.runq.push_back(t);
    }
}
pub fn timer(t: usize, g: u64) {
    let wd = w();
    if t < wd.sched.thr.len() && wd.sched.thr[t].st == St::Blocked && wd.sched.thr[t].gen == g {
        wake(t, Why::Timeout);
    }
}
pub fn unstall(t: usize) {
    let wd = w();
    if t < wd.sched.thr.len() && wd.sched.thr[t].st == St::Stalled {
        wd.sched.thr[t].st = St::Run;
        wd.sched.runq.push_back(t);
    }
}
pub fn futex_waiters(addr: usize, bitset: u32) -> Vec<usize> {
    let wd = w();
    let mut v: Vec<(u64, usize)> = Vec::new();
    for (i, t) in wd.sched.thr.iter().enumerate() {
        if t.st == St::Blocked {
            if let Wait::Futex(a, b) = t.wait {
                if a == addr && b & bitset != 0 {
                    v.push((t.gen, i));
                }
            }
        }
    }
    // FIFO is not guaranteed by the kernel either; thread order is as good as any
    v.into_iter().map(|x| x.1).collect()
}
pub fn wake_where(f: impl Fn(&Wait) -> bool) -> bool {
    let wd = w();
    let mut any = false;
    for i in 0..wd.sched.thr.len() {
        if wd.sched.thr[i].st == St::Blocked && f(&wd.sched.thr[i].wait) {
            wake(i, Why::Woken);
            any = true;
        }
    }
    any
}

/// The current thread cannot (or shall not) go on: pick another, letting simulated time pass if none is runnable.
fn switch_away() {
    loop {
        let wd = w();
        let n = wd.sched.runq.len() as u64;
        if n > 0 {
            let pm = wd.sched.pick_pm;
            let c = wd.sched.choose(n, pm);
            let t = wd.sched.runq.remove(c as usize).unwrap();
            go(t);
            return;
        }
        match wd.events.keys().next() {
            Some(k) => {
                if k.0 > wd.now {
                    wd.now = k.0;
                }
                if wd.now > wd.sim_end {
                    wd.violate("sim-timeout", "simulated time ran out before the scenario ended".into());
                    wd.finished = true;
                }
                run_due();
                check_finished();
            }
            None => {
                wd.violate("deadlock", "no thread can run and no event is pending".into());
                wd.finished = true;
                check_finished();
            }
        }
    }
}
fn go(t: usize) {
    let wd = w();
    let me = wd.sched.cur;
    new_slice();
    if t == me {
        return;
    }
    wd.sched.switches += 1;
    let g = unsafe { LAST_GUARD } as u64;
    wd.sched.hash = hash2(wd.sched.hash ^ g, (me * 64 + t) as u64);
    let k = hash2(g, wd.sched.thr[me].st as u64 * 8 + wd.sched.thr.iter().filter(|t| t.st == St::Blocked).count() as u64);
    wd.sched.states += crate::driver::state_bit(k);
    wd.sched.cur = t;
    let mine = wd.sched.thr[me].word;
    let dead = wd.sched.thr[me].st == St::Exited;
    let word = wd.sched.thr[t].word;
    unsafe {
        let a = &*(word as *const std::sync::atomic::AtomicU32);
        a.store(1, std::sync::atomic::Ordering::SeqCst);
        sys::futex_wake(word);
        if dead {
            return;
        }
        park(mine);
    }
}
pub unsafe fn park(word: *mut u32) {
    let a = &*(word as *const std::sync::atomic::AtomicU32);
    while a.load(std::sync::atomic::Ordering::SeqCst) == 0 {
        sys::futex_wait(word, 0);
    }
    a.store(0, std::sync::atomic::Ordering::SeqCst);
}
pub fn enter() {
    unsafe { IN_SIM = true }
}

// ---- threads
struct StartArg {
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
    word: *mut u32,
}
static mut KEY: libc::pthread_key_t = 0;
pub unsafe fn make_key() {
    libc::pthread_key_create(std::ptr::addr_of_mut!(KEY), Some(key_dtor));
}
extern "C" fn trampoline(a: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        let sa = a as *mut StartArg;
        park((*sa).word);
        let sa = Box::from_raw(sa);
        libc::pthread_setspecific(KEY, 1 as *const libc::c_void);
        (sa.f)(sa.arg)
    }
}
unsafe extern "C" fn key_dtor(v: *mut libc::c_void) {
    let n = v as usize;
    if n < 4 {
        // run after every other destructor
        libc::pthread_setspecific(KEY, (n + 1) as *const libc::c_void);
        return;
    }
    thread_exit();
}
#[inline(never)]
fn thread_exit() {
    tick(700);
    let wd = w();
    let me = wd.sched.cur;
    wd.lg(60, me as u64);
    wd.sched.thr[me].st = St::Exited;
    wake_where(|x| *x == Wait::Join(me));
    switch_away();
}
pub unsafe fn create(
    th: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
) -> i32 {
    yield_point(61);
    if let Some((e, _)) = w().vfs.fault("thread", "os") {
        let wd = w();
        wd.stat("fault.thread_create", 1);
        wd.excuse("thread-error");
        wd.note("a thread cannot be created".into());
        return e;
    }
    let id = new_thread();
    let word = w().sched.thr[id].word;
    let sa = Box::into_raw(Box::new(StartArg { f, arg, word }));
    let r = (sys::REAL_CREATE.unwrap())(th, attr, trampoline, sa as *mut libc::c_void);
    if r != 0 {
        sys::write_all(2, b"sim: pthread_create failed\n");
        sys::exit_group(99);
    }
    w().sched.thr[id].pth = *th as usize;
    yield_point(62);
    0
}
pub unsafe fn join(th: libc::pthread_t, ret: *mut *mut libc::c_void) -> i32 {
    yield_point(63);
    let wd = w();
    let id = wd.sched.thr.iter().rposition(|t| t.pth == th as usize && t.pth != 0);
    if let Some(id) = id {
        while w().sched.thr[id].st != St::Exited {
            block(Wait::Join(id), None);
        }
        w().sched.thr[id].pth = 0;
    }
    (sys::REAL_JOIN.unwrap())(th, ret)
}
