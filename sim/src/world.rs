//! The simulated world: everything that outlives an application process.
use crate::client::Clients;
use crate::json::J;
use crate::net::Net;
use crate::node::Node;
use crate::oracle::Oracle;
use crate::rng::{hash2, Rng};
use crate::sched::Sched;
use crate::vfs::Vfs;
use std::collections::BTreeMap;

pub static mut W: *mut World = std::ptr::null_mut();
/// True inside an application process once its `main` is about to run.
pub static mut APP: bool = false;

#[inline(never)]
pub fn w() -> &'static mut World {
    unsafe { &mut *W }
}
#[inline(always)]
pub fn app() -> bool {
    unsafe { APP }
}

pub const US: u64 = 1_000;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub threads: u64,
    pub batch: u64,
    pub interval: u64, // ms
    pub conf: u64,
    pub cpus: u64,
    pub host_name: u8, // 0 = IP, 1 = name with one address, 2 = name with a dead first address
    pub listen: u8,    // 0 = default host and port, 1 = explicit
    pub port: u16,
    pub user: String,
    pub pass: String,
    pub defaults: bool, // leave optional settings out of the environment
    pub paths: u8,      // 0 = absolute, 1 = awkward absolute, 2 = relative, 3 = awkward, 4 = in the working directory
}
impl Cfg {
    pub fn of(j: &J) -> Cfg {
        Cfg {
            threads: j.u("threads", 2),
            batch: j.u("batch", 10),
            interval: j.u("interval", 200),
            conf: j.u("conf", 3),
            cpus: j.u("cpus", 2),
            host_name: j.u("host_name", 0) as u8,
            listen: j.u("listen", 0) as u8,
            port: j.u("port", 8000) as u16,
            user: if j.get("user").is_some() { j.s("user") } else { "user".into() },
            pass: if j.get("pass").is_some() { j.s("pass") } else { "pass".into() },
            defaults: j.b("defaults"),
            paths: j.u("paths", 0) as u8,
        }
    }
    pub fn merge(&mut self, j: &J) {
        self.threads = j.u("threads", self.threads);
        self.batch = j.u("batch", self.batch);
        self.interval = j.u("interval", self.interval);
        self.conf = j.u("conf", self.conf);
        self.cpus = j.u("cpus", self.cpus);
    }
    pub fn listen_port(&self) -> u16 {
        if self.defaults && self.listen == 0 {
            8000
        } else {
            self.port
        }
    }
    pub fn listen_addr(&self) -> ([u8; 4], u16) {
        (if !self.defaults || self.listen != 0 { if self.listen == 0 { [127, 0, 0, 1] } else { [0; 4] } } else { [127, 0, 0, 1] }, self.listen_port())
    }
    pub fn interval_ns(&self) -> u64 {
        self.interval * MS
    }
}

#[derive(Debug)]
pub enum Ev {
    Op(usize),
    Wake(usize, u64),  // thread, generation
    Unstall(usize),    // thread
    ToApp(usize, Vec<u8>),
    ToAppEnd(usize, bool), // reset?
    ToPeer(usize, usize),  // bytes
    PeerEnd(usize, bool),
    Established(usize, bool),
    NodeProc(usize),
    ClientGo(usize),
    ClientSend(usize),
    Start,
    Phase(u32),
    NodeUp,
    DiskOk,
    RpcFast,
    Check(u32),
    FdsFree,
    BadCheck(u32),
    Again(usize),
}
impl Ev {
    /// The connection something is under way on.
    pub fn conn(&self) -> Option<usize> {
        match self {
            Ev::ToApp(c, _) | Ev::ToAppEnd(c, _) | Ev::ToPeer(c, _) | Ev::PeerEnd(c, _) | Ev::Established(c, _) => Some(*c),
            _ => None,
        }
    }
}

pub struct OpRec {
    pub j: J,
    pub done: bool,
    pub skip: u64,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub detail: String,
    pub t: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Proc {
    Down,
    Starting,
    Up,
}

pub struct World {
    pub now: u64,
    pub wall_off: i64,
    pub seq: u64,
    pub events: BTreeMap<(u64, u64), Ev>,
    pub cfg: Cfg,
    pub prop: String,
    pub scn: J,
    pub ops: Vec<OpRec>,
    pub armed: Vec<usize>, // ops waiting for their trigger
    pub t_ops_end: u64,
    pub proc: Proc,
    pub inc: u32,
    pub start_t: u64,
    pub finished: bool,
    pub excuse: bool, // a fault that may legitimately end this incarnation was delivered
    pub excuse_why: String,
    pub badenv: std::collections::VecDeque<J>, // broken configurations for the next starts
    pub bad: Option<String>,  // this incarnation has a broken configuration
    pub exits: Vec<(u32, String)>,
    pub log: u64,
    pub log_n: u64,
    pub trace_on: bool,
    pub trace: Vec<String>,
    pub app_out: Vec<u8>,
    pub app_err: Vec<u8>,
    pub violations: Vec<Violation>,
    pub stats: BTreeMap<String, u64>,
    pub stall_total: u64,
    pub sched: Sched,
    pub net: Net,
    pub vfs: Vfs,
    pub node: Node,
    pub cl: Clients,
    pub or: Oracle,
    pub res: crate::res::Res,
    pub app_rng: Rng,
    pub edges_all: u64,
    pub sim_end: u64,
    pub want_start: bool,
    pub phase_t: u64,
    pub resume_mined: u32,
    pub fin_round: u32,
    pub finale_at: usize,
    pub completed: bool,
    pub deaths: u32,
    pub busy_until: u64, // stalls, slow disk and slow answers in progress end then
    pub disk_slow_ns: u64,
}

impl World {
    pub fn at(&mut self, t: u64, e: Ev) {
        self.seq += 1;
        self.events.insert((t.max(self.now), self.seq), e);
    }
    pub fn after(&mut self, d: u64, e: Ev) {
        self.at(self.now + d, e)
    }
    pub fn stat(&mut self, k: &str, n: u64) {
        if let Some(v) = self.stats.get_mut(k) {
            *v += n;
        } else {
            self.stats.insert(k.to_string(), n);
        }
    }
    pub fn lg(&mut self, a: u64, b: u64) {
        self.log = hash2(self.log ^ a, b ^ self.now);
        self.log_n += 1;
    }
    pub fn tr(&mut self, f: impl FnOnce() -> String) {
        if self.trace_on {
            let s = format!("[{:>12.6}] {}", self.now as f64 / 1e9, f());
            if self.trace.len() < 20000 {
                self.trace.push(s);
            }
        }
    }
    pub fn note(&mut self, s: String) {
        // always kept: the short history shown with a violation
        let s = format!("[{:>12.6}] {}", self.now as f64 / 1e9, s);
        if self.trace.len() < 20000 {
            self.trace.push(s);
        }
    }
    pub fn violate(&mut self, class: &str, detail: String) {
        if self.violations.len() < 20 {
            self.note(format!("VIOLATION {} {}", class, detail));
            self.violations.push(Violation { class: class.into(), detail, t: self.now });
            self.finished = true;
        }
    }
    pub fn busy(&mut self, d: u64) {
        self.busy_until = self.busy_until.max(self.now + d);
    }
    /// Something outside the process is about to be touched.
    pub fn touch(&mut self, what: &str) {
        if let Some(b) = &self.bad {
            let d = format!("started with {}, the process touches {}", b, what);
            self.violate("bad-config-touched", d);
        }
    }
    pub fn excuse(&mut self, why: &str) {
        if self.proc != Proc::Down {
            self.excuse = true;
            if !self.excuse_why.contains(why) {
                self.excuse_why.push_str(why);
                self.excuse_why.push(' ');
            }
        }
    }
}

pub fn fnv(s: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

/// Announce a point in the execution; operations waiting for it run now.
pub fn point(name: &str) {
    let wd = w();
    if wd.armed.is_empty() {
        return;
    }
    let mut fire = Vec::new();
    wd.armed.retain(|&i| {
        let o = &mut wd.ops[i];
        if o.j.get("trig").map(|t| t.s("point") == name).unwrap_or(false) {
            if o.skip == 0 {
                fire.push(i);
                return false;
            }
            o.skip -= 1;
        }
        true
    });
    for i in fire {
        crate::ops::exec(i);
    }
}

/// Handle every event that is due.
pub fn run_due() {
    loop {
        let wd = w();
        let k = match wd.events.keys().next() {
            Some(k) if k.0 <= wd.now => *k,
            _ => return,
        };
        let e = wd.events.remove(&k).unwrap();
        handle(e);
        if w().finished {
            return;
        }
    }
}
fn handle(e: Ev) {
    let wd = w();
    match e {
        Ev::Op(i) => {
            if wd.ops[i].j.get("trig").is_some() {
                wd.armed.push(i);
            } else {
                crate::ops::exec(i)
            }
        }
        Ev::Wake(t, g) => crate::sched::timer(t, g),
        Ev::Unstall(t) => crate::sched::unstall(t),
        Ev::ToApp(c, b) => crate::net::ev_to_app(c, b),
        Ev::ToAppEnd(c, r) => crate::net::ev_to_app_end(c, r),
        Ev::ToPeer(c, n) => crate::net::ev_to_peer(c, n),
        Ev::PeerEnd(c, r) => crate::net::ev_peer_end(c, r),
        Ev::Established(c, ok) => crate::net::ev_established(c, ok),
        Ev::NodeProc(c) => crate::node::process(c),
        Ev::ClientGo(q) => crate::client::go(q),
        Ev::ClientSend(q) => crate::client::send_more(q),
        Ev::BadCheck(i) => {
            if wd.inc == i && wd.bad.is_some() {
                let d = format!("started with {}, the process does not end", wd.bad.as_ref().unwrap());
                wd.violate("bad-config-accepted", d);
            }
        }
        Ev::Again(i) => {
            if wd.phase_t == 0 {
                let j = wd.node.churns[i].clone();
                crate::ops::apply(&j)
            }
        }
        Ev::Start => crate::driver::request_start(),
        Ev::Phase(p) => crate::ops::phase(p),
        Ev::NodeUp => crate::ops::node_up(),
        Ev::DiskOk => {
            wd.vfs.slow = None;
            wd.vfs.space = None;
        }
        Ev::RpcFast => wd.node.slow = None,
        Ev::Check(k) => crate::oracle::periodic(k),
        Ev::FdsFree => wd.vfs.fd_limit = 0,
    }
}
