//! Does anything accumulate? Descriptors, threads, memory, files, requests to the node.
use crate::chain::Id;
use crate::net::{self, CState, Kind, Peer};
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};

pub struct Res {
    pub on: bool,
    pub t_base: u64,
    pub base: Option<(u64, u64, u64)>, // descriptors that are not connections, threads, files
    pub mark: Option<u64>,             // memory in use when nothing but the mempool could change any more
    pub have: BTreeSet<Id>,            // fetched and still listed
    pub blocks: BTreeSet<usize>,
    pub reorged: bool,
    pub since_poll: u64,
    pub idle_writes: (u64, u64),       // (last block, store files opened for writing long after it)
    pub poll_quiet: bool,
    pub mined: u64,                    // blocks since the mark
    pub ended: BTreeMap<usize, u64>, // connection -> when the application was told that its peer left
}
impl Res {
    pub fn new(on: bool) -> Res {
        Res { on, t_base: 0, base: None, mark: None, have: Default::default(), blocks: Default::default(), reorged: false, since_poll: 0, idle_writes: (0, 0), poll_quiet: false, mined: 0, ended: Default::default() }
    }
}
pub fn process_start() {
    let wd = w();
    let on = wd.res.on;
    wd.res = Res::new(on);
}
pub fn memory() -> u64 {
    #[repr(C)]
    struct Mallinfo2([usize; 10]);
    extern "C" {
        fn mallinfo2() -> Mallinfo2;
    }
    let m = unsafe { mallinfo2() }.0;
    (m[4] + m[7]) as u64 // blocks mapped + bytes in use
}
fn files() -> u64 {
    let v = &w().vfs;
    fn rec(v: &crate::vfs::Vfs, i: usize) -> u64 {
        v.ino[&i].entries.values().map(|x| if v.ino[x].dir { rec(v, *x) } else { 1 }).sum()
    }
    ["/data", "/tmp"].iter().filter_map(|d| v.lookup(d).ok()).map(|d| rec(v, d)).sum()
}
fn count() -> (u64, u64, u64) {
    let wd = w();
    let fds = wd.net.fds.values().filter(|d| !matches!(wd.net.descs[**d].as_ref().map(|d| &d.kind), Some(Kind::Conn { .. }))).count();
    (fds as u64, wd.sched.alive(), files())
}
fn max(k: &str, v: u64) {
    let wd = w();
    let o = wd.stats.get(k).copied().unwrap_or(0);
    wd.stats.insert(k.into(), o.max(v));
}
/// Every half second of simulated time while the API is open.
pub fn periodic() {
    let wd = w();
    if !wd.res.on || wd.proc != Proc::Up || wd.excuse {
        return;
    }
    let Some(open) = wd.or.open_t else { return };
    let c = count();
    if wd.res.base.is_none() {
        if wd.now > open + 12 * SEC {
            wd.res.base = Some(c);
            wd.res.t_base = wd.now;
        }
        return;
    }
    let b = wd.res.base.unwrap();
    let slack = (6, 8, 3);
    if c.0 > b.0 + slack.0 || c.1 > b.1 + slack.1 || c.2 > b.2 + slack.2 {
        wd.violate("accumulates", format!("after {} s: (descriptors, threads, files) were {:?} and are {:?}", (wd.now - wd.res.t_base) / SEC, b, c));
        return;
    }
    max("max.grown_fds", c.0.saturating_sub(b.0));
    max("max.grown_threads", c.1.saturating_sub(b.1));
    max("max.grown_files", c.2.saturating_sub(b.2));
    // connections whose other end has gone
    let mut dead = 0;
    let mut node_conns = 0;
    for id in 0..wd.net.conns.len() {
        let x = &w().net.conns[id];
        if x.desc.is_none() || x.app_closed || x.state != CState::Open {
            continue;
        }
        if x.peer == Peer::Node && !x.rx_fin && !x.rst {
            node_conns += 1;
        }
        if x.rx_fin || x.rst {
            let now = w().now;
            let t = *w().res.ended.entry(id).or_insert(now);
            if now > t + 5 * SEC + 2 * w().stall_total {
                dead += 1;
            }
        }
    }
    max("max.dead_conns", dead);
    max("max.node_conns", node_conns);
    if dead > 3 {
        w().violate("accumulates", format!("{} connections are still open though their other end left long ago", dead));
    } else if node_conns > 6 {
        w().violate("accumulates", format!("{} connections to the node are open at once", node_conns));
    }
}
pub fn mark() {
    let wd = w();
    if wd.proc == Proc::Up && app() {
        wd.res.mark = Some(memory());
        wd.res.mined = 0;
        wd.note("memory marked".into());
    }
}
/// At the end, after a quiet time: is the memory back where it was?
pub fn settled() {
    let wd = w();
    if !wd.res.on || wd.excuse || !app() {
        return;
    }
    net::open_inodes();
    if let Some(m) = wd.res.mark {
        let n = memory();
        let g = n.saturating_sub(m);
        let b = wd.res.mined;
        max(if b == 0 { "max.grown_bytes" } else { "max.grown_bytes_blocks" }, g);
        wd.stat("memory.checked", 1);
        if g > MEM_SLACK + b * PER_BLOCK {
            let d = format!("the process uses {} bytes more after a long time of nothing but {} blocks that leave few coins, and requests", g, b);
            if b > 0 {
                return wd.violate("memory-grows", d);
            }
            wd.violate("memory-grows", format!("the process used {} bytes more after a long time of nothing but mempool changes and requests, although the mempool is as empty as before", g));
        }
    }
}
const MEM_SLACK: u64 = 160 << 10;
const PER_BLOCK: u64 = 1500;

/// A file of the data directory is created or truncated.
pub fn writing(path: &str) {
    let wd = w();
    if !wd.res.on || wd.excuse || wd.res.base.is_none() {
        return;
    }
    let since = wd.node.chain_since.max(wd.res.t_base).max(wd.busy_until);
    let allow = 3 * wd.cfg.interval_ns() + 6 * SEC + wd.node.slow_ns + wd.node.silent_ns + wd.disk_slow_ns + wd.stall_total * 2;
    if wd.now < since + allow {
        return;
    }
    if wd.res.idle_writes.0 != since {
        wd.res.idle_writes = (since, 0);
    }
    wd.res.idle_writes.1 += 1;
    if wd.res.idle_writes.1 >= 3 {
        wd.violate("idle-writes", format!("{} is written again, although the last block came {} s ago", path, (wd.now - since) / SEC));
    }
}
// ---- requests to the node
pub fn polled(ids: &[Id]) {
    let wd = w();
    if !wd.res.on {
        return;
    }
    let r = &mut wd.res;
    let l: BTreeSet<&Id> = ids.iter().collect();
    r.have.retain(|i| l.contains(i));
    let p = &wd.node.polls;
    if p.len() >= 2 {
        let before = p[p.len() - 2];
        // nothing has changed since before the poll before this one began
        let quiet = wd.node.quiet_since < before && !wd.excuse;
        if quiet && r.poll_quiet {
            let n = r.since_poll;
            max("max.requests_per_idle_poll", n);
            if n > 6 {
                wd.violate("idle-requests", format!("{} requests to the node in one poll, although nothing had changed", n));
            }
        }
        wd.res.poll_quiet = quiet;
    }
    wd.res.since_poll = 0;
}
pub fn request() {
    w().res.since_poll += 1;
}
pub fn fetched_tx(t: Id) {
    let wd = w();
    if wd.res.on && !wd.res.have.insert(t) && !wd.excuse {
        let d = format!("mempool transaction {} was fetched again, although it had been listed all the time", crate::sha::rhex(&t));
        wd.violate("refetched", d);
    }
}
pub fn fetched_block(b: usize) {
    let wd = w();
    if wd.res.on && !wd.res.reorged && !wd.res.blocks.insert(b) && !wd.excuse {
        let d = format!("block {} was fetched twice", wd.node.blocks[b].height);
        wd.violate("refetched", d);
    }
}
