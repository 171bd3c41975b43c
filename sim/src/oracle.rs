//! What the API may answer: the reference model, and the invariants over the run.
use crate::chain::{self, Addr, Out};
use crate::client::{Expect, Form, Req};
use crate::json::J;
use crate::rng::hash2;
use crate::sha;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub struct Delta {
    pub spent: BTreeSet<Out>,
    pub created: BTreeMap<Addr, Vec<(Out, u64)>>,
}
pub struct Oracle {
    pub lo: (usize, usize), // answers given so far reflect at least this tip and this mempool listing
    pub start: (usize, usize),
    pub open_t: Option<u64>,
    pub opened_ever: bool, // a process that had written a first snapshot has opened its API
    pub opened_kept: bool, // one that had found a snapshot has; it may have been found before it was safe from a power cut
    pub deltas: BTreeMap<(usize, u64), Rc<Delta>>,
    pub prompt: u64, // ns; bound on the time to an answer
    pub low_bound: Option<usize>, // no snapshot may hold more blocks than this
    pub low_last: Option<usize>,
    pub want_low: Option<usize>, // after a quiet time: the exact number of blocks in the snapshot
    pub power: bool,
    pub pairs: u64,
    pub distinct: BTreeSet<u64>,
    pub stale_checked: u64,
    pub poll_seen: usize,
    pub tips_at_open: usize,
}
impl Oracle {
    pub fn new() -> Oracle {
        Oracle {
            lo: (0, 0),
            start: (0, 0),
            open_t: None,
            opened_ever: false,
            opened_kept: false,
            deltas: BTreeMap::new(),
            prompt: 20 * SEC,
            low_bound: None,
            low_last: None,
            want_low: None,
            power: false,
            pairs: 0,
            distinct: BTreeSet::new(),
            stale_checked: 0,
            poll_seen: 0,
            tips_at_open: 0,
        }
    }
}

pub fn process_start() {
    let wd = w();
    let a = wd.node.hist.len() - 1;
    let b = wd.node.listings.len();
    wd.or.start = (a, b);
    wd.or.lo.0 = wd.or.lo.0.max(a);
    wd.or.lo.1 = b;
    wd.or.open_t = None;
    wd.or.poll_seen = 0;
}
pub fn api_open() {
    let wd = w();
    wd.or.open_t = Some(wd.now);
    wd.or.tips_at_open = wd.node.hist.len();
    if wd.vfs.blk_opens > 0 {
        wd.or.opened_ever = true;
    } else {
        wd.or.opened_kept = true;
    }
    resume_check();
}
/// Once the API has been open there is a snapshot, and the block files may be gone.
pub fn block_file_opened() {
    let wd = w();
    if wd.or.opened_ever || wd.or.opened_kept {
        wd.violate("index-lost", "a snapshot had been written, but the restarted process reads the block files".into());
    }
}
/// Where did this incarnation resume?
fn resume_check() {
    let wd = w();
    let low = wd.node.low_block;
    // a fresh index takes what the block files hold now; a snapshot, at most what was confirmed when it was taken
    let fresh = (wd.node.height() + 2).saturating_sub(wd.cfg.conf as usize);
    let bound = match wd.or.low_bound {
        Some(b) if wd.vfs.blk_opens == 0 => b,
        Some(b) => b.max(fresh),
        None => fresh,
    };
    if let Some(l) = wd.node.low_ask {
        if l > bound {
            wd.violate("snapshot-unconfirmed", format!("the process resumed at block {}, so its index held blocks with fewer than CONFIRMATIONS confirmations (at most {} allowed)", l, bound));
            return;
        }
    }
    // the index ends where the first question for a block begins
    let Some(l) = wd.node.low_ask.map(|a| a.min(low.unwrap_or(a))) else { return };
    if wd.vfs.blk_opens > 0 && wd.bad.is_none() {
        // built from the block files: if they did not change meanwhile, everything in them but the newest CONFIRMATIONS - 1 blocks
        let s = wd.or.start.0;
        let same = wd.node.hist.get(s + 1).map(|h| h.0 > wd.vfs.blk_last).unwrap_or(true);
        let want = (wd.node.blocks[wd.node.hist[s].1].height + 2).saturating_sub(wd.cfg.conf as usize);
        if same && l != want {
            wd.violate("index-extent", format!("the index built from the block files ends before block {}, but the files hold a chain of {} confirmed blocks", l, want));
            return;
        }
    }
    if let Some(want) = wd.or.want_low.take() {
        if l != want {
            wd.violate("resume", format!("restarted after a quiet time: the index ends before block {}, but should end before block {}", l, want));
            return;
        }
    }
    if let Some(p) = wd.or.low_last {
        if wd.inc > 1 && !wd.or.power && l < p {
            wd.violate("snapshot-older", format!("the process resumed at block {}, the one before it at {}: its snapshot is older", l, p));
            return;
        }
    }
    wd.or.low_last = Some(l);
    wd.or.power = false;
}
/// The process ended: what snapshots may contain from now on.
pub fn process_end(power: bool) {
    let wd = w();
    wd.or.power |= power;
    let n = wd.node.height() + 1;
    let b = (n + 1).saturating_sub(wd.cfg.conf as usize);
    wd.or.low_bound = Some(wd.or.low_bound.map(|x| x.max(b)).unwrap_or(b));
    if power {
        wd.or.opened_kept = false;
    }
    wd.or.open_t = None;
}
pub fn api_missing() {
    let wd = w();
    if wd.proc == Proc::Up && wd.or.open_t.is_some() && !wd.excuse && !crate::net::listening(wd.cfg.listen_port()) {
        wd.violate("api-closed", "the process is up, but nothing listens on the API port any more".into());
    }
}
fn stall_overlap(a: u64, b: u64) -> u64 {
    w().sched.stalls.iter().map(|(x, y)| y.min(&b).saturating_sub(*x.max(&a))).sum()
}
pub fn latency(r: &Req, since: u64, len: usize) {
    let wd = w();
    let d = wd.now.saturating_sub(since);
    wd.cl.max_latency = wd.cl.max_latency.max(d);
    // what the network itself takes: one round trip per full socket buffer
    let l = &wd.net.client_link;
    let bytes = (len + r.bytes.len() + 300) as u64;
    let transfer = (2 * bytes / l.sndbuf as u64 + 2) * (2 * l.lat_hi + MS) + bytes * l.gap;
    let allow = wd.or.prompt + transfer + 2 * stall_overlap(since, wd.now);
    if d > allow {
        wd.violate("latency", format!("{} was answered after {} ms", r.head.chars().take(120).collect::<String>(), d / MS));
    }
}

#[derive(Debug, PartialEq)]
enum Obs {
    Bal(f64),
    Utxos(Vec<(Out, f64)>),
}
fn utxos(j: &J) -> Option<Vec<(Out, f64)>> {
    let mut v = Vec::new();
    for u in j.arr()? {
        let h = sha::unrhex(u.get("hash")?.str()?)?;
        v.push(((h, u.get("vout")?.i64()? as u32), u.get("value")?.f64()?));
    }
    v.sort_by(|a, b| a.0.cmp(&b.0));
    Some(v)
}
fn observe(r: &Req, body: &[u8]) -> Option<Vec<Obs>> {
    let j = J::parse(body)?;
    let one = |j: &J| -> Option<Obs> {
        if r.utxos {
            Some(Obs::Utxos(utxos(j)?))
        } else {
            Some(Obs::Bal(j.f64()?))
        }
    };
    if r.form == Form::Path {
        return Some(vec![one(&j)?]);
    }
    let a = j.arr()?;
    if a.len() != r.addrs.len() {
        return None;
    }
    let mut out = Vec::new();
    for (x, addr) in a.iter().zip(&r.addrs) {
        if x.get("address")?.str()? != addr.text() {
            return None;
        }
        out.push(one(x.get(if r.utxos { "utxos" } else { "balance" })?)?);
    }
    Some(out)
}
fn same_value(f: f64, v: u64) -> bool {
    f >= 0.0 && (f * 1e8).round() == v as f64 && (f - v as f64 / 1e8).abs() <= (v as f64 / 1e8) * 5e-16
}
fn by(b: usize) -> Rc<chain::ByAddr> {
    let blk = &mut w().node.blocks[b];
    if blk.by.is_none() {
        blk.by = Some(Rc::new(chain::by_addr(&blk.utxo)));
    }
    blk.by.clone().unwrap()
}
fn effective(j: usize) -> Vec<Rc<chain::Tx>> {
    let nd = &w().node;
    let l = &nd.listings[j];
    l.ids.iter().filter(|i| l.avail.get(*i).copied().unwrap_or_else(|| nd.ever_ok.contains(*i))).map(|i| nd.txs[i].clone()).collect()
}
fn delta(b: usize, txs: &[Rc<chain::Tx>]) -> Rc<Delta> {
    let mut h = 7u64;
    for t in txs {
        h = hash2(h, u64::from_le_bytes(t.id[..8].try_into().unwrap()));
    }
    if let Some(d) = w().or.deltas.get(&(b, h)) {
        return d.clone();
    }
    let u = w().node.blocks[b].utxo.clone();
    let mut spent: BTreeSet<Out> = BTreeSet::new();
    let mut new: BTreeMap<Out, chain::Coin> = BTreeMap::new();
    for t in txs {
        if t.inputs.iter().all(|i| !spent.contains(i) && (u.contains_key(i) || new.contains_key(i))) {
            for i in &t.inputs {
                spent.insert(*i);
                new.remove(i);
            }
            for (n, (v, a, sp)) in t.outs.iter().enumerate() {
                if *sp {
                    new.insert((t.id, n as u32), chain::Coin { value: *v, addr: *a });
                }
            }
        }
    }
    let mut created: BTreeMap<Addr, Vec<(Out, u64)>> = BTreeMap::new();
    for (o, c) in &new {
        if let Some(a) = c.addr {
            created.entry(a).or_default().push((*o, c.value));
        }
    }
    let d = Rc::new(Delta { spent, created });
    let m = &mut w().or.deltas;
    if m.len() > 3000 {
        m.clear();
    }
    m.insert((b, h), d.clone());
    d
}
fn state_of(a: &Addr, base: &chain::ByAddr, d: Option<&Delta>) -> Vec<(Out, u64)> {
    let mut v: Vec<(Out, u64)> = base.get(a).cloned().unwrap_or_default();
    if let Some(d) = d {
        v.retain(|x| !d.spent.contains(&x.0));
        if let Some(c) = d.created.get(a) {
            v.extend_from_slice(c);
            v.sort();
        }
    }
    v
}
fn fits(r: &Req, obs: &[Obs], base: &chain::ByAddr, d: Option<&Delta>) -> Result<(), String> {
    let mut seen: BTreeMap<Addr, Vec<(Out, u64)>> = BTreeMap::new();
    for (a, o) in r.addrs.iter().zip(obs) {
        let want = seen.entry(*a).or_insert_with(|| state_of(a, base, d));
        match o {
            Obs::Bal(f) => {
                let s: u64 = want.iter().map(|x| x.1).sum();
                if !same_value(*f, s) {
                    return Err(format!("balance of {} is {} instead of {}", a.text(), f, s as f64 / 1e8));
                }
            }
            Obs::Utxos(l) => {
                if l.len() != want.len() || !l.iter().zip(&*want).all(|(x, y)| x.0 == y.0 && same_value(x.1, y.1)) {
                    let miss: Vec<String> = want.iter().filter(|y| !l.iter().any(|x| x.0 == y.0)).take(3).map(|y| format!("{}:{}", sha::rhex(&y.0 .0), y.0 .1)).collect();
                    let extra: Vec<String> = l.iter().filter(|x| !want.iter().any(|y| x.0 == y.0)).take(3).map(|y| format!("{}:{}", sha::rhex(&y.0 .0), y.0 .1)).collect();
                    return Err(format!("utxos of {}: {} listed, {} expected; missing {:?}, extra {:?}", a.text(), l.len(), want.len(), miss, extra));
                }
            }
        }
    }
    Ok(())
}
fn first_pair(r: &Req, obs: &[Obs], from: (usize, usize)) -> Option<(usize, usize)> {
    let wd = w();
    let back = r.k.saturating_sub(1);
    let (mut mi, mut mj) = (None, None);
    let mut seen: BTreeMap<(usize, u64), bool> = BTreeMap::new();
    for i in from.0..wd.node.hist.len() {
        let tip = wd.node.hist[i].1;
        if r.k > 0 {
            let Some(b) = wd.node.ancestor(tip, back) else { continue };
            wd.or.pairs += 1;
            if fits(r, obs, &by(b), None).is_ok() {
                return Some((i, from.1));
            }
            continue;
        }
        let base = by(tip);
        for j in from.1..wd.node.listings.len() {
            if mi.is_some() && mj.map(|m| j >= m).unwrap_or(false) {
                break;
            }
            if wd.node.listings[j].tip > i {
                // a listing without what a block mined that this chain does not have yet
                break;
            }
            let e = effective(j);
            let d = delta(tip, &e);
            let key = (tip, Rc::as_ptr(&d) as u64);
            wd.or.pairs += 1;
            let ok = match seen.get(&key) {
                Some(x) => *x,
                None => {
                    let x = fits(r, obs, &base, Some(&d)).is_ok();
                    seen.insert(key, x);
                    x
                }
            };
            if ok {
                if mi.is_none() {
                    mi = Some(i);
                }
                mj = Some(mj.map(|m: usize| m.min(j)).unwrap_or(j));
                break;
            }
        }
    }
    mi.map(|i| (i, mj.unwrap()))
}

pub fn answer(r: &Req, lo: (usize, usize), status: u16, body: &[u8], fin: bool, issued: u64) {
    let wd = w();
    let text = || String::from_utf8_lossy(body).chars().take(300).collect::<String>();
    if let Expect::Status(s) = r.expect {
        if status != s {
            wd.violate("status", format!("{} answered with {} instead of {}: {}", r.head.chars().take(200).collect::<String>(), status, s, text()));
        }
        wd.stat("oracle.refusals", 1);
        return;
    }
    wd.stat("oracle.answers", 1);
    if status != 200 {
        wd.violate("status", format!("{} answered with {}: {}", r.head.chars().take(200).collect::<String>(), status, text()));
        return;
    }
    let Some(obs) = observe(r, body) else {
        wd.violate("shape", format!("{} has an unexpected body: {}", r.head.chars().take(200).collect::<String>(), text()));
        return;
    };
    if fin {
        // after everything settled: exactly the node's state
        let tip = wd.node.tip;
        let Some(b) = wd.node.ancestor(tip, r.k.saturating_sub(1)) else { return };
        let d = if r.k == 0 { Some(delta(tip, &wd.node.mem.clone())) } else { None };
        if let Err(e) = fits(r, &obs, &by(b), d.as_deref()) {
            let stale = first_pair(r, &obs, (0, 0)).is_some();
            wd.violate(
                if stale { "not-converged" } else { "wrong" },
                format!("after the node was quiet, {} (depth {}): {}{}", r.head.chars().take(60).collect::<String>(), r.k, e, if stale { " (an older state)" } else { "" }),
            );
        }
        wd.stat("oracle.final", 1);
        return;
    }
    match first_pair(r, &obs, lo) {
        Some((i, j)) => {
            let o = &mut wd.or;
            o.lo.0 = o.lo.0.max(i);
            if r.k == 0 {
                o.lo.1 = o.lo.1.max(j);
            }
            let h = hash2(hash2(i as u64, if r.k == 0 { j as u64 } else { 0 }), r.k as u64);
            if o.distinct.len() < 20_000 {
                o.distinct.insert(h);
            }
        }
        None => {
            let old = first_pair(r, &obs, (0, 0));
            let tip = wd.node.tip;
            let why = wd
                .node
                .ancestor(tip, r.k.saturating_sub(1))
                .map(|b| {
                    let d = if r.k == 0 { Some(delta(tip, &wd.node.mem.clone())) } else { None };
                    fits(r, &obs, &by(b), d.as_deref()).err().unwrap_or_default()
                })
                .unwrap_or_default();
            match old {
                Some((i, j)) => wd.violate(
                    "stale",
                    format!(
                        "{} (depth {}, asked at {:.6}) reflects tip {} / listing {}, older than {:?} which earlier answers or the start of the process imply; against the current tip: {}",
                        r.head.chars().take(60).collect::<String>(), r.k, issued as f64 / 1e9, i, j, lo, why
                    ),
                ),
                None => wd.violate(
                    "wrong",
                    format!("{} (depth {}) matches no state the node ever had; against the current tip: {}", r.head.chars().take(60).collect::<String>(), r.k, why),
                ),
            }
        }
    }
}

/// Called every simulated second or so.
pub fn periodic(_k: u32) {
    let wd = w();
    wd.after(500 * MS, Ev::Check(0));
    if wd.proc != Proc::Up || wd.or.open_t.is_none() {
        return;
    }
    crate::res::periodic();
    let wd = w();
    let iv = wd.cfg.interval_ns();
    // liveness of the poller
    let last = wd.node.last_rpc.max(wd.or.open_t.unwrap());
    let allow = 3 * iv + 6 * SEC + wd.node.slow_ns + wd.node.silent_ns + wd.disk_slow_ns + wd.stall_total * 2;
    if !wd.node.down && wd.now > last + allow {
        wd.violate("poll-stalled", format!("no request has reached the node for {} ms (interval {} ms)", (wd.now - last) / MS, wd.cfg.interval));
        return;
    }
    // and no flood
    let p = &wd.node.polls;
    while wd.or.poll_seen + 10 < p.len() {
        let i = wd.or.poll_seen;
        let d = p[i + 10] - p[i];
        if d * 10 < iv * 40 {
            wd.violate("poll-flood", format!("10 polls within {} ms (interval {} ms)", d / MS, wd.cfg.interval));
            return;
        }
        wd.or.poll_seen += 1;
    }
    let q: Option<(usize, u64)> = wd.cl.qs.iter().enumerate().find_map(|(i, q)| {
        let a = wd.or.prompt.max(10 * SEC) + 2 * wd.stall_total;
        if !q.bad && q.out && q.sent == q.req.as_ref().map(|r| r.bytes.len()).unwrap_or(0) && wd.now > q.t_sent + a && q.inc == wd.inc {
            Some((i, wd.now - q.t_sent))
        } else {
            None
        }
    });
    if let Some((i, d)) = q {
        let h = wd.cl.qs[i].req.as_ref().unwrap().head.clone();
        wd.violate("unanswered", format!("{} has waited for {} ms", h.chars().take(120).collect::<String>(), d / MS));
    }
}
