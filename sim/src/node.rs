//! The simulated Bitcoin node: block tree, best chain, mempool, JSON-RPC over HTTP, block files.
use crate::chain::{self, Blk, Id, Mix, Out, Tx, Utxo};
use crate::json::J;
use crate::net;
use crate::rng::{hash2, Rng};
use crate::sha;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub struct Listing {
    pub t: u64,
    pub tip: usize, // index into hist when it was taken
    pub inc: u32,
    pub ids: Vec<Id>,
    pub avail: BTreeMap<Id, bool>,
}
pub struct RpcFault {
    pub method: String, // or "any"
    pub skip: u64,
    pub kind: String,
    pub arg: u64,
}
pub struct Node {
    pub blocks: Vec<Blk>,
    pub by_hash: BTreeMap<Id, usize>,
    pub tip: usize,
    pub hist: Vec<(u64, usize)>,
    pub mem: Vec<Rc<Tx>>,
    pub txs: BTreeMap<Id, Rc<Tx>>,
    pub mix: Mix,
    pub txindex: bool,
    pub churns: Vec<J>,
    pub raw_total: usize,
    pub dup_cb: bool,
    pub nomsg: u64,
    pub listings: Vec<Listing>,
    pub ever_ok: BTreeSet<Id>,
    pub lat: (u64, u64),
    pub slow: Option<u64>,
    pub down: bool,
    pub faults: Vec<RpcFault>,
    pub rng: Rng,
    pub refused: u64,
    pub rpcs: u64,
    pub polls: Vec<u64>, // times of getrawmempool in this incarnation
    pub last_rpc: u64,
    pub low_ask: Option<usize>, // lowest height asked for in this incarnation: where its index ends
    pub low_block: Option<usize>, // lowest height fetched in this incarnation
    pub blocks_served: u64,
    pub close_after: u32,
    pub auth: String,
    pub mem_max: usize,
    pub host_mode: u8,
    pub port: u16,
    pub file_seq: u32,
    pub file_buf: Vec<u8>,
    pub file_max: usize,
    pub quiet_since: u64,
    pub chain_since: u64,
    pub fan: Vec<chain::Out>,
    pub in_flight: u64,
    pub slow_ns: u64,
    pub silent_ns: u64, // how long the program may wait for answers that never come
    pub cut: u64,       // unreachable until then
    pub extra_head: bool,
    pub append: bool,
    pub busy_ns: u64,
    pub xor_pad: u64,
}

impl Node {
    pub fn addr_ok(&self, ip: [u8; 4], port: u16) -> bool {
        port == self.port && (ip == [10, 0, 0, 7] || (ip == [127, 0, 0, 1] && self.host_mode == 0))
    }
    pub fn resolve(&self, name: &str) -> Vec<[u8; 4]> {
        match (self.host_mode, name) {
            (1, "node.example") => vec![[10, 0, 0, 7]],
            (2, "node.example") => vec![[10, 0, 0, 6], [10, 0, 0, 7]],
            (_, "localhost") => vec![[127, 0, 0, 1]],
            _ => vec![],
        }
    }
    pub fn accepting(&self) -> bool {
        !self.down
    }
    pub fn height(&self) -> usize {
        self.blocks[self.tip].height
    }
    pub fn ancestor(&self, mut b: usize, back: usize) -> Option<usize> {
        for _ in 0..back {
            b = self.blocks[b].prev?;
        }
        Some(b)
    }
    pub fn at_height(&self, tip: usize, h: usize) -> Option<usize> {
        let th = self.blocks[tip].height;
        if h > th {
            None
        } else {
            self.ancestor(tip, th - h)
        }
    }
    pub fn add_block(&mut self, rng: &mut Rng, prev: Option<usize>, txs: Vec<Rc<Tx>>, utxo: Utxo) -> usize {
        let ph = prev.map(|p| self.blocks[p].hash).unwrap_or([0; 32]);
        let height = prev.map(|p| self.blocks[p].height + 1).unwrap_or(0);
        let h = chain::header(rng, &ph, &txs);
        let raw = chain::serialize(&h, &txs);
        let hash = sha::dsha(&h);
        let i = self.blocks.len();
        for t in &txs {
            self.txs.insert(t.id, t.clone());
        }
        self.raw_total += raw.len();
        if utxo.len() > 2500 || self.raw_total > 3 << 20 {
            self.mix.big = 0; // enough
        }
        self.blocks.push(Blk { hash, prev, height, raw, txs, utxo: Rc::new(utxo), by: None });
        self.by_hash.insert(hash, i);
        i
    }
    /// A block on `prev` with the applicable ones of `include` and `n` new transactions.
    pub fn make_block(&mut self, rng: &mut Rng, prev: Option<usize>, include: &[Rc<Tx>], n: u64) -> usize {
        let mut u: Utxo = prev.map(|p| (*self.blocks[p].utxo).clone()).unwrap_or_default();
        let height = prev.map(|p| self.blocks[p].height + 1).unwrap_or(0);
        let mix = self.mix.clone();
        // a coinbase that repeats an earlier one (there are two such pairs in the real chain; none pays an address)
        let old = if self.dup_cb && prev.is_some() && rng.pct(30) { self.txs.values().find(|t| t.coinbase && t.outs.iter().all(|o| o.1.is_none())).cloned() } else { None };
        let mut txs = vec![match old {
            Some(t) => t,
            None if self.dup_cb && rng.pct(30) => Rc::new(chain::coinbase_p2pk(rng, height)),
            None => Rc::new(chain::coinbase(rng, &mix, height)),
        }];
        chain::apply(&mut u, &txs[0]);
        let mut fresh: Vec<Out> = Vec::new();
        for t in include {
            if chain::apply(&mut u, t) {
                fresh.extend((0..t.outs.len() as u32).map(|k| (t.id, k)).filter(|o| u.contains_key(o)));
                txs.push(t.clone());
            }
        }
        // a count of transactions that needs more than one byte
        let many = if mix.big > 0 && rng.below(1000) < mix.big / 2 + 2 { rng.range(250, 258) } else { 0 };
        let plain = chain::Mix { big: 0, ..mix.clone() };
        for i in 0..n + many {
            let mix = if i < n { &mix } else { &plain };
            // new coins last, so that spending inside the block is frequent
            let mut from: Vec<Out> = u.keys().filter(|o| !fresh.contains(o)).copied().collect();
            from.extend(fresh.iter().filter(|o| u.contains_key(*o)));
            if from.is_empty() {
                break;
            }
            let mut spend = chain::pick_inputs(rng, &from, mix);
            if u.len() > 500 {
                for o in from.iter().take(40) {
                    if !spend.contains(o) {
                        spend.push(*o);
                    }
                }
            }
            let t = Rc::new(chain::tx(rng, mix, &spend));
            if chain::apply(&mut u, &t) {
                fresh.extend((0..t.outs.len() as u32).map(|k| (t.id, k)).filter(|o| u.contains_key(o)));
                txs.push(t);
            }
        }
        let b = self.add_block(rng, prev, txs, u);
        self.store_block(rng, b);
        b
    }
    /// Append to the block files, as a node does with every block it receives.
    fn store_block(&mut self, rng: &mut Rng, b: usize) {
        let raw = self.blocks[b].raw.clone();
        if self.file_buf.len() + raw.len() + 8 > self.file_max && !self.file_buf.is_empty() {
            self.flush_file(rng);
            self.file_seq += 1;
            self.file_buf.clear();
        }
        self.file_buf.extend_from_slice(&0xD9B4BEF9u32.to_le_bytes());
        self.file_buf.extend_from_slice(&(raw.len() as u32).to_le_bytes());
        self.file_buf.extend_from_slice(&raw);
        if self.append {
            self.flush_file(rng);
        }
    }
    pub fn flush_file(&mut self, rng: &mut Rng) {
        let mut d = self.file_buf.clone();
        let pad = if self.xor_pad > 0 && rng.pct(self.xor_pad) { *rng.pick(&[88usize, 176, 400, 1000, 4096, 20000]) } else { 0 };
        d.resize(d.len() + pad, 0);
        let name = format!("{}/blk{:05}.dat", crate::vfs::BLOCKS, self.file_seq);
        w().vfs.put(&name, d);
    }
    pub fn set_tip(&mut self, new: usize, back_to_mempool: bool) {
        let old = self.tip;
        let old_path: BTreeSet<usize> = {
            let mut s = BTreeSet::new();
            let mut b = Some(new);
            while let Some(i) = b {
                s.insert(i);
                b = self.blocks[i].prev;
            }
            s
        };
        let mut abandoned = Vec::new();
        let mut b = old;
        while !old_path.contains(&b) {
            abandoned.push(b);
            b = self.blocks[b].prev.unwrap();
        }
        let mut cand: Vec<Rc<Tx>> = Vec::new();
        if back_to_mempool {
            for b in abandoned.iter().rev() {
                cand.extend(self.blocks[*b].txs.iter().skip(1).cloned());
            }
        }
        cand.extend(self.mem.drain(..));
        self.tip = new;
        self.refill(cand);
        let now = w().now;
        self.hist.push((now, new));
        self.quiet_since = now;
        self.chain_since = now;
    }
    /// Keep those of `cand` that fit the best chain, in dependency order.
    fn refill(&mut self, cand: Vec<Rc<Tx>>) {
        let mut u = (*self.blocks[self.tip].utxo).clone();
        let mut keep: Vec<Rc<Tx>> = Vec::new();
        let mut seen = std::collections::BTreeSet::new();
        for t in cand {
            if keep.len() < self.mem_max && seen.insert(t.id) && chain::apply(&mut u, &t) {
                keep.push(t);
            }
        }
        // listed parents first, otherwise by a stable arbitrary score
        let mut depth: BTreeMap<Id, u64> = BTreeMap::new();
        let mut l: Vec<(u64, u64, Rc<Tx>)> = Vec::new();
        for t in keep {
            let d = t.inputs.iter().filter_map(|i| depth.get(&i.0)).max().map(|d| d + 1).unwrap_or(0);
            depth.insert(t.id, d);
            l.push((d, u64::from_le_bytes(t.id[..8].try_into().unwrap()), t));
        }
        l.sort_by_key(|x| (x.0, x.1));
        self.mem = l.into_iter().map(|x| x.2).collect();
    }
    fn mem_utxo(&self) -> Utxo {
        let mut u = (*self.blocks[self.tip].utxo).clone();
        for t in &self.mem {
            chain::apply(&mut u, t);
        }
        u
    }
    pub fn mempool_add(&mut self, rng: &mut Rng, n: u64, chain_pct: u64) {
        for _ in 0..n {
            let u = self.mem_utxo();
            let mut from: Vec<Out> = u.keys().copied().collect();
            if from.is_empty() {
                return;
            }
            let ours: Vec<Out> = from.iter().filter(|o| self.mem.iter().any(|t| t.id == o.0)).copied().collect();
            if !ours.is_empty() && rng.pct(chain_pct) {
                from = ours;
            }
            let mix = self.mix.clone();
            let spend = chain::pick_inputs(rng, &from, &mix);
            let t = Rc::new(chain::tx(rng, &mix, &spend));
            self.txs.insert(t.id, t.clone());
            let mut c: Vec<Rc<Tx>> = self.mem.drain(..).collect();
            c.push(t);
            self.refill(c);
        }
        self.quiet_since = w().now;
    }
    /// A payment to many, each of whom passes it on at once.
    pub fn mempool_crowd(&mut self, rng: &mut Rng, n: u64) {
        let from: Vec<Out> = self.mem_utxo().keys().copied().collect();
        if from.is_empty() {
            return;
        }
        self.mem_max = 2000;
        let from = [*rng.pick(&from)];
        let mut mix = self.mix.clone();
        mix.big = 0;
        let f = Rc::new(chain::fan(rng, &from, n));
        let mut c: Vec<Rc<Tx>> = self.mem.drain(..).collect();
        c.push(f.clone());
        for k in 0..n as u32 {
            c.push(Rc::new(chain::tx(rng, &mix, &[(f.id, k)])));
        }
        for t in &c {
            self.txs.insert(t.id, t.clone());
        }
        self.refill(c);
        self.quiet_since = w().now;
    }
    /// Replace a mempool transaction by a conflicting one; its descendants go too.
    pub fn mempool_replace(&mut self, rng: &mut Rng) {
        if self.mem.is_empty() {
            return;
        }
        let v = self.mem[rng.below(self.mem.len() as u64) as usize].clone();
        let mix = self.mix.clone();
        let k = rng.below(v.inputs.len() as u64) as usize;
        let mut spend = vec![v.inputs[k]];
        let u = self.mem_utxo();
        if rng.pct(40) {
            let from: Vec<Out> = u.keys().filter(|o| o.0 != v.id && !spend.contains(o)).copied().collect();
            if !from.is_empty() {
                spend.push(*rng.pick(&from));
            }
        }
        let t = Rc::new(chain::tx(rng, &mix, &spend));
        self.txs.insert(t.id, t.clone());
        let mut c: Vec<Rc<Tx>> = Vec::new();
        for m in self.mem.drain(..) {
            if m.id == v.id {
                c.push(t.clone());
            } else {
                c.push(m);
            }
        }
        // the replacement may depend on later entries: try it again at the end
        c.push(t);
        self.refill(c);
        self.quiet_since = w().now;
    }
    pub fn mempool_evict(&mut self, rng: &mut Rng, n: u64) {
        for _ in 0..n {
            if self.mem.is_empty() {
                break;
            }
            let k = rng.below(self.mem.len() as u64) as usize;
            let mut c: Vec<Rc<Tx>> = self.mem.drain(..).collect();
            c.remove(k);
            self.refill(c);
        }
        self.quiet_since = w().now;
    }
    pub fn mine(&mut self, rng: &mut Rng, n_new: u64, from_mempool: u64, conflict: bool, back: bool) {
        let mut inc: Vec<Rc<Tx>> = self.mem.iter().filter(|_| rng.pct(from_mempool)).cloned().collect();
        if conflict && !self.mem.is_empty() {
            // a transaction never seen in the mempool takes a coin of one that is there
            let v = self.mem[rng.below(self.mem.len() as u64) as usize].clone();
            let mix = self.mix.clone();
            let t = Rc::new(chain::tx(rng, &mix, &[v.inputs[0]]));
            inc.insert(0, t);
        }
        let tip = self.tip;
        let b = self.make_block(rng, Some(tip), &inc, n_new);
        self.set_tip(b, back);
    }
    /// Switch to a branch forking `depth` blocks below the tip and `extra` blocks longer.
    pub fn reorg(&mut self, rng: &mut Rng, depth: usize, extra: usize, n_new: u64, same: u64) {
        let depth = depth.min(self.height());
        let fork = self.ancestor(self.tip, depth).unwrap();
        let mut old: Vec<Rc<Tx>> = Vec::new();
        let mut b = self.tip;
        while b != fork {
            let mut l: Vec<Rc<Tx>> = self.blocks[b].txs.iter().skip(1).cloned().collect();
            l.extend(old);
            old = l;
            b = self.blocks[b].prev.unwrap();
        }
        let mut cur = fork;
        for k in 0..depth + extra {
            let mut inc: Vec<Rc<Tx>> = Vec::new();
            if k == 0 || rng.pct(50) {
                inc.extend(old.iter().filter(|_| rng.pct(same)).cloned());
            }
            if rng.pct(50) {
                inc.extend(self.mem.iter().filter(|_| rng.pct(50)).cloned());
            }
            cur = self.make_block(rng, Some(cur), &inc, n_new);
        }
        let back = rng.pct(80);
        self.set_tip(cur, back);
    }
    pub fn stale_branch(&mut self, rng: &mut Rng, depth: usize, len: usize) {
        let Some(mut cur) = self.ancestor(self.tip, depth.min(self.height())) else { return };
        for _ in 0..len {
            cur = self.make_block(rng, Some(cur), &[], 1);
        }
    }
}

// ---- RPC over HTTP
pub fn on_data(id: usize) {
    let wd = w();
    let c = &mut wd.net.conns[id];
    if c.node_busy {
        return;
    }
    if let Some(_n) = complete(&c.peer_buf) {
        c.node_busy = true;
        wd.node.in_flight += 1;
        let (lo, hi) = wd.node.lat;
        let mut d = wd.node.rng.logu(lo.max(1), hi.max(lo).max(1));
        if let Some(s) = wd.node.slow {
            d += s;
            wd.stat("fault.rpc_slow", 1);
            wd.node.slow_ns += s;
            wd.busy(d);
        }
        wd.after(d, Ev::NodeProc(id));
    }
}
fn complete(b: &[u8]) -> Option<usize> {
    let h = b.windows(4).position(|x| x == b"\r\n\r\n")? + 4;
    let head = String::from_utf8_lossy(&b[..h]).to_ascii_lowercase();
    let n: usize = head.lines().find_map(|l| l.strip_prefix("content-length:").map(|v| v.trim().parse().unwrap_or(0))).unwrap_or(0);
    if head.contains("transfer-encoding: chunked") {
        let p = b[h..].windows(5).position(|x| x == b"0\r\n\r\n")?;
        return Some(h + p + 5);
    }
    if b.len() >= h + n {
        Some(h + n)
    } else {
        None
    }
}
fn http(status: u16, body: &str, close: bool, extra: bool) -> Vec<u8> {
    let reason = match status {
        200 => "OK",
        401 => "Unauthorized",
        403 => "Forbidden",
        404 => "Not Found",
        500 => "Internal Server Error",
        503 => "Service Unavailable",
        _ => "Bad Request",
    };
    let mut h = format!("HTTP/1.1 {} {}\r\n", status, reason);
    if extra {
        h.push_str("Date: Tue, 14 Nov 2023 22:13:20 GMT\r\n");
    }
    h.push_str(&format!("Content-Type: application/json\r\nContent-Length: {}\r\n", body.len()));
    if close {
        h.push_str("Connection: close\r\n");
    }
    h.push_str("\r\n");
    h.push_str(body);
    h.into_bytes()
}
fn rpc_err(code: i64, msg: &str, id: &str) -> String {
    format!("{{\"result\":null,\"error\":{{\"code\":{},\"message\":\"{}\"}},\"id\":{}}}\n", code, msg, id)
}
fn rpc_ok(result: String, id: &str) -> String {
    format!("{{\"result\":{},\"error\":null,\"id\":{}}}\n", result, id)
}
struct Req {
    head: String,
    body: Vec<u8>,
    method: String,
    params: Vec<J>,
    id: String,
    why_bad: Option<String>,
}
fn parse(b: &[u8], n: usize) -> Req {
    let h = b.windows(4).position(|x| x == b"\r\n\r\n").unwrap() + 4;
    let head = String::from_utf8_lossy(&b[..h]).to_string();
    let mut body = b[h..n].to_vec();
    if head.to_ascii_lowercase().contains("transfer-encoding: chunked") {
        body = crate::client::dechunk(&body);
    }
    let mut r = Req { head, body, method: String::new(), params: vec![], id: "null".into(), why_bad: None };
    let first = r.head.lines().next().unwrap_or("").to_string();
    let mut it = first.split(' ');
    if it.next() != Some("POST") {
        r.why_bad = Some(format!("request line {:?}", first));
    }
    match J::parse(&r.body) {
        Some(j) => {
            r.method = j.s("method");
            if r.method.is_empty() {
                r.why_bad = Some("no method".into());
            }
            r.params = j.get("params").and_then(|p| p.arr()).cloned().unwrap_or_default();
            r.id = j.get("id").map(|i| i.dump()).unwrap_or("null".into());
        }
        None => r.why_bad = Some(format!("body is not JSON: {:?}", String::from_utf8_lossy(&r.body).chars().take(200).collect::<String>())),
    }
    r
}
fn header(head: &str, name: &str) -> Option<String> {
    head.lines().find_map(|l| {
        let (n, v) = l.split_once(':')?;
        if n.eq_ignore_ascii_case(name) {
            Some(v.trim().to_string())
        } else {
            None
        }
    })
}

pub fn process(id: usize) {
    let wd = w();
    wd.node.in_flight -= 1;
    let c = &mut wd.net.conns[id];
    c.node_busy = false;
    if c.gone || c.peer_closed {
        return;
    }
    let Some(n) = complete(&c.peer_buf) else { return };
    let b: Vec<u8> = c.peer_buf.drain(..n).collect();
    c.node_reqs += 1;
    let r = parse(&b, n);
    wd.node.rpcs += 1;
    wd.stat("rpc.requests", 1);
    crate::res::request();
    let wd = w();
    wd.node.last_rpc = wd.now;
    wd.lg(70, fnv(&r.body));
    wd.tr(|| format!("rpc {} {}", r.method, J::Arr(r.params.clone()).dump()));
    if let Some(y) = &r.why_bad {
        wd.violate("rpc-malformed", format!("the node received a malformed request: {}", y));
    }
    let want = wd.node.auth.clone();
    let got = header(&r.head, "authorization").unwrap_or_default();
    let authorized = got.strip_prefix("Basic ").map(|x| x.trim() == want).unwrap_or(false);
    if !authorized {
        wd.violate("rpc-auth", format!("request {} carries authorization {:?}, configured credentials are Basic {}", r.method, got, want));
    }
    // injected faults
    if let Some(k) = wd.node.faults.iter().position(|f| f.method == "any" || f.method == r.method) {
        if wd.node.faults[k].skip > 0 {
            wd.node.faults[k].skip -= 1;
        } else {
            let f = wd.node.faults.remove(k);
            if fault(id, &f, &r) {
                return;
            }
        }
    }
    wd.net.conns[id].node_busy = true; // still answering
    point(match r.method.as_str() {
        "getrawmempool" => "rpc:getrawmempool",
        "getrawtransaction" => "rpc:getrawtransaction",
        "getblockhash" => "rpc:getblockhash",
        "getblock" => "rpc:getblock",
        _ => "rpc:other",
    });
    let (status, body) = if authorized { answer(&r) } else { (401, String::new()) };
    let wd = w();
    let close = header(&r.head, "connection").map(|v| v.eq_ignore_ascii_case("close")).unwrap_or(false)
        || (wd.node.close_after > 0 && wd.net.conns[id].node_reqs >= wd.node.close_after);
    let m = http(status, &body, close, wd.node.extra_head);
    let t = net::peer_send(id, &m);
    if close {
        wd.stat("net.node_close", 1);
        net::peer_close(id, false);
    }
    let _ = t;
    point(match r.method.as_str() {
        "getrawmempool" => "rpcdone:getrawmempool",
        "getrawtransaction" => "rpcdone:getrawtransaction",
        "getblockhash" => "rpcdone:getblockhash",
        "getblock" => "rpcdone:getblock",
        _ => "rpcdone:other",
    });
    w().net.conns[id].node_busy = false;
    if !w().net.conns[id].peer_buf.is_empty() {
        on_data(id);
    }
}

fn answer(r: &Req) -> (u16, String) {
    let wd = w();
    let nd = &mut wd.node;
    let id = &r.id;
    match r.method.as_str() {
        "getrawmempool" => {
            nd.polls.push(wd.now);
            let ids: Vec<Id> = nd.mem.iter().map(|t| t.id).collect();
            crate::res::polled(&ids);
            let wd = w();
            let nd = &mut wd.node;
            let mut avail = BTreeMap::new();
            if let Some(p) = nd.listings.last() {
                if p.inc == wd.inc {
                    for i in &ids {
                        if let Some(true) = p.avail.get(i) {
                            avail.insert(*i, true);
                        }
                    }
                }
            }
            if matches!(r.params.first(), Some(J::Bool(true))) {
                let s: Vec<String> = ids.iter().map(|i| format!("\"{}\":{{}}", sha::rhex(i))).collect();
                return (200, rpc_ok(format!("{{{}}}", s.join(",")), id));
            }
            let s: Vec<String> = ids.iter().map(|i| format!("\"{}\"", sha::rhex(i))).collect();
            let tip = nd.hist.len() - 1;
            nd.listings.push(Listing { t: wd.now, tip, inc: wd.inc, ids, avail });
            (200, rpc_ok(format!("[{}]", s.join(",")), id))
        }
        "getrawtransaction" => {
            let Some(t) = r.params.first().and_then(|p| p.str()).and_then(sha::unrhex) else {
                return (500, rpc_err(-8, "parameter 1 must be of length 64", id));
            };
            let found = match nd.mem.iter().find(|x| x.id == t) {
                Some(x) => Some(x.clone()),
                None if nd.txindex => {
                    let mut b = Some(nd.tip);
                    let mut f = None;
                    while let Some(i) = b {
                        if let Some(x) = nd.blocks[i].txs.iter().find(|x| x.id == t) {
                            f = Some(x.clone());
                            break;
                        }
                        b = nd.blocks[i].prev;
                    }
                    f
                }
                None => None,
            };
            if let Some(l) = nd.listings.last_mut() {
                l.avail.insert(t, found.is_some());
            }
            match found {
                Some(x) => {
                    nd.ever_ok.insert(t);
                    crate::res::fetched_tx(t);
                    if matches!(r.params.get(1), Some(J::Bool(true))) || r.params.get(1).and_then(|p| p.i64()).unwrap_or(0) > 0 {
                        return (200, rpc_ok(format!("{{\"hex\":\"{}\"}}", sha::hex(&x.raw)), id));
                    }
                    (200, rpc_ok(format!("\"{}\"", sha::hex(&x.raw)), id))
                }
                None => {
                    wd.stat("rpc.tx_vanished", 1);
                    let m = match (wd.node.txindex, wd.node.nomsg) {
                        (true, _) => "No such mempool or blockchain transaction. Use gettransaction for wallet transactions.",
                        (_, 0) => "No such mempool transaction. Use -txindex or provide a block hash to enable blockchain transaction queries. Use gettransaction for wallet transactions.",
                        (_, 1) => "No such mempool transaction. Blockchain transactions are still in the process of being indexed. Use gettransaction for wallet transactions.",
                        _ => "No such mempool or blockchain transaction. Use gettransaction for wallet transactions.",
                    };
                    (500, rpc_err(-5, m, id))
                }
            }
        }
        "getblockhash" => {
            let h = r.params.first().and_then(|p| p.i64()).unwrap_or(-1);
            if h >= 0 {
                nd.low_ask = Some(nd.low_ask.map(|l| l.min(h as usize)).unwrap_or(h as usize));
            }
            match if h < 0 { None } else { nd.at_height(nd.tip, h as usize) } {
                Some(b) => (200, rpc_ok(format!("\"{}\"", sha::rhex(&nd.blocks[b].hash)), id)),
                None => (500, rpc_err(-8, "Block height out of range", id)),
            }
        }
        "getblock" => {
            let b = r.params.first().and_then(|p| p.str()).and_then(sha::unrhex).and_then(|h| nd.by_hash.get(&h).copied());
            match b {
                Some(b) => {
                    let blk = &nd.blocks[b];
                    nd.low_block = Some(nd.low_block.map(|l| l.min(blk.height)).unwrap_or(blk.height));
                    nd.blocks_served += 1;
                    crate::res::fetched_block(b);
                    let v = match r.params.get(1) {
                        None => 1,
                        Some(J::Bool(x)) => *x as i64,
                        Some(x) => x.i64().unwrap_or(1),
                    };
                    if v == 0 {
                        (200, rpc_ok(format!("\"{}\"", sha::hex(&blk.raw)), id))
                    } else {
                        (200, rpc_ok(format!("{{\"hash\":\"{}\",\"height\":{}}}", sha::rhex(&blk.hash), blk.height), id))
                    }
                }
                None => (500, rpc_err(-5, "Block not found", id)),
            }
        }
        "getblockcount" => (200, rpc_ok(format!("{}", nd.height()), id)),
        "getbestblockhash" => (200, rpc_ok(format!("\"{}\"", sha::rhex(&nd.blocks[nd.tip].hash)), id)),
        _ => (404, rpc_err(-32601, "Method not found", id)),
    }
}

/// Returns true if the request was dealt with.
fn fault(id: usize, f: &RpcFault, r: &Req) -> bool {
    let wd = w();
    wd.stat(&format!("fault.rpc_{}", f.kind), 1);
    wd.note(format!("rpc fault: {} answered with {}", r.method, f.kind));
    if f.kind != "slow" && f.kind != "close" {
        wd.excuse(&format!("rpc-{}", f.kind));
    }
    let ok = |r: &Req| -> (u16, String) { answer(r) };
    match f.kind.as_str() {
        "reset" => net::peer_close(id, true),
        // no answer, and the connection stays: the program gives up after ten minutes
        "silent" => wd.node.silent_ns += 660 * SEC,
        // an answer that stops half way, with the connection left open
        "partial" => {
            wd.node.silent_ns += 660 * SEC;
            let (s, b) = ok(r);
            let m = http(s, &b, false, true);
            let head = m.len() - b.len();
            let k = if f.arg % 4 == 0 { hash2(f.arg, 5) as usize % m.len() } else { head + hash2(f.arg, 5) as usize % b.len().max(1) };
            net::peer_send(id, &m[..k.min(m.len() - 1)]);
        }
        "eof" => net::peer_close(id, false),
        "cut" => {
            let (s, b) = ok(r);
            let m = http(s, &b, false, true);
            let k = (hash2(f.arg, 3) % (m.len() as u64 - 1)) as usize + 1;
            let k = k.min(m.len() - 1);
            net::peer_send(id, &m[..k]);
            net::peer_close(id, f.arg % 2 == 1);
        }
        "status" => {
            let st = [401u16, 403, 404, 503, 400][(f.arg % 5) as usize];
            let body = ["", "Work queue depth exceeded", "{}", "\u{fffd}nope"][(f.arg / 5 % 4) as usize];
            net::peer_send(id, &http(st, body, false, true));
        }
        "error" => {
            let (c, m) = [(-28, "Loading block index..."), (-1, "Block not found on disk"), (-32603, "internal error"), (-5, "Block not found"), (-8, "out of range")]
                [(f.arg % 3) as usize];
            net::peer_send(id, &http(500, &rpc_err(c, m, &r.id), false, true));
        }
        "garbage" => {
            let (_, b) = ok(r);
            let body = match f.arg % 5 {
                0 => "not json".to_string(),
                1 => b[..b.len() / 2].to_string(),
                2 => "[]".to_string(),
                3 => rpc_ok("17".into(), &r.id),
                _ => rpc_ok("\"zz\"".into(), &r.id),
            };
            net::peer_send(id, &http(200, &body, false, true));
        }
        "badhttp" => {
            net::peer_send(id, b"HTTP/1.1 OK\r\n\r\n");
            net::peer_close(id, false);
        }
        "slow" => {
            let (s, b) = ok(r);
            let m = http(s, &b, false, true);
            // answered as of now, delivered much later
            wd.node.slow_ns += f.arg;
            wd.busy(f.arg);
            let c = &mut wd.net.conns[id];
            c.t_app = c.t_app.max(wd.now + f.arg);
            net::peer_send(id, &m);
        }
        _ => return false,
    }
    true
}

// ---- set-up
fn b64(b: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            if k <= c.len() {
                s.push(T[(v >> (18 - 6 * k) & 63) as usize] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}
impl Node {
    pub fn blank(scn: &J, cfg: &Cfg, seed: u64) -> Node {
        let e = J::Null;
        let j = scn.get("node").unwrap_or(&e);
        let mut rng = Rng::new(hash2(seed, 1));
        let addrs = chain::addresses(&mut rng, j.u("addrs", 20).max(1) as usize);
        Node {
            blocks: Vec::new(),
            by_hash: BTreeMap::new(),
            tip: 0,
            hist: Vec::new(),
            mem: Vec::new(),
            txs: BTreeMap::new(),
            mix: Mix { addrs, exotic: j.u("exotic", 15), segwit: j.u("segwit", 50), big: j.u("big", 0) },
            txindex: j.b("txindex"),
            churns: Vec::new(),
            raw_total: 0,
            dup_cb: j.b("dup_cb"),
            nomsg: j.u("nomsg", 0),
            listings: Vec::new(),
            ever_ok: BTreeSet::new(),
            lat: (j.u("lat_lo", 20) * US, j.u("lat_hi", 300) * US),
            slow: None,
            down: false,
            faults: Vec::new(),
            rng: Rng::new(hash2(seed, 2)),
            refused: 0,
            rpcs: 0,
            polls: Vec::new(),
            last_rpc: 0,
            low_ask: None,
            low_block: None,
            blocks_served: 0,
            close_after: j.u("close_after", 0) as u32,
            auth: b64(format!("{}:{}", cfg.user, cfg.pass).as_bytes()),
            mem_max: 60,
            host_mode: if cfg.host_name == 1 || cfg.host_name == 2 { cfg.host_name } else { 0 },
            port: j.u("port", 8332) as u16,
            file_seq: 0,
            file_buf: Vec::new(),
            file_max: usize::MAX,
            quiet_since: 0,
            chain_since: 0,
            fan: vec![],
            in_flight: 0,
            slow_ns: 0,
            silent_ns: 0,
            cut: 0,
            extra_head: j.b("extra_head"),
            append: false,
            busy_ns: 0,
            xor_pad: j.u("pad", 0),
        }
    }
}
/// The node's history before the run: its chain, its block files, its mempool.
pub fn setup() {
    let wd = w();
    let scn = wd.scn.clone();
    let e = J::Null;
    let j = scn.get("node").unwrap_or(&e);
    let mut r = Rng::new(hash2(scn.u("seed", 1), 21));
    let rng = &mut r;
    let conf = wd.cfg.conf as usize;
    let n = (j.u("blocks", 12) as usize).max(conf + 1);
    let txs = j.u("txs", 3);
    let mut tip = None;
    let nd = &mut w().node;
    for _ in 0..n {
        let k = rng.below(txs * 2 + 1);
        tip = Some(nd.make_block(rng, tip, &[], k));
        nd.tip = tip.unwrap();
    }
    // branches that lost
    for _ in 0..j.u("stale", 0) {
        let d = rng.logu(1, (n - 1) as u64) as usize;
        let max = if d < conf { d } else { d - 1 };
        if max > 0 {
            let l = rng.range(1, max as u64) as usize;
            nd.stale_branch(rng, d, l);
        }
    }
    nd.hist.push((0, nd.tip));
    // what is on disk, in which order
    let mut raws: Vec<Vec<u8>> = nd.blocks.iter().map(|b| b.raw.clone()).collect();
    for _ in 0..j.u("dup", 0) {
        let b = rng.pick(&nd.blocks).raw.clone();
        let at = rng.below(raws.len() as u64 + 1) as usize;
        raws.insert(at, b);
    }
    for _ in 0..j.u("orphan", 0) {
        let mut prev: Id = [0; 32];
        prev.copy_from_slice(&rng.bytes(32));
        for _ in 0..rng.range(1, 2 + n as u64 / 2) {
            let mix = nd.mix.clone();
            let t = vec![Rc::new(chain::coinbase(rng, &mix, 5))];
            let h = chain::header(rng, &prev, &t);
            prev = sha::dsha(&h);
            let at = rng.below(raws.len() as u64 + 1) as usize;
            raws.insert(at, chain::serialize(&h, &t));
        }
    }
    match j.u("order", 0) {
        0 => {}
        1 => {
            // as downloaded in parallel: locally disordered
            for i in 1..raws.len() {
                let k = i - rng.below(8.min(i as u64 + 1)) as usize;
                raws.swap(i, k);
            }
        }
        2 => raws.reverse(),
        _ => rng.shuffle(&mut raws),
    }
    let files = j.u("files", 2).max(1) as usize;
    let mut cuts: Vec<usize> = (0..files - 1).map(|_| rng.below(raws.len() as u64 + 1) as usize).collect();
    cuts.push(0);
    cuts.push(raws.len());
    cuts.sort();
    let gaps = j.b("gaps");
    let mut seq = 0u32;
    let pad = nd.xor_pad;
    for c in cuts.windows(2) {
        let mut d = Vec::new();
        for b in &raws[c[0]..c[1]] {
            d.extend_from_slice(&0xD9B4BEF9u32.to_le_bytes());
            d.extend_from_slice(&(b.len() as u32).to_le_bytes());
            d.extend_from_slice(b);
        }
        if rng.pct(pad) {
            let z = *rng.pick(&[1usize, 4, 8, 79, 80, 87, 88, 89, 176, 400, 1000, 4096, 20000]);
            d.resize(d.len() + z, 0);
        }
        w().vfs.put(&format!("{}/blk{:05}.dat", crate::vfs::BLOCKS, seq), d);
        seq += 1;
        if gaps && rng.pct(30) {
            seq += rng.logu(1, 3000) as u32;
        }
    }
    for k in 0..j.u("foreign", 0) {
        let junk = rng.bytes(200);
        let d = |x: &str| format!("{}/{}", crate::vfs::BLOCKS, x);
        match k % 8 {
            0 => w().vfs.put(&d("rev00000.dat"), junk),
            1 => w().vfs.put(&d("blk00000.dat.bak"), junk),
            2 => w().vfs.put(&d("blk0000.dat"), junk),
            3 => w().vfs.put(&d("blk000001.dat"), junk),
            4 => w().vfs.put(&d("xblk00000.dat"), junk),
            5 => w().vfs.put(&d("xor.dat"), junk),
            6 => w().vfs.mkdir_setup(&d("index")),
            _ => w().vfs.put(&d("BLK00000.DAT"), junk),
        }
    }
    let nd = &mut w().node;
    nd.file_seq = seq;
    nd.file_buf.clear();
    nd.file_max = j.u("file_max", 20_000) as usize;
    nd.append = j.b("append");
    let m = j.u("mempool", 0);
    nd.mempool_add(rng, m, j.u("mchain", 50));
    if j.u("mcrowd", 0) > 0 {
        nd.mempool_crowd(rng, j.u("mcrowd", 0));
    }
    nd.quiet_since = 0;
    nd.chain_since = 0;
    let _ = &nd.file_max;
}
