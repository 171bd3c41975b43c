//! Seeded generation of scenarios: one family per property. A scenario is plain data (JSON); running it twice is the same run.
use crate::json::{n, st, J};
use crate::rng::{hash2, Rng};
use crate::world::fnv;

struct G {
    r: Rng,
    ops: Vec<J>,
    conf: u64,
    iv: u64, // µs
    hi: u64, // µs, end of the active part
    deep: u64,
}
type F = Vec<(String, J)>;
fn f(v: Vec<(&str, J)>) -> F {
    v.into_iter().map(|(k, v)| (k.to_string(), v)).collect()
}
fn i(v: i64) -> J {
    J::Int(v)
}
const RPC: [&str; 4] = ["getrawmempool", "getrawtransaction", "getblockhash", "getblock"];

impl G {
    fn op(&mut self, t: u64, kind: &str, x: Vec<(&str, J)>) {
        let mut v = f(vec![("t", n(t)), ("k", st(kind))]);
        v.extend(f(x));
        v.push(("seed".into(), n(self.r.seed())));
        self.ops.push(J::Obj(v));
    }
    /// Make the last operation wait for a point in the execution instead of a time.
    fn trig(&mut self, point: &str, skip: u64) {
        if let Some(J::Obj(v)) = self.ops.last_mut() {
            v.push(("trig".into(), obj! {"point" => st(point), "skip" => n(skip)}));
        }
    }
    fn t(&mut self) -> u64 {
        self.r.below(self.hi) + 1
    }
    fn rpc_point(&mut self) -> String {
        let m = *self.r.pick(&RPC);
        format!("{}:{}", if self.r.pct(50) { "rpc" } else { "rpcdone" }, m)
    }
    fn pause(&mut self, at: &[&str]) {
        let t = if self.r.pct(30) { 1 } else { self.t() };
        let stall = if self.r.pct(20) { self.r.logu(1, self.iv) } else { self.r.logu(self.iv / 4 + 1, self.iv * 5) };
        let rare = self.r.pct(60);
        if rare && self.r.pct(30) {
            let (k, max) = (self.r.logu(1, 60), *self.r.pick(&[1u64, 2, 5, 1000]));
            self.op(t, "late", vec![("n", n(k)), ("max", n(max)), ("stall", n(stall))]);
        } else if rare {
            let (k, max, hot) = (self.r.logu(1, 400), *self.r.pick(&[1u64, 1, 2, 3, 5, 10]), self.r.pct(70));
            self.op(t, "rare", vec![("n", n(k)), ("max", n(max)), ("hot", J::Bool(hot)), ("stall", n(stall))]);
        } else if self.r.pct(60) {
            let edges = self.r.logu(1, 3000);
            self.op(t, "pause", vec![("edges", n(edges)), ("stall", n(stall))]);
        } else {
            let (edges, sel) = (self.r.logu(1, 40), self.r.seed() % 1_000_000);
            self.op(t, "pause", vec![("edges", n(edges)), ("sel", n(sel)), ("stall", n(stall))]);
        }
        let p = *self.r.pick(at);
        let s = if self.r.pct(40) { 0 } else { self.r.logu(1, 60) };
        if !rare || self.r.pct(50) {
            self.trig(p, s);
        }
        if self.r.pct(60) {
            self.act(t, (70, 15, 15));
            self.trig("pause", 0);
        }
    }
    /// A thread gets hardly any processor time for a while, and meanwhile the node moves on.
    fn crawl(&mut self, at: &[&str]) {
        let t = if self.r.pct(30) { 1 } else { self.t() };
        let every = self.r.logu(10, 600);
        let count = self.r.logu(10, 200);
        let stall = self.r.logu(self.iv, self.iv * 10) / count + 1;
        self.op(t, "crawl", vec![("every", n(every)), ("count", n(count)), ("stall", n(stall))]);
        let p = *self.r.pick(at);
        let s = if self.r.pct(40) { 0 } else { self.r.logu(1, 60) };
        self.trig(p, s);
        for _ in 0..self.r.range(1, 3) {
            self.act(t, (70, 15, 15));
            let s = self.r.below(count);
            self.trig("pause", s);
        }
    }
    fn maybe_rpc_trig(&mut self, pct: u64) {
        if self.r.pct(pct) {
            let p = self.rpc_point();
            let s = if self.r.pct(60) { 0 } else { self.r.logu(1, 30) };
            self.trig(&p, s);
        }
    }
    fn mine(&mut self, t: u64) {
        let k = if self.r.pct(75) { 1 } else { self.r.logu(2, 2 * self.conf + 4) };
        let (a, b, c) = (self.r.below(6), *self.r.pick(&[0u64, 30, 60, 100, 100]), self.r.pct(20));
        self.op(t, "mine", vec![("n", n(k)), ("txs", n(a)), ("mp", n(b)), ("conflict", J::Bool(c))]);
    }
    /// Many blocks at once.
    fn burst(&mut self, t: u64) {
        let (k, a) = (self.r.logu(20, 160), if self.r.pct(70) { 0 } else { 1 });
        self.op(t, "mine", vec![("n", n(k)), ("txs", n(a)), ("mp", n(50))]);
    }
    fn reorg(&mut self, t: u64) {
        if self.conf < 2 {
            return self.mine(t);
        }
        let d = self.r.range(1, self.conf - 1);
        let e = if self.r.pct(70) { 1 } else { self.r.range(1, 4) };
        let (a, s) = (self.r.below(4), *self.r.pick(&[0u64, 30, 70, 100]));
        self.op(t, "reorg", vec![("depth", n(d)), ("extra", n(e)), ("txs", n(a)), ("same", n(s))]);
    }
    /// One thing a node may do. Weights: blocks, reorganisations, mempool.
    fn act(&mut self, t: u64, w: (u64, u64, u64)) {
        let x = self.r.below(w.0 + w.1 + w.2);
        if x < w.0 {
            self.mine(t)
        } else if x < w.0 + w.1 {
            self.reorg(t)
        } else {
            match self.r.below(10) {
                0 | 1 => self.op(t, "mprepl", vec![]),
                2 | 3 => {
                    let k = self.r.range(1, 4);
                    self.op(t, "mpevict", vec![("n", n(k))])
                }
                _ => {
                    let (k, c) = (self.r.logu(1, 12), *self.r.pick(&[0u64, 50, 90]));
                    self.op(t, "mpadd", vec![("n", n(k)), ("chain", n(c))])
                }
            }
        }
    }
    fn activity(&mut self, count: u64, w: (u64, u64, u64), trig: u64) {
        for _ in 0..count {
            let t = self.t();
            self.act(t, w);
            self.maybe_rpc_trig(trig);
        }
    }
    fn streams(&mut self, count: u64, kmode: &[i64], invalid: u64) {
        for _ in 0..count {
            let t = if self.r.pct(50) { 1 } else { self.r.below(self.hi / 2 + 1) };
            let period = self.r.logu(2, (self.iv / 1000).max(3));
            let span = (self.hi - t) / 1000 / period + 1;
            let k = span.min(if self.deep > 0 { 200 } else { 80 });
            let km = *self.r.pick(kmode);
            let (keep, slow) = (self.r.pct(70), if self.r.pct(15) { self.r.logu(1, 3000) } else { 0 });
            let nm = *self.r.pick(&[1u64, 3, 8, 30]);
            self.op(
                t,
                "stream",
                vec![("n", n(k)), ("period", n(period)), ("keep", J::Bool(keep)), ("slow", n(slow)), ("invalid", n(invalid)), ("kmode", i(km)), ("nmax", n(nm))],
            );
        }
    }
    fn bad_clients(&mut self, count: u64) {
        for _ in 0..count {
            let t = self.t();
            let kind = *self.r.pick(&["garbage", "half", "upload", "chunks", "abort", "connect", "pipeline", "header", "method", "http2", "query", "body", "slow"]);
            let (k, p) = (self.r.logu(1, 30), self.r.logu(1, 100));
            self.op(t, "bad", vec![("n", n(k)), ("period", n(p)), ("kind", st(kind))]);
        }
    }
    fn nodeslow(&mut self, t: u64, lo: u64, hi: u64) {
        let (u, m) = (self.r.logu(lo, hi), self.r.logu(self.iv / 1000 / 2 + 1, self.iv / 1000 * 8 + 2));
        self.op(t, "nodeslow", vec![("us", n(u)), ("ms", n(m))]);
    }
    fn partition(&mut self, t: u64) {
        let m = if self.r.pct(80) { self.r.logu(1, self.iv / 1000 * 8 + 2) } else { self.r.logu(1000, 30_000) };
        self.op(t, "partition", vec![("ms", n(m))]);
    }
    fn diskslow(&mut self, t: u64) {
        let (o, k, m) = (self.r.logu(1, 50_000), self.r.logu(1, 200_000), self.r.logu(self.iv / 1000, self.iv / 1000 * 30));
        self.op(t, "diskslow", vec![("op", n(o)), ("kb", n(k)), ("ms", n(m))]);
    }
    fn clock(&mut self, t: u64) {
        let mag = match self.r.below(5) {
            0 => self.r.logu(1, 1_000_000),
            1 => self.r.logu(1_000_000, 10_000_000_000),
            2 => self.r.logu(1_000_000_000, 4_000_000_000_000),
            3 => self.r.logu(1_000_000_000_000, 900_000_000_000_000_000),
            _ => 1_600_000_000_000_000_000,
        } as i64;
        let s = if self.r.pct(60) { -mag } else { mag };
        self.op(t, "clock", vec![("step", i(s))]);
        if self.r.pct(60) {
            let k = self.r.logu(1, 400) - 1;
            self.trig("clock", k);
        }
    }
    fn kill(&mut self, t: u64, power: u64, x: Vec<(&str, J)>) {
        let m = if self.r.pct(power) { "power" } else { "kill" };
        let d = *self.r.pick(&[0u64, 1, 50, 500]);
        let mut v = vec![("mode", st(m)), ("down", n(d))];
        v.extend(x);
        self.op(t, "kill", v);
    }
    fn store_trig(&mut self) {
        let p = *self.r.pick(&["vfs:open:store", "vfs:write:store", "vfs:write:store", "vfs:write:store", "vfs:fsync:store", "vfs:rename:store", "vfs:mut", "vfs:mut", "vfs:mut"]);
        let s = if self.r.pct(40) { 0 } else { self.r.logu(1, 60) };
        self.trig(p, s);
    }
    fn store_fault(&mut self, t: u64) {
        let op = *self.r.pick(&["open", "write", "write", "write", "fsync", "rename", "create"]);
        let e = *self.r.pick(&["EIO", "ENOSPC", "ENOSPC", "EDQUOT", "EACCES", "EROFS", "EMFILE"]);
        let (s, c, p) = (if self.r.pct(40) { 0 } else { self.r.logu(1, 40) }, self.r.logu(1, 3), *self.r.pick(&[0u64, 0, 30, 70, 100]));
        self.op(t, "io", vec![("op", st(op)), ("class", st("store")), ("skip", n(s)), ("count", n(c)), ("errno", st(e)), ("part", n(p))]);
    }
    fn diskfull(&mut self, t: u64) {
        let (r, m) = (self.r.logu(1, 60_000) - 1, self.r.logu(self.iv / 1000, self.iv / 1000 * 10));
        self.op(t, "diskfull", vec![("room", n(r)), ("ms", n(m))]);
    }
    fn rpc_fault(&mut self, t: u64) {
        let m = if self.r.pct(30) { "any" } else { *self.r.pick(&RPC) };
        let k = *self.r.pick(&["reset", "eof", "cut", "cut", "status", "error", "garbage", "garbage", "badhttp", "slow", "silent", "partial"]);
        let s = if self.r.pct(50) { 0 } else { self.r.logu(1, 20) };
        let a = if k == "slow" { self.r.logu(1_000_000, 20_000_000_000) } else { self.r.seed() % 1_000_000 };
        self.op(t, "rpc", vec![("method", st(m)), ("skip", n(s)), ("kind", st(k)), ("arg", n(a))]);
    }
}

/// Settings with which the program must not start: one missing or unparsable, others possibly changed harmlessly.
fn bad_env(r: &mut Rng) -> J {
    const REQ: [&str; 8] = ["THREADS", "BATCH_SIZE", "STORE_FILE_PATH", "BLOCK_FILES_PATH", "RPC_SERVER_HOST", "RPC_SERVER_PORT", "RPC_SERVER_USER", "RPC_SERVER_PASSWORD"];
    const NUM: [&str; 6] = ["THREADS", "BATCH_SIZE", "UPDATE_INTERVAL", "CONFIRMATIONS", "PORT", "RPC_SERVER_PORT"];
    let mut v = Vec::new();
    match r.below(10) {
        0..=3 => v.push(J::Arr(vec![st(*r.pick(&REQ)), J::Null])),
        4..=7 => {
            let k = *r.pick(&NUM);
            let x = *r.pick(&[
                "", " ", "abc", "-1", "1.5", "0x10", " 5", "5 ", "5,", "1e3", "99999999999999999999999", "18446744073709551616", "\u{fffd}", "--3", "+", "3\n", "\u{663}",
            ]);
            let x = if k.ends_with("PORT") && r.pct(30) { *r.pick(&["65536", "70000", "4294967296", "-8000"]) } else { x };
            v.push(J::Arr(vec![st(k), st(x)]));
        }
        _ => {
            let x = *r.pick(&["", "localhost", "300.1.1.1", "1.2.3", "127.0.0.1:80", " 127.0.0.1", "127.0.0.1 ", "*", "[::1]", "0x7f.1", "\u{fffd}", "::g", "127.0.0.1/8"]);
            v.push(J::Arr(vec![st("HOST"), st(x)]));
        }
    }
    if r.pct(20) {
        let x = *r.pick(&REQ);
        v.push(J::Arr(vec![st(x), J::Null]));
    }
    if r.pct(20) {
        v.push(J::Arr(vec![st("NODE_HOST"), st("x")]));
    }
    J::Arr(v)
}
const PAUSE: &[&str] = &[
    "app:recv:api", "app:recv:api", "app:recv:api", "app:send:api", "app:recv:node", "app:recv:node", "app:send:node", "vfs:open:store", "vfs:write:store", "vfs:fsync:store",
    "vfs:rename:store", "vfs:close:store", "vfs:close:store", "vfs:open:blk", "vfs:read:blk",
];
fn preempts(r: &mut Rng, max: u64, iv: u64, hot: u64, incs: u64) -> J {
    let c = if max == 0 { 0 } else { r.below(max + 1) };
    let mut v = Vec::new();
    for _ in 0..c {
        let stall = match r.below(4) {
            0 => 0,
            1 => r.logu(1, 2000),
            2 => r.logu(1000, iv),
            _ => r.logu(iv, iv * 5),
        };
        let inc = if r.pct(50) { 0 } else { r.range(1, incs) };
        if r.pct(75) {
            let h = r.pct(hot);
            let at = if r.pct(40) { r.range(1, 3) } else { r.logu(1, 300) };
            v.push(obj! {"inc" => n(inc), "at" => n(at), "stall" => n(stall), "sel" => n(r.seed() % 1_000_000), "hot" => J::Bool(h)});
        } else {
            let a = r.pct(60);
            let at = r.logu(100, if a { 300_000 } else { 5_000_000 });
            v.push(obj! {"inc" => n(inc.max(1)), "app" => J::Bool(a), "at" => n(at), "stall" => n(stall)});
        }
    }
    J::Arr(v)
}
fn sched(r: &mut Rng, maxp: u64, iv: u64, hot: u64, incs: u64) -> J {
    let calm = r.pct(15);
    let sw = if calm { 0 } else { *r.pick(&[0u64, 5, 30, 150, 500]) };
    let wk = if calm { 0 } else { *r.pick(&[0u64, 50, 300, 700]) };
    let pk = if calm { 0 } else { *r.pick(&[0u64, 50, 300, 1000]) };
    let sp = if r.pct(70) { 0 } else { *r.pick(&[1u64, 10, 50]) };
    let p = preempts(r, maxp, iv, hot, incs);
    obj! {"seed" => n(r.seed()), "switch" => n(sw), "wake" => n(wk), "pick" => n(pk), "spur" => n(sp), "slice_us" => n(*r.pick(&[2_000, 5_000, 10_000, 20_000])), "preempts" => p}
}
fn link(r: &mut Rng, nasty: u64) -> J {
    let seg = if r.pct(nasty) { *r.pick(&[1u64, 2, 7, 50, 300, 1460]) } else { 0 };
    let hi = *r.pick(&[1u64, 50, 200, 1000]);
    let gap = if seg == 0 { 0 } else if seg < 50 { *r.pick(&[0u64, 1, 5]) } else { *r.pick(&[0u64, 10, 200]) };
    let buf = if r.pct(nasty / 2) { *r.pick(&[100u64, 2000, 10_000]) } else { 200_000 };
    obj! {"lat_lo" => n(r.range(1, hi)), "lat_hi" => n(hi), "seg" => n(seg), "gap" => n(gap), "sndbuf" => n(buf)}
}
fn set(o: &mut J, k: &str, v: J) {
    if let J::Obj(l) = o {
        if let Some(x) = l.iter_mut().find(|x| x.0 == k) {
            x.1 = v;
        } else {
            l.push((k.to_string(), v));
        }
    }
}
fn text(r: &mut Rng, lo: u64, hi: u64) -> String {
    let l = r.range(lo, hi);
    (0..l).map(|_| *r.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-+/=.!$~ ") as char).collect::<String>()
}

pub fn generate(prop: &str, seed: u64, deep: u64) -> J {
    let s = hash2(seed, fnv(prop.as_bytes()));
    let mut rng = Rng::new(s);
    let r = &mut rng;
    let conf = *r.pick(&[1u64, 2, 2, 3, 3, 4, 6]);
    let interval = *r.pick(&[20u64, 50, 100, 200, 500, 1000]);
    let mut cfg = obj! {
        "threads" => n(*r.pick(&[1u64, 1, 2, 3, 4])), "batch" => n(*r.pick(&[1u64, 2, 3, 5, 1000])), "interval" => n(interval),
        "conf" => n(conf), "cpus" => n(*r.pick(&[1u64, 1, 2, 2, 3, 4])), "host_name" => n(0), "listen" => n(r.below(2)),
        "port" => n(8000), "user" => st("user"), "pass" => st("pass"), "defaults" => J::Bool(r.pct(30)),
        "paths" => n(if r.pct(75) { 0 } else { r.range(1, 4) })
    };
    let big = if r.pct(if deep > 0 { 15 } else { 6 }) { r.logu(1, 60) } else { 0 };
    let blocks = if deep > 0 && r.pct(10) { r.range(60, 200) } else { conf + 1 + r.below(18) };
    let mut node = obj! {
        "blocks" => n(blocks), "txs" => n(r.below(5)), "addrs" => n(*r.pick(&[3u64, 8, 20, 20])),
        "exotic" => n(*r.pick(&[0u64, 10, 30, 60])), "segwit" => n(*r.pick(&[0u64, 50, 100])), "big" => n(big),
        "files" => n(r.range(1, 4)), "order" => n(r.below(4)), "mempool" => n(if r.pct(60) { r.below(12) } else { 0 }), "mchain" => n(*r.pick(&[0u64, 50, 90])),
        "pad" => n(0), "stale" => n(0), "dup" => n(0), "orphan" => n(0), "foreign" => n(0), "append" => J::Bool(true),
        "file_max" => n(r.logu(500, 40_000)), "lat_lo" => n(10), "lat_hi" => n(*r.pick(&[20u64, 200, 2000])),
        "extra_head" => J::Bool(r.pct(50)), "txindex" => J::Bool(r.pct(30)), "nomsg" => n(r.below(3)), "close_after" => n(0), "port" => n(8332)
    };
    let iv = interval * 1000;
    let span = r.range(6, if deep > 0 { 60 } else { 24 });
    let mut g = G { r: Rng::new(hash2(s, 5)), ops: Vec::new(), conf, iv, hi: span * iv, deep };
    let mut scn = obj! {"property" => st(prop), "seed" => n(seed), "deep" => n(deep)};
    let mut incs = 1;
    let mut maxp = 6;
    let mut hot = 50;
    let mut nasty_node = 15;
    let mut nasty_client = 15;
    let mut finale: Vec<J> = Vec::new();
    let mut resume = false;
    let mut short = 0;
    let mut eintr = 0;
    let acts = g.r.range(2, span * 2);
    match prop {
        "C01" => {
            if g.r.pct(40) {
                set(&mut node, "big", n(g.r.logu(1, 200)));
            }
            set(&mut node, "txs", n(g.r.below(9)));
            set(&mut node, "dup_cb", J::Bool(g.r.pct(15)));
            set(&mut node, "exotic", n(*g.r.pick(&[10u64, 30, 60, 90])));
            set(&mut node, "addrs", n(*g.r.pick(&[2u64, 8, 20, 60])));
            g.activity(acts, (60, 10, 20), 10);
            let c = g.r.range(1, 3);
            g.streams(c, &[-1, -1, -3], 0);
            if g.r.pct(30) {
                finale.push(obj! {"mode" => st("kill"), "down" => n(50)});
            }
        }
        "C02" => {
            set(&mut node, "mempool", n(g.r.below(25)));
            g.activity(acts * 2, (25, 8, 70), 60);
            let c = g.r.range(1, 3);
            g.streams(c, &[0, 0, -2], 0);
        }
        "C03" => {
            let c = *g.r.pick(&[2u64, 3, 3, 4, 6]);
            set(&mut cfg, "conf", n(c));
            g.conf = c;
            set(&mut node, "blocks", n(c + 1 + g.r.below(12)));
            g.activity(acts, (35, 50, 20), 40);
            if g.r.pct(30) {
                let k = g.r.range(1, 3);
                for _ in 0..k {
                    let t = g.t();
                    let mut wd = Vec::new();
                    let d = g.r.range(1, c - 1);
                    wd.push(obj! {"k" => st("reorg"), "depth" => n(d), "extra" => n(g.r.range(1, 3)), "txs" => n(2), "same" => n(50), "seed" => n(g.r.seed())});
                    g.kill(t, 20, vec![("while_down", J::Arr(wd))]);
                    incs += 1;
                }
            }
            if g.r.pct(12) {
                // as deep as possible, right after many blocks at once
                let t = g.t();
                g.burst(t);
                for _ in 0..g.r.range(1, 3) {
                    let d = g.r.logu(1, 4 * g.iv);
                    let (x, y) = (g.r.below(3), *g.r.pick(&[0u64, 70]));
                    g.op(t + d, "reorg", vec![("depth", n(c - 1)), ("extra", n(1)), ("txs", n(x)), ("same", n(y))]);
                    g.maybe_rpc_trig(20);
                }
            }
            let c = g.r.range(1, 3);
            g.streams(c, &[-1, -1, -2], 0);
        }
        "C04" | "C05" => {
            maxp = 10;
            hot = 80;
            set(&mut cfg, "cpus", n(*g.r.pick(&[2u64, 3, 4])));
            set(&mut node, "exotic", n(0));
            g.activity(acts * 2, (40, 15, 50), 30);
            let c = g.r.range(2, 5);
            g.streams(c, if prop == "C04" { &[-1, -2, 0] } else { &[-1, -2, 0, 1, -3] }, 0);
            for _ in 0..g.r.below(4) {
                if g.r.pct(70) {
                    g.crawl(&["app:recv:api"]);
                } else {
                    g.pause(&["app:recv:api", "app:recv:node"]);
                }
            }
            if g.r.pct(30) {
                let t = g.t();
                g.diskslow(t);
            }
        }
        "C06" => {
            maxp = 8;
            g.activity(acts, (50, 15, 30), 20);
            let c = g.r.range(0, 3);
            g.streams(c, &[-1], 0);
            for _ in 0..g.r.below(4) {
                let t = g.t();
                match g.r.below(4) {
                    3 => g.partition(t),
                    0 => g.nodeslow(t, 500, 300_000),
                    1 => g.diskslow(t),
                    _ => {
                        let k = g.r.logu(2, 30);
                        g.op(t, "mine", vec![("n", n(k)), ("txs", n(1)), ("mp", n(50))]);
                    }
                }
            }
            if g.r.pct(8) {
                let t = g.t();
                g.burst(t);
            }
            if g.r.pct(8) {
                // a long time in which nothing happens
                let d = g.iv * g.r.logu(50, 1200);
                let t = g.hi + d;
                g.hi = t + g.iv;
                g.act(t, (50, 10, 40));
                if g.r.pct(50) {
                    g.act(t, (50, 10, 40));
                }
            }
        }
        "C07" => {
            set(&mut cfg, "threads", n(*g.r.pick(&[1u64, 2, 2, 3, 4, 8])));
            set(&mut cfg, "batch", n(*g.r.pick(&[1u64, 1, 2, 3, 4, 7, 20, 1000])));
            set(&mut node, "blocks", n(g.conf + 1 + g.r.logu(1, if deep > 0 { 200 } else { 50 })));
            set(&mut node, "files", n(g.r.logu(1, 12)));
            set(&mut node, "gaps", J::Bool(g.r.pct(40)));
            set(&mut node, "txs", n(g.r.below(7)));
            if g.r.pct(50) {
                set(&mut node, "stale", n(g.r.range(1, 5)));
            }
            if g.r.pct(40) {
                set(&mut node, "dup", n(g.r.logu(1, 40)));
            }
            if g.r.pct(30) {
                set(&mut node, "orphan", n(g.r.range(1, 4)));
            }
            if g.r.pct(40) {
                set(&mut node, "pad", n(60));
            }
            if g.r.pct(40) {
                set(&mut node, "foreign", n(g.r.range(1, 8)));
            }
            if g.r.pct(30) {
                short = *g.r.pick(&[20u64, 200, 600]);
            }
            if g.r.pct(30) {
                eintr = *g.r.pick(&[5u64, 50]);
            }
            g.hi = 4 * g.iv;
            maxp = 12;
            hot = 40;
            let a = g.r.below(4);
            g.activity(a, (60, 20, 20), 20);
            if g.r.pct(40) {
                // the node goes on while the index is built
                let p = *g.r.pick(&["vfs:open:blk", "vfs:read:blk"]);
                g.act(1, (60, 30, 10));
                let k = g.r.logu(1, 40) - 1;
                g.trig(p, k);
            }
            if g.r.pct(25) {
                g.diskslow(1);
            }
            if g.r.pct(10) {
                // many batches, and one that takes much longer than the others
                set(&mut cfg, "threads", n(*g.r.pick(&[2u64, 3, 4, 8])));
                set(&mut cfg, "batch", n(*g.r.pick(&[1u64, 1, 1, 2])));
                set(&mut node, "blocks", n(g.conf + g.r.range(70, 260)));
                set(&mut node, "txs", n(g.r.below(2)));
                let (op, s, m) = (*g.r.pick(&["read", "read", "open"]), g.r.logu(1, 300) - 1, g.r.logu(10, 5000));
                g.op(0, "slowio", vec![("op", st(op)), ("class", st("blk")), ("skip", n(s)), ("ms", n(m)), ("pre", J::Bool(true))]);
            }
            g.streams(1, &[-1, -3], 0);
        }
        "C08" => {
            set(&mut node, "append", J::Bool(false));
            set(&mut node, "txs", n(g.r.below(4)));
            g.activity(acts, (80, 10, 10), 10);
            let k = g.r.range(1, if deep > 0 { 6 } else { 3 });
            let pw = *g.r.pick(&[0u64, 50, 100]);
            for _ in 0..k {
                let t = if g.r.pct(30) { 1 } else { g.t() };
                g.kill(t, pw, vec![]);
                incs += 1;
                if g.r.pct(75) {
                    g.store_trig();
                }
            }
            if g.r.pct(50) {
                let t = g.r.range(1, g.hi / 3 + 1);
                g.op(t, "rmblocks", vec![]);
            }
            if g.r.pct(30) {
                let t = g.t();
                g.op(t, "syncdisk", vec![]);
            }
            if g.r.pct(30) {
                let t = g.t();
                g.diskslow(t);
            }
            if g.r.pct(20) {
                short = 300;
            }
            g.streams(1, &[-1], 0);
            resume = g.r.pct(40);
            finale.push(obj! {"mode" => st(if g.r.pct(30) { "power" } else { "kill" }), "down" => n(10)});
        }
        "C09" => {
            set(&mut node, "append", J::Bool(false));
            g.activity(acts, (80, 10, 10), 10);
            let k = g.r.range(1, 4);
            for _ in 0..k {
                let t = if g.r.pct(20) { 1 } else { g.t() };
                match g.r.below(5) {
                    0 | 1 | 2 => g.store_fault(t),
                    3 => g.diskfull(t),
                    _ => {
                        let (a, b) = (*g.r.pick(&[0u64, 100, 600]), *g.r.pick(&[0u64, 50, 300]));
                        g.op(t, "shortio", vec![("short", n(a)), ("eintr", n(b))]);
                    }
                }
                incs += 1;
            }
            if g.r.pct(20) {
                let (t, rm, ms) = (g.t(), g.r.below(4), g.r.logu(1, 3000));
                g.op(t, "fdlimit", vec![("room", n(rm)), ("ms", n(ms))]);
            }
            if g.r.pct(40) {
                let t = g.t();
                g.kill(t, 30, vec![]);
                if g.r.pct(70) {
                    g.store_trig();
                }
            }
            if g.r.pct(50) {
                let t = g.r.range(1, g.hi / 3 + 1);
                g.op(t, "rmblocks", vec![]);
            }
            g.streams(1, &[-1], 0);
            resume = g.r.pct(60);
            finale.push(obj! {"mode" => st("kill"), "down" => n(10)});
        }
        "C10" => {
            g.activity(acts, (85, 10, 10), 20);
            for _ in 0..g.r.below(4) {
                let t = g.t();
                g.diskslow(t);
            }
            if g.r.pct(30) {
                let t = g.t();
                g.nodeslow(t, 500, 100_000);
            }
            if g.r.pct(40) {
                let t = g.t();
                g.kill(t, 0, vec![]);
                incs += 1;
            }
            if g.r.pct(50) {
                // a block while a snapshot is being written
                let t = g.t();
                g.mine(t);
                let p = *g.r.pick(&["vfs:open:store", "vfs:write:store", "vfs:fsync:store", "vfs:rename:store"]);
                let k = g.r.logu(1, 10) - 1;
                g.trig(p, k);
            }
            if g.r.pct(8) {
                let t = g.t();
                g.burst(t);
            }
            let c = g.r.below(2);
            g.streams(c, &[-1], 0);
            resume = true;
            let c = g.r.range(1, 2);
            for _ in 0..c {
                finale.push(obj! {"mode" => st("kill"), "down" => n(10)});
            }
        }
        "C11" => {
            set(&mut node, "append", J::Bool(g.r.pct(50)));
            g.activity(acts, (50, 15, 30), 10);
            let k = g.r.range(1, 3);
            for _ in 0..k {
                let t = if g.r.pct(20) { 1 } else { g.t() };
                match g.r.below(13) {
                    12 => g.partition(t),
                    11 => {
                        let (s, c, e) = (g.r.logu(1, 400) - 1, g.r.logu(1, 40), *g.r.pick(&["EPIPE", "ENOSPC", "EIO"]));
                        g.op(t, "io", vec![("op", st("write")), ("class", st("stdout")), ("skip", n(s)), ("count", n(c)), ("errno", st(e))])
                    }
                    10 => {
                        let (s, c) = (g.r.logu(1, 40) - 1, g.r.logu(1, 6));
                        let t = if g.r.pct(70) { 0 } else { t };
                        g.op(t, "io", vec![("op", st("thread")), ("class", st("os")), ("skip", n(s)), ("count", n(c)), ("errno", st("EAGAIN")), ("pre", J::Bool(true))])
                    }
                    0..=1 => {
                        // the node has lost its nerve for a moment
                        let (m, k) = (*g.r.pick(&["getrawtransaction", "getrawtransaction", "any", "getrawmempool", "getblockhash"]), g.r.logu(1, 6));
                        let x = g.r.range(1, 4);
                        g.op(t, "mpadd", vec![("n", n(x)), ("chain", n(50))]);
                        for _ in 0..k {
                            let a = g.r.seed() % 1_000_000;
                            g.op(t, "rpc", vec![("method", st(m)), ("skip", n(0)), ("kind", st("error")), ("arg", n(a))]);
                        }
                    }
                    2..=5 => g.rpc_fault(t),
                    6 => {
                        let ms = g.r.logu(1, 3000);
                        g.op(t, "nodedown", vec![("ms", n(ms))])
                    }
                    7 => g.store_fault(t),
                    8 => {
                        let k = g.r.range(1, 2);
                        g.op(1, "bindfail", vec![("n", n(k))]);
                    }
                    _ => {
                        let (rm, ms) = (g.r.below(4), g.r.logu(1, 3000));
                        g.op(t, "fdlimit", vec![("room", n(rm)), ("ms", n(ms))]);
                    }
                }
                incs += 1;
            }
            if g.r.pct(20) {
                let e = *g.r.pick(&["ECONNABORTED", "EMFILE", "EINTR"]);
                let (t, k) = (g.t(), g.r.range(1, 3));
                g.op(t, "acceptfail", vec![("n", n(k)), ("errno", st(e))]);
            }
            if g.r.pct(40) {
                resume = true;
                finale.push(obj! {"mode" => st("kill"), "down" => n(10)});
            }
            let c = g.r.range(1, 2);
            g.streams(c, &[-1], 0);
        }
        "C12" => {
            maxp = 8;
            let c = *g.r.pick(&[1u64, 1, 2, 3, 6]);
            set(&mut cfg, "conf", n(c));
            g.conf = c;
            set(&mut node, "blocks", n(c + 1 + g.r.below(8)));
            set(&mut node, "mempool", n(if g.r.pct(50) { 0 } else { g.r.below(20) }));
            if g.r.pct(80) {
                g.activity(acts, (50, 20, 40), 50);
            }
            for _ in 0..g.r.below(4) {
                let t = g.t();
                match g.r.below(5) {
                    4 => g.partition(t),
                    0 => g.nodeslow(t, 500, 300_000),
                    1 | 2 => g.diskslow(t),
                    _ => {
                        let k = g.r.logu(2, 40);
                        g.op(t, "mine", vec![("n", n(k)), ("txs", n(1)), ("mp", n(50))]);
                    }
                }
            }
            if g.r.pct(40) {
                let t = g.t();
                g.act(t, (80, 20, 0));
                let p = *g.r.pick(&["vfs:open:store", "vfs:write:store", "vfs:fsync:store", "vfs:rename:store"]);
                let k = g.r.logu(1, 10) - 1;
                g.trig(p, k);
            }
            if g.r.pct(10) {
                let t = g.t();
                g.burst(t);
            }
            let k = g.r.below(3);
            for _ in 0..k {
                // restart, possibly with an unchanged chain
                let t = g.t();
                g.kill(t, 0, vec![]);
                incs += 1;
            }
            let c = g.r.below(3);
            g.streams(c, &[-1], 0);
        }
        "C13" => {
            maxp = 3;
            let a = acts / 2 + 1;
            g.activity(a, (60, 15, 30), 10);
            let k = g.r.range(1, 6);
            for _ in 0..k {
                let t = if g.r.pct(30) { 1 } else { g.t() };
                g.clock(t);
            }
            if g.r.pct(30) {
                let t = g.t();
                g.kill(t, 0, vec![]);
                incs += 1;
            }
            let c = g.r.range(1, 2);
            g.streams(c, &[-1], 0);
        }
        "C14" => {
            maxp = 3;
            nasty_client = 0;
            let a = acts / 2 + 2;
            g.activity(a, (70, 15, 20), 20);
            let k = g.r.range(1, 3);
            for _ in 0..k {
                let t = g.t();
                if g.r.pct(45) {
                    let (u, m) = (g.r.logu(50_000, 4_000_000), g.r.logu(1000, 10_000));
                    g.op(t, "nodeslow", vec![("us", n(u)), ("ms", n(m))]);
                } else if g.r.pct(20) {
                    g.partition(t);
                } else {
                    let (o, kb, m) = (g.r.logu(1000, 3_000_000), g.r.logu(1, 1_000_000), g.r.logu(2000, 20_000));
                    g.op(t, "diskslow", vec![("op", n(o)), ("kb", n(kb)), ("ms", n(m))]);
                    let k = g.r.range(1, 3);
                    g.op(t + 1, "mine", vec![("n", n(k)), ("txs", n(2)), ("mp", n(60))]);
                    let d = g.r.logu(g.iv, g.iv * 6);
                    let k = g.r.range(1, 3);
                    g.op(t + d, "mine", vec![("n", n(k)), ("txs", n(2)), ("mp", n(60))]);
                    g.hi = g.hi.max(t + d + 3 * g.iv);
                }
            }
            for k in 0..3u64 {
                let p = g.r.logu(20, 300);
                let c = (g.hi / 1000 / p).min(150) + 5;
                g.op(1 + k, "stream", vec![("n", n(c)), ("period", n(p)), ("keep", J::Bool(g.r.0 % 2 == 0)), ("kmode", i(-1)), ("nmax", n(4))]);
            }
            if g.r.pct(35) {
                // the writer is held up while the next blocks arrive, and then finds a slow disk in the middle of a slow poll
                let t = g.t();
                let (u, o, m) = (g.r.logu(g.iv / 4 + 1, g.iv * 2), g.r.logu(100_000, 3_000_000), g.r.logu(5000, 20_000));
                g.op(t, "nodeslow", vec![("us", n(u)), ("ms", n(m))]);
                g.op(t, "diskslow", vec![("op", n(o)), ("kb", n(1000)), ("ms", n(m))]);
                let (k, st) = (g.r.logu(1, 200), g.r.logu(g.iv, g.iv * 10));
                if g.r.pct(50) {
                    g.op(t, "rare", vec![("n", n(k)), ("max", n(1)), ("hot", J::Bool(true)), ("stall", n(st))]);
                } else {
                    let (k, m) = (g.r.logu(1, 3), g.r.logu(1, 3));
                    g.op(t, "late", vec![("n", n(k)), ("max", n(m)), ("stall", n(st))]);
                }
                g.op(t + 1, "mine", vec![("n", n(1)), ("txs", n(2)), ("mp", n(60))]);
                g.op(t, "mine", vec![("n", n(1)), ("txs", n(2)), ("mp", n(60))]);
                g.trig("pause", 0);
            }
            set(&mut scn, "prompt_ms", n(2000));
        }
        "C15" => {
            maxp = 3;
            let a = acts / 3 + 1;
            g.activity(a, (50, 15, 30), 10);
            let k = g.r.range(1, if deep > 0 { 12 } else { 6 });
            g.bad_clients(k);
            if g.r.pct(25) {
                // a crowd that never goes away
                let kind = *g.r.pick(&["upload", "upload", "chunks", "half", "connect", "slow", "pipeline"]);
                let t = g.r.below(g.hi / 2 + 1);
                let c = g.r.logu(15, 150);
                g.op(t, "bad", vec![("n", n(1)), ("period", n(1)), ("kind", st(kind)), ("crowd", n(c))]);
            }
            let c = g.r.range(2, 4);
            g.streams(c, &[-1], *rng.pick(&[0u64, 30, 80]));
            nasty_client = 25;
            set(&mut scn, "prompt_ms", n(3000));
            if g.r.pct(15) {
                let e = *g.r.pick(&["ECONNABORTED", "EMFILE"]);
                let (t, k) = (g.t(), g.r.range(1, 3));
                g.op(t, "acceptfail", vec![("n", n(k)), ("errno", st(e))]);
            }
        }
        "C16" => {
            maxp = 8;
            if g.r.pct(60) {
                g.op(0, "nodeslow", vec![]);
                g.ops.pop();
                let (u, m) = if g.r.pct(80) {
                    (g.r.logu(1000, 500_000), g.r.logu(100, 20_000))
                } else {
                    let m = g.r.logu(20_000, 300_000);
                    g.hi = g.hi.max(m * 1000);
                    set(&mut scn, "until", n(g.hi));
                    (g.r.logu(200_000, 20_000_000), m)
                };
                g.op(1, "nodeslow", vec![("us", n(u)), ("ms", n(m))]);
            }
            if g.r.pct(40) {
                g.diskslow(1);
            }
            let c = g.r.range(1, 5);
            for _ in 0..c {
                let t = g.r.logu(1, g.iv * 4);
                g.act(t, (60, 20, 20));
                g.maybe_rpc_trig(60);
            }
            let c = g.r.range(1, 3);
            for k in 0..c {
                let p = g.r.logu(1, 20);
                g.op(1 + k, "stream", vec![("n", n(40)), ("period", n(p)), ("keep", J::Bool(false)), ("kmode", i(-1)), ("nmax", n(8))]);
            }
            let k = g.r.below(3);
            for _ in 0..k {
                let t = g.t();
                let down = g.r.logu(1, 2000);
                let b = if g.r.pct(20) { g.r.logu(20, 160) } else { g.r.range(1, 8) };
                let wd = vec![obj! {"k" => st("mine"), "n" => n(b), "txs" => n(2), "mp" => n(60), "seed" => n(g.r.seed())}];
                g.op(t, "kill", vec![("mode", st("kill")), ("down", n(down)), ("while_down", J::Arr(wd))]);
                incs += 1;
            }
        }
        "C17" => {
            nasty_node = 90;
            maxp = 3;
            let a = acts / 2 + 2;
            g.activity(a, (60, 15, 30), 10);
            set(&mut cfg, "host_name", n(*g.r.pick(&[0u64, 0, 1, 1, 2, 3, 4])));
            let (a, b) = (g.r.logu(1, 40), g.r.logu(1, 70));
            set(&mut cfg, "user", st(text(&mut g.r, 1, a)));
            set(&mut cfg, "pass", st(text(&mut g.r, 1, b)));
            set(&mut node, "close_after", n(*g.r.pick(&[0u64, 0, 1, 2, 5])));
            set(&mut node, "port", n(*g.r.pick(&[8332u64, 18443, 80, 65535])));
            if g.r.pct(30) {
                set(&mut node, "big", n(100));
            }
            let k = g.r.below(5);
            for _ in 0..k {
                let t = g.t();
                g.op(t, "idleclose", vec![]);
            }
            g.streams(1, &[-1], 0);
        }
        "C18" => {
            set(&mut cfg, "threads", n(*g.r.pick(&[1u64, 2, 2, 3, 4, 8])));
            set(&mut cfg, "batch", n(*g.r.pick(&[1u64, 2, 3, 20])));
            set(&mut node, "blocks", n(g.conf + 2 + g.r.logu(1, 30)));
            set(&mut node, "files", n(g.r.logu(1, 8)));
            g.hi = 4 * g.iv;
            maxp = 8;
            let k = g.r.range(1, 4);
            for _ in 0..k {
                let op = *g.r.pick(&["open", "open", "read", "read", "read", "readdir", "seek"]);
                let e = *g.r.pick(&["EIO", "EMFILE", "ENFILE", "EACCES", "ENOMEM"]);
                let (s, c) = (g.r.logu(1, 60) - 1, g.r.logu(1, 10));
                g.op(0, "io", vec![("op", st(op)), ("class", st("blk")), ("skip", n(s)), ("count", n(c)), ("errno", st(e))]);
                if let Some(J::Obj(v)) = g.ops.last_mut() {
                    v.push(("pre".into(), J::Bool(true)));
                }
                incs += 1;
            }
            if g.r.pct(15) {
                let (s, c) = (g.r.logu(1, 20) - 1, g.r.logu(1, 6));
                g.op(0, "io", vec![("op", st("thread")), ("class", st("os")), ("skip", n(s)), ("count", n(c)), ("errno", st("EAGAIN")), ("pre", J::Bool(true))]);
            }
            if g.r.pct(20) {
                let (rm, ms) = (g.r.below(4), g.r.logu(1, 100));
                g.op(1, "fdlimit", vec![("room", n(rm)), ("ms", n(ms))]);
            }
            if g.r.pct(40) {
                let a = g.r.below(4);
                g.activity(a, (60, 20, 20), 20);
            }
            g.streams(1, &[-1, -3], 0);
        }
        "C19" => {
            set(&mut node, "append", J::Bool(false));
            g.activity(acts, (60, 20, 30), 10);
            if g.r.pct(60) {
                let t = g.r.range(1, g.hi / 3 + 1);
                g.op(t, "rmblocks", vec![]);
            }
            let k = g.r.range(1, if deep > 0 { 7 } else { 4 });
            let mut c = g.conf;
            let mut ts: Vec<u64> = (0..k).map(|_| g.t()).collect();
            ts.sort();
            for t in ts {
                let mut x = vec![
                    ("threads", n(*g.r.pick(&[1u64, 2, 4]))),
                    ("batch", n(*g.r.pick(&[1u64, 10, 1000]))),
                    ("interval", n(*g.r.pick(&[20u64, 100, 300]))),
                ];
                if c > 1 && g.r.pct(30) {
                    c = g.r.range(1, c - 1);
                    x.push(("conf", n(c)));
                }
                g.conf = c;
                let mut wd = Vec::new();
                for _ in 0..g.r.below(4) {
                    g.act(0, (60, 40, 30));
                    wd.push(g.ops.pop().unwrap());
                }
                if g.r.pct(6) {
                    g.burst(0);
                    wd.push(g.ops.pop().unwrap());
                }
                let cf = obj_of(x);
                g.kill(t, 20, vec![("cfg", cf), ("while_down", J::Arr(wd))]);
                incs += 1;
            }
            let c = g.r.range(1, 2);
            g.streams(c, &[-1, -1, -3], 0);
            resume = g.r.pct(30);
            finale.push(obj! {"mode" => st("kill"), "down" => n(10)});
        }
        "C22" => {
            maxp = 4;
            let iv0 = *g.r.pick(&[20u64, 20, 50, 100]);
            set(&mut cfg, "interval", n(iv0));
            g.iv = iv0 * 1000;
            let span = g.r.logu(15_000, if deep > 0 { 200_000 } else { 60_000 }); // ms
            g.hi = span * 1000;
            set(&mut node, "big", n(0));
            set(&mut node, "txs", n(g.r.below(3)));
            set(&mut node, "close_after", n(*g.r.pick(&[0u64, 0, 0, 1, 2, 7])));
            nasty_client = 5;
            nasty_node = 5;
            let mut many = 0;
            let kind = g.r.below(100);
            if kind < 25 {
                // one block after the other, each of which leads to a snapshot
                set(&mut node, "mempool", n(0));
                set(&mut node, "blocks", n(g.conf + 20 + g.r.below(40)));
                let e = iv0 * g.r.range(3, 8);
                let total = g.r.range(60, if deep > 0 { 400 } else { 150 });
                // one transaction each, or payments to ever new addresses that are spent at once
                let fan = if g.r.pct(50) { g.r.range(20, 80) } else { 0 };
                let total = if fan > 0 { total * 2 / 3 } else { total };
                g.op(1000, "blocks", vec![("every", n(e)), ("rounds", n(20)), ("fan", n(fan))]);
                let t2 = 4_000_000 + 20 * e * 1000 + iv0 * 8000;
                g.op(t2, "mark", vec![]);
                g.op(t2 + 1000, "blocks", vec![("every", n(e)), ("rounds", n(total)), ("fan", n(fan))]);
                g.hi = t2 + 3_000_000 + total * e * 1000;
                set(&mut scn, "until", n(g.hi));
            } else if kind < 60 {
                many = if g.r.pct(30) { 3000 } else { 0 };
                // nothing but the mempool changes, and in the end it is as empty as before
                set(&mut node, "mempool", n(0));
                let e = *g.r.pick(&[iv0 / 2 + 1, iv0, iv0 + 7, iv0 * 2]);
                let total = g.r.range(5000, if deep > 0 { 30_000 } else { 8000 });
                let a = g.r.logu(3, 60);
                let rounds = total / a + 1;
                let warm = (rounds / 3).min(1500 / a + 1);
                g.op(1000, "churn", vec![("n", n(1)), ("add", n(a)), ("every", n(e)), ("rounds", n(warm))]);
                let t1 = 2_000_000 + warm * e * 1000;
                g.op(t1, "mpclear", vec![]);
                let t2 = t1 + 4_000_000 + iv0 * 8000;
                g.op(t2, "mark", vec![]);
                g.op(t2 + 1000, "churn", vec![("n", n(1)), ("add", n(a)), ("every", n(e)), ("rounds", n(rounds))]);
                g.hi = t2 + 3_000_000 + rounds * e * 1000;
                let t = g.hi - 1_000_000;
                g.op(t, "mpclear", vec![]);
            } else {
                let a = g.r.logu(2, 60);
                let w = if g.r.pct(60) { (60, 0, 30) } else { (50, 20, 30) };
                g.activity(a, w, 10);
                for _ in 0..g.r.below(3) {
                    let t = g.t();
                    g.op(t, "idleclose", vec![]);
                }
            }
            // requests all the time
            let p = g.r.logu(20, 3000);
            let (p, keep) = if many > 0 { ((g.hi / 1000 / many).max(1), false) } else { (p, g.r.pct(50)) };
            let k = (g.hi * 4 / 5 / 1000 / p).min(if many > 0 { many } else { 250 });
            let nm = if many > 0 { 1 } else { 8 };
            g.op(1, "stream", vec![("n", n(k)), ("period", n(p)), ("keep", J::Bool(keep)), ("slow", n(0)), ("invalid", n(20)), ("kmode", i(-1)), ("nmax", n(nm))]);
            if g.r.pct(50) {
                let k = g.r.range(1, 3);
                for _ in 0..k {
                    let t = g.r.range(1, g.hi / 2);
                    let kind = *g.r.pick(&["garbage", "half", "upload", "chunks", "abort", "connect", "pipeline", "header", "method", "query", "body", "slow"]);
                    let (c, p) = (g.r.logu(3, 60), g.r.logu(1, g.hi / 1000 / 200));
                    g.op(t, "bad", vec![("n", n(c)), ("period", n(p)), ("kind", st(kind)), ("leave", J::Bool(true))]);
                }
            }
        }
        "C21" => {
            maxp = 2;
            let a = acts / 3 + 1;
            g.activity(a, (50, 15, 30), 10);
            g.streams(1, &[-1, -2], 0);
            let k = g.r.below(4);
            for _ in 0..k {
                let v = bad_env(&mut g.r);
                g.op(0, "badenv", vec![("pre", J::Bool(true)), ("vars", v)]);
            }
            let m = if k == 0 { 1 } else { 0 };
            let k = g.r.range(m, 2);
            for _ in 0..k {
                let t = g.t();
                let mut wd = Vec::new();
                for _ in 0..g.r.range(1, 3) {
                    let v = bad_env(&mut g.r);
                    wd.push(obj! {"k" => st("badenv"), "vars" => v});
                }
                g.kill(t, 20, vec![("while_down", J::Arr(wd))]);
                incs += 1;
            }
        }
        _ => {
            g.activity(acts, (50, 20, 30), 20);
            g.streams(2, &[-1], 0);
        }
    }
    // now and then, together with what other families are about, as long as it is harmless
    if g.r.pct(20) && !["C14", "C21", "C22"].contains(&prop) {
        for _ in 0..g.r.range(1, 4) {
            let t = g.t();
            match g.r.below(9) {
                0 => g.clock(t),
                1 if prop != "C15" => g.bad_clients(1),
                2 => g.diskslow(t),
                3 => g.nodeslow(t, 500, 100_000),
                4 => {
                    let (a, b) = (*g.r.pick(&[0u64, 100, 600]), *g.r.pick(&[0u64, 50, 300]));
                    g.op(t, "shortio", vec![("short", n(a)), ("eintr", n(b))]);
                }
                5 => g.op(t, "idleclose", vec![]),
                6 => {
                    g.kill(t, 30, vec![]);
                    incs += 1;
                    if g.r.pct(40) {
                        g.store_trig();
                    }
                }
                7 => {
                    g.act(t, (40, 40, 20));
                    g.maybe_rpc_trig(50);
                }
                _ => set(&mut node, "close_after", n(g.r.range(1, 4))),
            }
        }
    }
    // a thread stops shortly after something it did, and meanwhile the node does something
    if maxp > 0 && prop != "C22" && g.r.pct(40) {
        for _ in 0..g.r.range(1, 3) {
            if g.r.pct(60) {
                g.pause(PAUSE);
            } else {
                g.crawl(PAUSE);
            }
        }
    }
    // a crowded mempool, all at once
    if prop != "C22" && g.r.pct(if prop == "C02" { 4 } else { 2 }) {
        let k = g.r.logu(150, 1300);
        if g.r.pct(50) {
            set(&mut node, "mcrowd", n(k));
        } else {
            let (t, x) = (g.t(), g.r.seed());
            g.op(t, "mcrowd", vec![("n", n(k)), ("seed", n(x))]);
        }
    }
    // a long chain of small blocks, past where a height, an index or a count fits into a byte
    if prop != "C22" && g.r.pct(3) {
        let k = g.r.range(250, 540);
        set(&mut node, "blocks", n(k));
        set(&mut node, "big", n(0));
        let x = g.r.below(2);
        set(&mut node, "txs", n(x));
    }
    let r = &mut g.r;
    let sc = sched(r, maxp, iv, hot, incs);
    let (nl, cl) = (link(r, nasty_node), link(r, nasty_client));
    g.ops.sort_by_key(|o| o.u("t", 0));
    set(&mut scn, "cfg", cfg);
    set(&mut scn, "node", node);
    set(&mut scn, "node_link", nl);
    set(&mut scn, "client_link", cl);
    set(&mut scn, "short_pm", n(short));
    set(&mut scn, "eintr_pm", n(eintr));
    set(&mut scn, "resume", J::Bool(resume));
    set(&mut scn, "finale", J::Arr(finale));
    set(&mut scn, "tail", n(2 * iv));
    set(&mut scn, "sched", sc);
    set(&mut scn, "ops", J::Arr(g.ops));
    scn
}
fn obj_of(x: Vec<(&str, J)>) -> J {
    J::Obj(f(x))
}
