//! HTTP clients of the API: well-behaved ones whose answers are judged, and bad ones.
use crate::chain::Addr;
use crate::json::{self, J};
use crate::net;
use crate::oracle;
use crate::rng::Rng;
use crate::world::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Form {
    Path,
    Query,
    Post,
}
#[derive(Clone, Debug)]
pub enum Expect {
    Answer,
    Status(u16),
}
#[derive(Clone, Debug)]
pub struct Req {
    pub head: String,
    pub bytes: Vec<u8>,
    pub utxos: bool,
    pub k: usize,
    pub addrs: Vec<Addr>,
    pub form: Form,
    pub expect: Expect,
    pub conf: u64, // CONFIRMATIONS when the request was made
}
pub struct Q {
    pub rng: Rng,
    pub left: u64,
    pub period: u64,
    pub keep: bool,
    pub slow_send: u64, // ns between chunks, 0 = at once
    pub invalid: u64,   // percent of requests that must be refused
    pub kmode: i64,     // fixed depth, or -1 = any, -2 = only 0 and 1
    pub nmax: u64,
    pub conn: Option<usize>,
    pub reused: bool,
    pub req: Option<Req>,
    pub out: bool, // request sent, answer outstanding
    pub sent: usize,
    pub t_issue: u64,
    pub t_sent: u64,
    pub lo: (usize, usize),
    pub waiting: bool,
    pub bad: bool,
    pub fin: bool,
    pub script: Vec<(u64, Vec<u8>)>, // bad clients: delay, bytes
    pub end: String,                 // bad clients: how they leave
    pub inc: u32,
    pub flooded: u64,
    pub retries: u32,
    pub sched: bool,
}
pub struct Clients {
    pub qs: Vec<Q>,
    pub answers: u64,
    pub fin_left: u64,
    pub max_latency: u64,
    pub reqs_seen: u64,
}
impl Clients {
    pub fn new() -> Clients {
        Clients { qs: Vec::new(), answers: 0, fin_left: 0, max_latency: 0, reqs_seen: 0 }
    }
}
fn blank(seed: u64) -> Q {
    Q {
        rng: Rng::new(seed),
        left: 0,
        period: 0,
        keep: false,
        slow_send: 0,
        invalid: 0,
        kmode: -1,
        nmax: 4,
        conn: None,
        reused: false,
        req: None,
        out: false,
        sent: 0,
        t_issue: 0,
        t_sent: 0,
        lo: (0, 0),
        waiting: false,
        bad: false,
        fin: false,
        script: Vec::new(),
        end: String::new(),
        inc: 0,
        flooded: 0,
        retries: 0,
        sched: false,
    }
}
pub fn api_open() {
    let wd = w();
    wd.proc = Proc::Up;
    oracle::api_open();
    let wd = w();
    for i in 0..wd.cl.qs.len() {
        if wd.cl.qs[i].waiting {
            wd.cl.qs[i].waiting = false;
            wd.after(1, Ev::ClientGo(i));
        }
    }
}
/// A stream of requests, as an operation of the scenario.
pub fn stream(j: &J) {
    let wd = w();
    let mut q = blank(j.u("seed", 1));
    q.left = j.u("n", 1);
    q.period = j.u("period", 100) * MS;
    q.keep = j.b("keep");
    q.slow_send = j.u("slow", 0) * US;
    q.invalid = j.u("invalid", 0);
    q.kmode = j.get("kmode").and_then(|x| x.i64()).unwrap_or(-1);
    q.nmax = j.u("nmax", 4).max(1);
    wd.cl.qs.push(q);
    let i = wd.cl.qs.len() - 1;
    wd.after(0, Ev::ClientGo(i));
}
/// Final questions: every depth, every address.
pub fn finals() {
    let wd = w();
    let addrs = wd.node.mix.addrs.clone();
    let conf = wd.cfg.conf as usize;
    let mut reqs = Vec::new();
    let mut rng = Rng::new(wd.seq ^ 0x51);
    for k in 0..=conf {
        for part in addrs.chunks(40) {
            let form = if rng.pct(50) { Form::Post } else { Form::Query };
            reqs.push(make(&mut rng, form, true, k, part.to_vec()));
            let form = if rng.pct(50) { Form::Post } else { Form::Query };
            reqs.push(make(&mut rng, form, false, k, part.to_vec()));
        }
        let a = *rng.pick(&addrs);
        let u = rng.pct(50);
        reqs.push(make(&mut rng, Form::Path, u, k, vec![a]));
    }
    wd.cl.fin_left = reqs.len() as u64;
    for r in reqs {
        let mut q = blank(rng.seed());
        q.left = 1;
        q.fin = true;
        q.req = Some(r);
        let wd = w();
        wd.cl.qs.push(q);
        let i = wd.cl.qs.len() - 1;
        let d = rng.below(20 * MS);
        wd.after(d, Ev::ClientGo(i));
    }
}
pub fn drop_finals() {
    for q in &mut w().cl.qs {
        if q.fin {
            q.left = 0;
            q.out = false;
        }
    }
}
/// No more new requests.
pub fn quiesce() {
    for q in &mut w().cl.qs {
        q.left = q.left.min(1);
    }
}

fn make(rng: &mut Rng, form: Form, utxos: bool, k: usize, addrs: Vec<Addr>) -> Req {
    let what = if utxos { "utxos" } else { "balance" };
    let texts: Vec<String> = addrs.iter().map(|a| a.text()).collect();
    let mut query: Vec<String> = Vec::new();
    if k > 0 || rng.pct(30) {
        query.push(format!("confirmations={}", k));
    }
    if rng.pct(10) {
        query.push((*rng.pick(&["x=1", "x=1", "y", "", "z=", "=", "w=%20", "v=1=2", "confirmation", "u=/?:@"])).into());
    }
    let mut body = String::new();
    let path = match form {
        Form::Path => format!("/addresses/{}/{}", texts[0], what),
        Form::Query => {
            query.push(format!("addresses={}", texts.join(",")));
            format!("/addresses/{}", what)
        }
        Form::Post => {
            body = J::Arr(texts.iter().map(|t| json::st(t.clone())).collect()).dump();
            if rng.pct(15) {
                body = spell(rng, &texts);
            }
            format!("/addresses/{}", what)
        }
    };
    if rng.pct(6) {
        // parameters this route has no use for
        let other = wd_addr(rng);
        query.push(if form == Form::Path { format!("{}={}", rng.pick(&["address", "address", "addresses"]), other) } else { format!("address={}", other) });
    }
    if rng.pct(50) {
        query.reverse();
    }
    let target = if query.is_empty() { path } else { format!("{}?{}", path, query.join("&")) };
    finish(rng, form, utxos, k, addrs, target, if form == Form::Post { Some(body.into_bytes()) } else { None }, Expect::Answer, "")
}
/// The same list of addresses, written as unusually as JSON allows.
fn spell(rng: &mut Rng, texts: &[String]) -> String {
    let ws = |rng: &mut Rng| (*rng.pick(&["", "", " ", "\n", "\r\n\t ", "   "])).to_string();
    let mut s = ws(rng) + "[";
    for (i, t) in texts.iter().enumerate() {
        if i > 0 {
            s += ",";
        }
        s += &ws(rng);
        s += "\"";
        for c in t.chars() {
            if rng.pct(5) {
                s += &format!("\\u{:04x}", c as u32);
            } else {
                s.push(c);
            }
        }
        s += "\"";
        s += &ws(rng);
    }
    s + "]" + &ws(rng)
}
fn wd_addr(rng: &mut Rng) -> String {
    let a = &w().node.mix.addrs;
    if a.is_empty() || rng.pct(30) {
        return "x".into();
    }
    rng.pick(a).text()
}
fn finish(rng: &mut Rng, form: Form, utxos: bool, k: usize, addrs: Vec<Addr>, target: String, body: Option<Vec<u8>>, expect: Expect, method: &str) -> Req {
    let m = if !method.is_empty() {
        method
    } else if body.is_some() {
        "POST"
    } else {
        "GET"
    };
    let head = format!("{} {}", m, target);
    let full = if target.starts_with("/a") && rng.pct(3) { format!("{} http://localhost:8000{}", m, target) } else { head.clone() };
    let old = rng.pct(4);
    let mut b = format!("{} HTTP/1.{}\r\n{}: localhost:8000\r\n", full, if old { 0 } else { 1 }, rng.pick(&["Host", "Host", "host", "HOST"]));
    if rng.pct(40) {
        b.push_str("User-Agent: sim/1.0\r\nAccept: */*\r\n");
    }
    if rng.pct(4) {
        b.push_str("Connection: close\r\n");
    } else if rng.pct(5) {
        b.push_str("Connection: keep-alive\r\n");
    }
    let mut out;
    match body {
        Some(body) => {
            b.push_str("Content-Type: application/json\r\n");
            if !old && rng.pct(4) {
                b.push_str("Expect: 100-continue\r\n");
            }
            if !old && rng.pct(25) && !body.is_empty() {
                b.push_str("Transfer-Encoding: chunked\r\n\r\n");
                out = b.into_bytes();
                let mut i = 0;
                while i < body.len() {
                    let n = rng.logu(1, 64) as usize;
                    let n = n.min(body.len() - i);
                    let ext = *rng.pick(&["", "", "", "", "", ";a", ";a=1"]);
                    let z = *rng.pick(&["", "", "", "0"]);
                    out.extend_from_slice(format!("{}{:x}{}\r\n", z, n, ext).as_bytes());
                    out.extend_from_slice(&body[i..i + n]);
                    out.extend_from_slice(b"\r\n");
                    i += n;
                }
                out.extend_from_slice(b"0\r\n\r\n");
            } else {
                b.push_str(&format!("Content-Length: {}\r\n\r\n", body.len()));
                out = b.into_bytes();
                out.extend_from_slice(&body);
            }
        }
        None => {
            b.push_str("\r\n");
            out = b.into_bytes();
        }
    }
    Req { head, bytes: out, utxos, k, addrs, form, expect, conf: w().cfg.conf as u64 }
}
fn good(rng: &mut Rng, kmode: i64, nmax: u64) -> Req {
    let wd = w();
    let conf = wd.cfg.conf as usize;
    let k = match kmode {
        -1 => rng.below(conf as u64 + 1) as usize,
        -2 => rng.below(2) as usize,
        -3 => conf,
        k => (k as usize).min(conf),
    };
    let form = *rng.pick(&[Form::Path, Form::Query, Form::Post]);
    let n = if form == Form::Path {
        1
    } else if rng.pct(30) {
        rng.range(1, wd.node.mix.addrs.len() as u64)
    } else {
        rng.range(1, nmax)
    };
    let mut addrs = Vec::new();
    let n = if form != Form::Path && rng.below(1000) < 8 { rng.logu(41, if form == Form::Post { 3000 } else { 1000 }) } else { n.min(40) };
    // keep the answers affordable
    let per = wd.node.blocks[wd.node.tip].utxo.len() / wd.node.mix.addrs.len();
    for _ in 0..n.min(1 + 6000 / (per as u64 + 1)) {
        addrs.push(*rng.pick(&wd.node.mix.addrs));
    }
    let utxos = rng.pct(60);
    make(rng, form, utxos, k, addrs)
}
fn invalid(rng: &mut Rng) -> Req {
    let wd = w();
    let conf = wd.cfg.conf;
    let a = *rng.pick(&wd.node.mix.addrs);
    let what = *rng.pick(&["balance", "utxos"]);
    let bad_addr = |rng: &mut Rng| -> String {
        let mut t: Vec<char> = a.text().chars().collect();
        match rng.below(9) {
            7 => {
                const B58: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
                let n = rng.logu(1, 12);
                return (0..n).map(|_| *rng.pick(B58) as char).collect();
            }
            8 => return rng.pick(&["1", "z"]).repeat(rng.logu(1, 300) as usize),
            0 => {
                let i = rng.below(t.len() as u64) as usize;
                t[i] = if t[i] == 'z' { 'y' } else { 'z' };
            }
            1 => {
                let i = rng.below(t.len() as u64) as usize;
                t[i] = *rng.pick(&['0', 'O', 'I', 'l', '_', '-']);
            }
            2 => {
                t.pop();
            }
            3 => t.push('1'),
            4 => t.insert(0, '1'),
            5 => return crate::sha::b58check(*rng.pick(&[1u8, 4, 6, 111, 128, 196, 255]), &a.1),
            _ => {
                let n = *rng.pick(&[0usize, 1, 2, 4, 16, 18, 19, 21, 22, 24, 32, 64]);
                let mut h = a.1.to_vec();
                h.resize(n, 7);
                return crate::sha::b58check(a.0, &h);
            }
        }
        t.into_iter().collect()
    };
    let bad_conf = |rng: &mut Rng| -> String {
        match rng.below(9) {
            0 => (conf + 1).to_string(),
            1 => (conf + rng.range(2, 1000)).to_string(),
            2 => "-1".into(),
            3 => "".into(),
            4 => "1.0".into(),
            5 => "one".into(),
            6 => u64::MAX.to_string(),
            7 => "18446744073709551616".into(),
            _ => "0x1".into(),
        }
    };
    let (target, body, status): (String, Option<Vec<u8>>, u16) = match rng.below(12) {
        0 => (format!("/addresses/{}/{}", bad_addr(rng), what), None, 400),
        1 => (format!("/addresses/{}?addresses={},{}", what, a.text(), bad_addr(rng)), None, 400),
        2 => {
            let b = J::Arr(vec![json::st(a.text()), json::st(bad_addr(rng))]).dump();
            (format!("/addresses/{}", what), Some(b.into_bytes()), 400)
        }
        3 => (format!("/addresses/{}/{}?confirmations={}", a.text(), what, bad_conf(rng)), None, 400),
        4 => (format!("/addresses/{}?addresses={}&confirmations={}", what, a.text(), bad_conf(rng)), None, 400),
        5 => (format!("/addresses/{}?confirmations={}", what, bad_conf(rng)), Some(format!("[\"{}\"]", a.text()).into_bytes()), 400),
        6 => {
            let b: Vec<u8> = match rng.below(9) {
                0 => vec![],
                1 => b"{".to_vec(),
                2 => b"\"x\"".to_vec(),
                3 => b"{\"addresses\":[]}".to_vec(),
                4 => b"[1]".to_vec(),
                5 => b"[null]".to_vec(),
                6 => vec![0xff, 0xfe, b'[', b']'],
                7 => format!("[\"{}\"", a.text()).into_bytes(),
                _ => vec![b'['; 5000],
            };
            (format!("/addresses/{}", what), Some(b), 400)
        }
        7 => (format!("/addresses/{}", what), None, 400), // no addresses parameter
        8 => ((*rng.pick(&["/", "/addresses", "/addresses/", "/addresses/x/y", "/balance", "/addresses/balance/", "/Addresses/balance", "/%2e%2e/etc/passwd"])).to_string(), None, 404),
        9 => (format!("/addresses/{}/{}/x", a.text(), what), None, 404),
        10 => (format!("/addresses/{}/{}", a.text(), what), Some(b"[]".to_vec()), 404), // POST there is no route
        _ => (format!("//addresses/{}/{}", a.text(), what), None, 404),
    };
    finish(rng, Form::Path, false, 0, vec![], target, body, Expect::Status(status), "")
}

/// Start the next request of client `i`, or try again to.
pub fn go(i: usize) {
    let wd = w();
    let q = &mut wd.cl.qs[i];
    if q.left == 0 || q.out || (q.bad && q.sched) {
        return;
    }
    let port = wd.cfg.listen_port();
    if q.conn.is_none() {
        match net::client_connect(i, port) {
            Some(c) => {
                let q = &mut w().cl.qs[i];
                q.conn = Some(c);
                q.reused = false;
            }
            None => {
                let wd = w();
                oracle::api_missing();
                wd.cl.qs[i].waiting = true;
                return;
            }
        }
    }
    let wd = w();
    let q = &mut wd.cl.qs[i];
    let c = q.conn.unwrap();
    wd.net.conns[c].peer_buf.clear();
    if q.bad {
        q.sched = true;
        q.sent = 0;
        q.inc = wd.inc;
        wd.after(0, Ev::ClientSend(i));
        return;
    }
    if q.req.is_none() || q.req.as_ref().unwrap().conf != wd.cfg.conf as u64 && !q.fin {
        let r = if q.rng.pct(q.invalid) { invalid(&mut q.rng) } else { good(&mut q.rng, q.kmode, q.nmax) };
        q.req = Some(r);
    }
    q.out = true;
    q.sent = 0;
    q.t_issue = wd.now;
    q.t_sent = wd.now;
    q.inc = wd.inc;
    q.lo = wd.or.lo;
    let r = q.req.as_ref().unwrap();
    let (x, h) = (fnv(&r.bytes), r.head.clone());
    wd.lg(80, x);
    wd.tr(|| format!("client {} asks {}", i, h.chars().take(160).collect::<String>()));
    send_more(i);
}
pub fn send_more(i: usize) {
    let wd = w();
    let q = &mut wd.cl.qs[i];
    let Some(c) = q.conn else { return };
    if q.bad {
        if q.sent < q.script.len() {
            let b = q.script[q.sent].1.clone();
            q.sent += 1;
            let d = if q.sent < q.script.len() { q.script[q.sent].0 } else { q.rng.logu(1, 300 * MS) };
            wd.after(d, Ev::ClientSend(i));
            net::peer_send(c, &b);
        } else {
            let e = q.end.clone();
            match e.as_str() {
                "rst" => net::peer_close(c, true),
                "fin" => net::peer_close(c, false),
                _ => {} // stay connected for ever
            }
            let q = &mut w().cl.qs[i];
            q.left -= 1;
            if e != "hang" {
                q.conn = None;
            }
            if q.left > 0 && e != "hang" {
                q.sched = false;
                let d = q.period;
                w().after(d, Ev::ClientGo(i));
            }
        }
        return;
    }
    if !q.out {
        return;
    }
    let b = &q.req.as_ref().unwrap().bytes;
    if q.slow_send == 0 {
        let b = b.clone();
        q.sent = b.len();
        let t = net::peer_send(c, &b);
        w().cl.qs[i].t_sent = t;
        return;
    }
    let n = (q.rng.logu(1, 40) as usize).min(b.len() - q.sent);
    let part = b[q.sent..q.sent + n].to_vec();
    q.sent += n;
    let more = q.sent < b.len();
    let d = q.slow_send;
    let t = net::peer_send(c, &part);
    let wd = w();
    wd.cl.qs[i].t_sent = t;
    if more {
        wd.after(d, Ev::ClientSend(i));
    }
}

pub fn dechunk(b: &[u8]) -> Vec<u8> {
    dechunk_n(b).map(|x| x.0).unwrap_or_default()
}
fn dechunk_n(b: &[u8]) -> Option<(Vec<u8>, usize)> {
    let mut out = Vec::new();
    let mut i = 0;
    loop {
        let e = b[i..].windows(2).position(|x| x == b"\r\n")? + i;
        let s = String::from_utf8_lossy(&b[i..e]).to_string();
        let n = usize::from_str_radix(s.split(';').next().unwrap().trim(), 16).ok()?;
        i = e + 2;
        if b.len() < i + n + 2 {
            return None;
        }
        out.extend_from_slice(&b[i..i + n]);
        i += n + 2;
        if n == 0 {
            return Some((out, i));
        }
    }
}
/// (status, body, connection closes) of a complete response.
fn response(b: &[u8], eof: bool) -> Option<(u16, Vec<u8>, bool)> {
    let h = b.windows(4).position(|x| x == b"\r\n\r\n")? + 4;
    let head = String::from_utf8_lossy(&b[..h]).to_ascii_lowercase();
    let status: u16 = head.split(' ').nth(1).and_then(|s| s.parse().ok()).unwrap_or(0);
    if status == 100 {
        return response(&b[h..], eof);
    }
    let close = head.contains("connection: close") || head.starts_with("http/1.0") && !head.contains("connection: keep-alive");
    if head.contains("transfer-encoding: chunked") {
        return dechunk_n(&b[h..]).map(|(x, _)| (status, x, close));
    }
    if let Some(n) = head.lines().find_map(|l| l.strip_prefix("content-length:").and_then(|v| v.trim().parse::<usize>().ok())) {
        if b.len() >= h + n {
            return Some((status, b[h..h + n].to_vec(), close));
        }
        return None;
    }
    if eof {
        return Some((status, b[h..].to_vec(), true));
    }
    None
}
pub fn on_data(i: usize, id: usize) {
    let wd = w();
    let q = &mut wd.cl.qs[i];
    if q.bad {
        wd.net.conns[id].peer_buf.clear();
        return;
    }
    if q.conn != Some(id) || !q.out {
        return;
    }
    if let Some((s, b, close)) = response(&wd.net.conns[id].peer_buf, false) {
        complete(i, id, s, b, close);
    }
}
fn complete(i: usize, id: usize, status: u16, body: Vec<u8>, close: bool) {
    let wd = w();
    let q = &mut wd.cl.qs[i];
    let req = q.req.take().unwrap();
    q.out = false;
    q.left -= 1;
    q.retries = 0;
    let lo = q.lo;
    let keep = q.keep && !close && q.left > 0;
    if !keep {
        q.conn = None;
    }
    q.reused = true;
    let (t_issue, t_sent, fin, left) = (q.t_issue, q.t_sent, q.fin, q.left);
    let d = if q.period > 0 { q.rng.below(q.period) + q.period / 2 } else { 0 };
    wd.net.conns[id].peer_buf.clear();
    wd.cl.answers += 1;
    wd.lg(81, fnv(&body) ^ status as u64);
    wd.tr(|| format!("client {} gets {} {}", i, status, String::from_utf8_lossy(&body).chars().take(200).collect::<String>()));
    if !keep {
        net::peer_close(id, false);
    }
    oracle::latency(&req, t_sent.max(t_issue), body.len());
    oracle::answer(&req, lo, status, &body, fin, t_issue);
    let wd = w();
    if fin {
        wd.cl.fin_left -= 1;
        if wd.cl.fin_left == 0 {
            wd.after(MS, Ev::Phase(3));
        }
    } else if left > 0 {
        wd.after(d, Ev::ClientGo(i));
    }
}
pub fn on_end(i: usize, id: usize, rst: bool) {
    let wd = w();
    let q = &mut wd.cl.qs[i];
    if q.conn != Some(id) {
        return;
    }
    if !rst && q.out {
        if let Some((s, b, _)) = response(&wd.net.conns[id].peer_buf, true) {
            complete(i, id, s, b, true);
            return;
        }
    }
    let q = &mut wd.cl.qs[i];
    let had = wd.net.conns[id].peer_buf.len();
    q.conn = None;
    if q.bad {
        return;
    }
    if !q.out {
        if !q.reused {
            // connected, nothing sent yet: try again
            wd.after(MS, Ev::ClientGo(i));
        }
        return;
    }
    q.out = false;
    q.retries += 1;
    let again = q.retries;
    let inc = q.inc;
    let reused = q.reused;
    if !rst {
        net::peer_close(id, false);
    }
    let wd = w();
    let dead = wd.proc == Proc::Down || wd.inc != inc;
    if !dead && !wd.excuse && !(reused && had == 0 && again < 3) {
        let h = wd.cl.qs[i].req.as_ref().map(|r| r.head.clone()).unwrap_or_default();
        wd.violate("no-answer", format!("connection {} before the answer to {}", if rst { "reset" } else { "closed" }, h));
        return;
    }
    wd.after(5 * MS, Ev::ClientGo(i));
}

/// A client that misbehaves, or a crowd of them that never leaves.
pub fn bad(j: &J) {
    let c = j.u("crowd", 0);
    for i in 0..c {
        bad1(j, j.u("seed", 1) + i * 7919, true);
    }
    if c == 0 {
        bad1(j, j.u("seed", 1), false);
    }
}
fn bad1(j: &J, seed: u64, stay: bool) {
    let wd = w();
    let mut q = blank(seed);
    q.bad = true;
    q.left = j.u("n", 1);
    q.period = j.u("period", 20) * MS;
    let kind = j.s("kind");
    let r = &mut q.rng;
    let a = r.pick(&wd.node.mix.addrs).text();
    let mut s: Vec<(u64, Vec<u8>)> = Vec::new();
    let mut end = (*r.pick(&["rst", "fin", "hang"])).to_string();
    let post = |n: usize| format!("POST /addresses/{} HTTP/1.1\r\nHost: x\r\nContent-Length: {}\r\n\r\n", if n % 2 == 0 { "balance" } else { "utxos" }, n).into_bytes();
    match kind.as_str() {
        "garbage" => {
            let n = r.logu(1, 3000) as usize;
            let mut b = r.bytes(n);
            if r.pct(40) {
                b.extend_from_slice(b"\r\n\r\n");
            }
            s.push((0, b));
        }
        "half" => {
            let g = good(r, -1, 4);
            let n = r.below(g.bytes.len() as u64) as usize;
            s.push((0, g.bytes[..n].to_vec()));
        }
        "upload" => {
            // announces more than it ever sends
            let n = r.range(10, 100_000) as usize;
            s.push((0, post(n)));
            let k = r.logu(1, 20);
            for _ in 0..k {
                let m = (r.logu(1, 400) as usize).min(n / 30 + 1);
                s.push((r.logu(1, 200 * MS), vec![b'['; m]));
            }
        }
        "chunks" => {
            s.push((0, b"POST /addresses/balance HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n".to_vec()));
            for _ in 0..r.range(0, 5) {
                s.push((r.logu(1, 100 * MS), b"5\r\n[\"abc\r\n".to_vec()));
            }
            let bad: &[&[u8]] = &[b"zz\r\n", b"5\r\nab", b"ffffffffffffffff\r\n", b"-1\r\n", b"0\r\nX: y", b"100000000\r\n"];
            s.push((r.logu(1, 100 * MS), r.pick(bad).to_vec()));
        }
        "abort" => {
            // a good request, and gone before the answer
            let g = good(r, -1, 30);
            s.push((0, g.bytes));
            end = (*r.pick(&["rst", "fin"])).to_string();
        }
        "connect" => {
            s.push((0, vec![]));
        }
        "pipeline" => {
            let mut b = Vec::new();
            for _ in 0..r.range(2, 20) {
                b.extend(good(r, -1, 30).bytes);
            }
            s.push((0, b));
        }
        "header" => {
            let mut b = format!("GET /addresses/{}/balance HTTP/1.1\r\nHost: x\r\n", a).into_bytes();
            match r.below(6) {
                0 => {
                    for i in 0..r.logu(1, 300) {
                        b.extend(format!("X-{}: {}\r\n", i, i).bytes());
                    }
                }
                1 => {
                    b.extend(b"X: ");
                    b.extend(vec![b'a'; r.logu(10, 200_000) as usize]);
                    b.extend(b"\r\n");
                }
                2 => b.extend(b"Content-Length: -5\r\n"),
                3 => b.extend(b"Content-Length: 5\r\nContent-Length: 6\r\n"),
                4 => b.extend(b"Upgrade: websocket\r\nConnection: upgrade\r\n"),
                _ => b.extend(b"Expect: 100-continue\r\nContent-Length: 10\r\n"),
            }
            b.extend(b"\r\n");
            s.push((0, b));
        }
        "method" => {
            let m = *r.pick(&["HEAD", "PUT", "DELETE", "OPTIONS", "CONNECT", "TRACE", "PATCH", "PRI", "FOO", "get", "G\0T"]);
            let v = *r.pick(&["HTTP/1.1", "HTTP/1.0", "HTTP/2.0", "HTTP/0.9", ""]);
            let p = *r.pick(&["/addresses/balance", "*", "http://x/addresses/balance", "/addresses/balance?addresses=%ff%fe", "/a b", "/\u{e9}", ""]);
            s.push((0, format!("{} {} {}\r\nHost: x\r\n\r\n", m, p, v).into_bytes()));
        }
        "http2" => {
            let mut b = b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n".to_vec();
            let n = r.logu(1, 400) as usize;
            let x = r.bytes(n);
            b.extend(x);
            s.push((0, b));
        }
        "query" => {
            let tail = *r.pick(&[
                "confirmations=1&confirmations=99", "confirmations", "confirmations==1", "=&=&&&", "confirmations=%31", "addresses=,,,", "addresses=", "address=x",
                "confirmations=\u{661}", "confirmations=+1",
            ]);
            s.push((0, format!("GET /addresses/{}/utxos?{} HTTP/1.1\r\nHost: x\r\n\r\n", a, tail).into_bytes()));
        }
        "body" => {
            let b: Vec<u8> = match r.below(6) {
                0 => vec![b'['; r.logu(100, 60_000) as usize],
                1 => b"[\"\\ud800\"]".to_vec(),
                2 => b"[1e999]".to_vec(),
                3 => vec![0; r.logu(1, 5000) as usize],
                4 => {
                    let n = r.logu(1, 5000) as usize;
                    r.bytes(n)
                }
                _ => format!("[\"{}\",{}]", a, "\"1\",".repeat(r.logu(1, 500) as usize)).into_bytes(),
            };
            let mut m = post(b.len());
            m.extend(b);
            s.push((0, m));
        }
        _ => {
            // slow: a byte at a time
            let g = good(r, -1, 2);
            for x in g.bytes.iter().take(r.logu(1, 60) as usize) {
                s.push((r.logu(1, 50 * MS), vec![*x]));
            }
        }
    }
    q.script = s;
    q.end = if stay {
        "hang".into()
    } else if j.b("leave") && end == "hang" {
        "rst".into()
    } else {
        end
    };
    wd.stat(&format!("fault.client_{}", if kind.is_empty() { "slow" } else { &kind }), 1);
    wd.cl.qs.push(q);
    let i = wd.cl.qs.len() - 1;
    wd.after(0, Ev::ClientGo(i));
}
