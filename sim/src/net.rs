//! File descriptors, epoll, eventfd and the simulated network.
use crate::rng::{hash2, Rng};
use crate::sched::{self, Wait};
use crate::world::*;
use std::collections::{BTreeMap, VecDeque};

pub const IN: u32 = 1;
pub const OUT: u32 = 4;
pub const ERR: u32 = 8;
pub const HUP: u32 = 0x10;
pub const RDHUP: u32 = 0x2000;
pub const ET: u32 = 1 << 31;
pub const ONESHOT: u32 = 1 << 30;

pub struct Reg {
    pub desc: usize,
    pub events: u32,
    pub data: u64,
    pub pending: bool,
    pub order: u64,
}
pub enum Kind {
    File { ino: usize, pos: u64, flags: i32 },
    Dir { ino: usize },
    Epoll { regs: BTreeMap<i32, Reg> },
    EventFd { val: u64 },
    Sock { bound: Option<u16> },
    Listener { port: u16, queue: VecDeque<usize> },
    Conn { id: usize },
}
pub struct Desc {
    pub kind: Kind,
    pub refs: u32,
    pub nonblock: bool,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Peer {
    Node,
    Client(usize),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CState {
    Connecting,
    Refused,
    Open,
}
pub struct Conn {
    pub peer: Peer,
    pub state: CState,
    pub desc: Option<usize>,
    pub rx: VecDeque<u8>,
    pub rx_fin: bool,
    pub rst: bool,
    pub so_error: i32,
    pub tx: VecDeque<u8>, // sent by the application, on the wire
    pub sndbuf: usize,
    pub want_write: bool,
    pub app_shut: bool,
    pub app_closed: bool,
    pub peer_closed: bool,
    pub peer_buf: Vec<u8>,
    pub rng: Rng,
    pub t_app: u64,
    pub t_peer: u64,
    pub local_port: u16,
    pub remote_port: u16,
    pub gone: bool,
    pub node_busy: bool,
    pub node_reqs: u32,
    pub last_act: u64,
    pub idle_closed: bool,
}
/// How bytes travel.
#[derive(Clone)]
pub struct Link {
    pub lat_lo: u64,
    pub lat_hi: u64,
    pub seg: u64, // largest segment, 0 = whole
    pub gap: u64, // largest gap between segments
    pub sndbuf: usize,
    pub accept_delay: u64,
}
pub struct Net {
    pub fds: BTreeMap<i32, usize>,
    pub descs: Vec<Option<Desc>>,
    pub conns: Vec<Conn>,
    pub node_link: Link,
    pub client_link: Link,
    pub next_port: u16,
    pub seed: u64,
    pub reg_order: u64,
    pub bind_fail: u32,
    pub accept_fail: Vec<i32>,
    pub listen_since: u64,
}
impl Net {
    pub fn new(seed: u64, node_link: Link, client_link: Link) -> Net {
        Net {
            fds: BTreeMap::new(),
            descs: Vec::new(),
            conns: Vec::new(),
            node_link,
            client_link,
            next_port: 40000,
            seed,
            reg_order: 0,
            bind_fail: 0,
            accept_fail: Vec::new(),
            listen_since: 0,
        }
    }
}

pub fn install(kind: Kind, nonblock: bool) -> i32 {
    let n = &mut w().net;
    let fd = free_fd();
    let d = Desc { kind, refs: 1, nonblock };
    let i = match n.descs.iter().position(|x| x.is_none()) {
        Some(i) => {
            n.descs[i] = Some(d);
            i
        }
        None => {
            n.descs.push(Some(d));
            n.descs.len() - 1
        }
    };
    n.fds.insert(fd, i);
    fd
}
pub fn fd_room() -> bool {
    let wd = w();
    let l = wd.vfs.fd_limit;
    l == 0 || wd.net.fds.len() < l as usize
}
fn free_fd() -> i32 {
    let n = &w().net;
    let mut fd = 10;
    while n.fds.contains_key(&fd) {
        fd += 1;
    }
    fd
}
pub fn dup(fd: i32) -> i32 {
    let n = &mut w().net;
    let Some(&d) = n.fds.get(&fd) else { return -libc::EBADF };
    let f = free_fd();
    n.fds.insert(f, d);
    n.descs[d].as_mut().unwrap().refs += 1;
    f
}
pub fn desc_of(fd: i32) -> Option<usize> {
    w().net.fds.get(&fd).copied()
}
pub fn desc(i: usize) -> &'static mut Desc {
    w().net.descs[i].as_mut().unwrap()
}
pub fn close(fd: i32) -> i32 {
    let n = &mut w().net;
    let Some(d) = n.fds.remove(&fd) else { return -libc::EBADF };
    let de = n.descs[d].as_mut().unwrap();
    de.refs -= 1;
    // a closed descriptor leaves every epoll set that registered it under this number
    for x in n.descs.iter_mut().flatten() {
        if let Kind::Epoll { regs } = &mut x.kind {
            if regs.get(&fd).map(|r| r.desc == d).unwrap_or(false) {
                regs.remove(&fd);
            }
        }
    }
    if n.descs[d].as_ref().unwrap().refs == 0 {
        let x = n.descs[d].take().unwrap();
        match x.kind {
            Kind::Conn { id } => app_close(id),
            Kind::Listener { queue, .. } => {
                for c in queue {
                    reset_by_app(c);
                }
            }
            Kind::File { ino, .. } | Kind::Dir { ino } if app() && crate::vfs::class_ino(ino) == "store" => point("vfs:close:store"),
            _ => {}
        }
    }
    0
}

// ---- readiness
pub fn readiness(i: usize) -> u32 {
    match &desc(i).kind {
        Kind::EventFd { val } => (if *val > 0 { IN } else { 0 }) | OUT,
        Kind::Listener { queue, .. } => {
            if queue.is_empty() {
                0
            } else {
                IN
            }
        }
        Kind::Conn { id } => conn_ready(*id),
        Kind::Sock { .. } => OUT | HUP,
        _ => IN | OUT,
    }
}
fn conn_ready(id: usize) -> u32 {
    let c = &w().net.conns[id];
    let mut m = 0;
    match c.state {
        CState::Connecting => return 0,
        CState::Refused => return IN | OUT | ERR | HUP | RDHUP,
        CState::Open => {}
    }
    if c.rst {
        return IN | OUT | ERR | HUP | RDHUP;
    }
    if !c.rx.is_empty() || c.rx_fin {
        m |= IN;
    }
    if c.rx_fin {
        m |= RDHUP;
    }
    if c.rx_fin && c.app_shut {
        m |= HUP;
    }
    if c.tx.len() < c.sndbuf {
        m |= OUT;
    }
    m
}
/// Something about description `i` changed in a way that produces an epoll edge.
pub fn notify(i: usize) {
    let n = &mut w().net;
    let mut eps = Vec::new();
    for (e, x) in n.descs.iter_mut().enumerate() {
        if let Some(Desc { kind: Kind::Epoll { regs }, .. }) = x {
            let mut hit = false;
            for r in regs.values_mut() {
                if r.desc == i {
                    n.reg_order += 1;
                    if !r.pending {
                        r.order = n.reg_order;
                    }
                    r.pending = true;
                    hit = true;
                }
            }
            if hit {
                eps.push(e as i32);
            }
        }
    }
    for e in eps {
        sched::wake_where(|x| *x == Wait::Epoll(e));
    }
    sched::wake_where(|x| *x == Wait::Desc(i as i32));
}
fn notify_conn(id: usize) {
    if let Some(d) = w().net.conns[id].desc {
        notify(d)
    }
}
pub fn epoll_ctl(ep: i32, op: i32, fd: i32, events: u32, data: u64) -> i32 {
    let (Some(e), Some(d)) = (desc_of(ep), desc_of(fd)) else { return -libc::EBADF };
    let ready = readiness(d);
    let n = &mut w().net;
    n.reg_order += 1;
    let order = n.reg_order;
    let Kind::Epoll { regs } = &mut desc(e).kind else { return -libc::EINVAL };
    match op {
        1 => {
            if regs.contains_key(&fd) {
                return -libc::EEXIST;
            }
            let pending = ready & (events | ERR | HUP) != 0;
            regs.insert(fd, Reg { desc: d, events, data, pending, order });
        }
        2 => {
            if regs.remove(&fd).is_none() {
                return -libc::ENOENT;
            }
        }
        3 => match regs.get_mut(&fd) {
            Some(r) => {
                r.events = events;
                r.data = data;
                r.pending = ready & (events | ERR | HUP) != 0;
            }
            None => return -libc::ENOENT,
        },
        _ => return -libc::EINVAL,
    }
    if ready != 0 {
        sched::wake_where(|x| *x == Wait::Epoll(e as i32));
    }
    0
}
pub fn epoll_collect(e: usize, max: usize) -> Vec<(u32, u64)> {
    let Kind::Epoll { regs } = &desc(e).kind else { return vec![] };
    let mut l: Vec<(u64, i32, usize, u32, u64)> = Vec::new();
    for (fd, r) in regs {
        if r.pending || r.events & ET == 0 {
            l.push((r.order, *fd, r.desc, r.events, r.data));
        }
    }
    l.sort();
    let mut out = Vec::new();
    for (_, fd, d, ev, data) in l {
        if out.len() >= max {
            break;
        }
        let m = readiness(d) & (ev | ERR | HUP);
        let Kind::Epoll { regs } = &mut desc(e).kind else { return out };
        let r = regs.get_mut(&fd).unwrap();
        r.pending = false;
        if m != 0 {
            if ev & ONESHOT != 0 {
                r.events = 0;
            }
            out.push((m, data));
        }
    }
    out
}

// ---- connections
fn new_conn(peer: Peer, remote_port: u16) -> usize {
    let wd = w();
    let n = &mut wd.net;
    n.next_port = if n.next_port >= 65000 { 40000 } else { n.next_port + 1 };
    let l = if peer == Peer::Node { &n.node_link } else { &n.client_link };
    let id = n.conns.len();
    n.conns.push(Conn {
        peer,
        state: CState::Connecting,
        desc: None,
        rx: VecDeque::new(),
        rx_fin: false,
        rst: false,
        so_error: 0,
        tx: VecDeque::new(),
        sndbuf: l.sndbuf,
        want_write: false,
        app_shut: false,
        app_closed: false,
        peer_closed: false,
        peer_buf: Vec::new(),
        rng: Rng::new(hash2(n.seed, id as u64)),
        t_app: 0,
        t_peer: 0,
        local_port: n.next_port,
        remote_port,
        gone: false,
        node_busy: false,
        node_reqs: 0,
        last_act: wd.now,
        idle_closed: false,
    });
    id
}
fn link(id: usize) -> Link {
    let n = &w().net;
    match n.conns[id].peer {
        Peer::Node => n.node_link.clone(),
        _ => n.client_link.clone(),
    }
}
/// The application connects to 127.0.0.1-like address `ip`:`port`.
pub fn app_connect(sock: usize, ip: [u8; 4], port: u16) -> i32 {
    let id = new_conn(Peer::Node, port);
    let wd = w();
    let c = &mut wd.net.conns[id];
    c.desc = Some(sock);
    desc(sock).kind = Kind::Conn { id };
    let good = wd.node.addr_ok(ip, port);
    let l = link(id);
    let d = wd.net.conns[id].rng.range(l.lat_lo, l.lat_hi);
    wd.tr(|| format!("app connects to node (conn {})", id));
    let t = (wd.now + d).max(wd.node.cut);
    wd.at(t, Ev::Established(id, good));
    -libc::EINPROGRESS
}
/// Nothing passes between the application and the node before `node.cut`: put off what is under way, in order.
pub fn hold() {
    let wd = w();
    let cut = wd.node.cut;
    let k: Vec<_> = wd.events.range(..=(cut, u64::MAX)).map(|(k, e)| (*k, e.conn())).collect();
    for (k, c) in k {
        if c.map(|c| wd.net.conns[c].peer == Peer::Node).unwrap_or(false) {
            let e = wd.events.remove(&k).unwrap();
            wd.at(cut, e);
        }
    }
    for c in wd.net.conns.iter_mut() {
        if c.peer == Peer::Node {
            c.t_app = c.t_app.max(cut);
            c.t_peer = c.t_peer.max(cut);
        }
    }
}
pub fn ev_established(id: usize, good: bool) {
    let wd = w();
    if wd.net.conns[id].gone {
        return;
    }
    let ok = good && wd.node.accepting();
    let c = &mut wd.net.conns[id];
    if ok {
        c.state = CState::Open;
        wd.stat("net.node_conn", 1);
    } else {
        c.state = CState::Refused;
        c.so_error = libc::ECONNREFUSED;
        if good {
            wd.node.refused += 1;
            wd.excuse("connection-refused");
            wd.stat("fault.rpc_refused", 1);
        }
    }
    wd.lg(30, id as u64 * 2 + ok as u64);
    notify_conn(id);
}
/// A client connects to the API; None if nothing listens there.
pub fn client_connect(client: usize, port: u16) -> Option<usize> {
    let wd = w();
    if wd.proc == Proc::Down {
        return None;
    }
    let l = wd.net.descs.iter().position(|d| matches!(d, Some(Desc { kind: Kind::Listener { port: p, .. }, .. }) if *p == port))?;
    let id = new_conn(Peer::Client(client), port);
    let wd = w();
    wd.net.conns[id].state = CState::Open;
    if let Kind::Listener { queue, .. } = &mut desc(l).kind {
        queue.push_back(id);
    }
    wd.lg(31, id as u64);
    notify(l);
    Some(id)
}
pub fn listening(port: u16) -> bool {
    let wd = w();
    wd.proc != Proc::Down && wd.net.descs.iter().any(|d| matches!(d, Some(Desc { kind: Kind::Listener { port: p, .. }, .. }) if *p == port))
}
/// The peer sends bytes; they reach the application in segments.
pub fn peer_send(id: usize, b: &[u8]) -> u64 {
    let l = link(id);
    let wd = w();
    if wd.net.conns[id].gone || wd.net.conns[id].peer_closed {
        return wd.now;
    }
    let mut i = 0;
    let mut last = wd.now;
    let mut budget = 400; // at most this many segments per message, so that large bodies stay affordable
    while i < b.len() {
        let c = &mut wd.net.conns[id];
        let n = if l.seg == 0 || budget == 0 { b.len() - i } else { c.rng.logu(1, l.seg) as usize };
        let n = n.min(b.len() - i);
        budget -= 1;
        let d = if i == 0 { c.rng.range(l.lat_lo, l.lat_hi) } else { c.rng.logu(1, l.gap.max(1)) - 1 };
        let t = (wd.now + d).max(if i == 0 { c.t_app } else { c.t_app + d });
        c.t_app = t;
        last = t;
        wd.stat("net.segments_in", 1);
        wd.at(t, Ev::ToApp(id, b[i..i + n].to_vec()));
        i += n;
    }
    last
}
pub fn peer_close(id: usize, rst: bool) {
    let l = link(id);
    let wd = w();
    let c = &mut wd.net.conns[id];
    if c.gone || c.peer_closed {
        return;
    }
    c.peer_closed = true;
    let t = (wd.now + c.rng.range(l.lat_lo, l.lat_hi)).max(c.t_app);
    c.t_app = t;
    wd.at(t, Ev::ToAppEnd(id, rst));
}
/// As `peer_close`, with the end of the stream visible to the application at once.
pub fn peer_close_now(id: usize) {
    let c = &mut w().net.conns[id];
    if c.gone || c.peer_closed {
        return;
    }
    c.peer_closed = true;
    c.idle_closed = true;
    ev_to_app_end(id, false);
}
pub fn ev_to_app(id: usize, b: Vec<u8>) {
    let wd = w();
    let c = &mut wd.net.conns[id];
    if c.gone || c.rst {
        return;
    }
    if c.app_closed {
        // data for a closed socket: the peer gets a reset
        wd.after(10_000, Ev::PeerEnd(id, true));
        wd.net.conns[id].gone = true;
        return;
    }
    c.rx.extend(b.iter());
    c.last_act = wd.now;
    wd.lg(32, (id as u64) << 32 | b.len() as u64);
    notify_conn(id);
}
pub fn ev_to_app_end(id: usize, rst: bool) {
    let wd = w();
    let c = &mut wd.net.conns[id];
    if c.gone {
        return;
    }
    if rst {
        c.rst = true;
        c.so_error = libc::ECONNRESET;
        c.rx.clear();
        c.tx.clear();
    } else {
        c.rx_fin = true;
    }
    wd.lg(33, id as u64 * 2 + rst as u64);
    wd.tr(|| format!("conn {} {} by peer", id, if rst { "reset" } else { "closed" }));
    notify_conn(id);
}
pub fn send(id: usize, b: &[u8]) -> i64 {
    let l = link(id);
    let wd = w();
    let c = &mut wd.net.conns[id];
    match c.state {
        CState::Connecting => return -libc::EAGAIN as i64,
        CState::Refused => return -libc::ECONNREFUSED as i64,
        _ => {}
    }
    if c.rst {
        let e = if c.so_error != 0 { c.so_error } else { libc::EPIPE };
        c.so_error = 0;
        return -e as i64;
    }
    if c.app_shut {
        return -libc::EPIPE as i64;
    }
    if c.idle_closed && !b.is_empty() {
        // the node closed the idle connection while this request was on its way out: not a closed *idle* connection
        wd.stat("net.idle_close_race", 1);
        wd.excuse("idle-close-race");
    }
    let c = &mut wd.net.conns[id];
    let room = c.sndbuf.saturating_sub(c.tx.len());
    if room == 0 {
        c.want_write = true;
        return -libc::EAGAIN as i64;
    }
    let mut n = b.len().min(room);
    if n == 0 {
        return 0;
    }
    if l.seg != 0 && n > 1 && c.rng.pct(30) {
        n = c.rng.range(1, n as u64) as usize; // the kernel takes only part
        wd.stat("net.partial_send", 1);
    }
    let wd = w();
    let c = &mut wd.net.conns[id];
    if n < b.len() {
        c.want_write = true;
    }
    c.tx.extend(b[..n].iter());
    c.last_act = wd.now;
    let mut i = 0;
    let mut budget = 200;
    while i < n {
        let c = &mut wd.net.conns[id];
        let k = if l.seg == 0 || budget == 0 { n - i } else { c.rng.logu(1, l.seg) as usize };
        let k = k.min(n - i);
        budget -= 1;
        let d = c.rng.range(l.lat_lo, l.lat_hi);
        let t = (wd.now + d).max(c.t_peer);
        c.t_peer = t;
        wd.at(t, Ev::ToPeer(id, k));
        i += k;
    }
    n as i64
}
pub fn ev_to_peer(id: usize, n: usize) {
    let wd = w();
    let c = &mut wd.net.conns[id];
    if c.gone || c.rst {
        return;
    }
    let n = n.min(c.tx.len());
    let b: Vec<u8> = c.tx.drain(..n).collect();
    let wake = c.want_write;
    c.want_write = false;
    w().lg(34, (id as u64) << 32 | n as u64);
    if c.peer_closed {
        // the peer is gone: it answers data with a reset
        c.t_app = c.t_app.max(wd.now);
        let t = c.t_app + 10_000;
        wd.at(t, Ev::ToAppEnd(id, true));
        return;
    }
    c.peer_buf.extend_from_slice(&b);
    let peer = c.peer;
    if wake {
        notify_conn(id);
    }
    match peer {
        Peer::Node => crate::node::on_data(id),
        Peer::Client(k) => crate::client::on_data(k, id),
    }
}
pub fn ev_peer_end(id: usize, rst: bool) {
    let wd = w();
    wd.net.conns[id].gone |= rst;
    if wd.net.conns[id].peer_closed {
        return;
    }
    match wd.net.conns[id].peer {
        Peer::Node => {
            wd.net.conns[id].peer_closed = true;
        }
        Peer::Client(k) => crate::client::on_end(k, id, rst),
    }
}
pub fn recv(id: usize, buf: &mut [u8]) -> i64 {
    let wd = w();
    let c = &mut wd.net.conns[id];
    match c.state {
        CState::Connecting => return -libc::EAGAIN as i64,
        CState::Refused => return -libc::ECONNREFUSED as i64,
        _ => {}
    }
    if c.rst {
        let e = c.so_error;
        c.so_error = 0;
        return if e != 0 { -e as i64 } else { 0 };
    }
    if c.rx.is_empty() {
        return if c.rx_fin { 0 } else { -libc::EAGAIN as i64 };
    }
    let n = buf.len().min(c.rx.len());
    for (i, b) in c.rx.drain(..n).enumerate() {
        buf[i] = b;
    }
    n as i64
}
pub fn shutdown_write(id: usize) {
    let l = link(id);
    let wd = w();
    let c = &mut wd.net.conns[id];
    if c.app_shut || c.rst || c.gone {
        return;
    }
    c.app_shut = true;
    let t = (wd.now + c.rng.range(l.lat_lo, l.lat_hi)).max(c.t_peer);
    c.t_peer = t;
    wd.at(t, Ev::PeerEnd(id, false));
}
fn app_close(id: usize) {
    let c = &mut w().net.conns[id];
    c.desc = None;
    c.app_closed = true;
    if c.state != CState::Open {
        c.gone = true;
        return;
    }
    if !c.rx.is_empty() {
        reset_by_app(id);
    } else {
        shutdown_write(id);
    }
}
fn reset_by_app(id: usize) {
    let wd = w();
    let c = &mut wd.net.conns[id];
    if c.gone {
        return;
    }
    c.app_closed = true;
    c.desc = None;
    let t = c.t_peer.max(wd.now + 10_000);
    wd.at(t, Ev::PeerEnd(id, true));
}
/// The application's process is gone: its descriptors close, peers of its connections see resets.
pub fn process_died() {
    let wd = w();
    wd.net.fds.clear();
    wd.net.descs.clear();
    for id in 0..wd.net.conns.len() {
        let c = &mut wd.net.conns[id];
        c.desc = None;
        if !c.gone && !c.app_closed {
            c.app_closed = true;
            if c.state == CState::Open && !c.peer_closed {
                ev_peer_end(id, true);
            }
            w().net.conns[id].gone = true;
        }
    }
}
pub fn open_inodes() -> Vec<usize> {
    w().net.descs.iter().flatten().filter_map(|d| match &d.kind {
        Kind::File { ino, .. } | Kind::Dir { ino } => Some(*ino),
        _ => None,
    }).collect()
}
pub fn accept(i: usize) -> Result<usize, i32> {
    let wd = w();
    if let Some(e) = wd.net.accept_fail.pop() {
        wd.stat("fault.accept_error", 1);
        // the server waits for a second before it accepts again
        let now = wd.now;
        wd.sched.stalls.push((now, now + 600 * MS));
        wd.stall_total += 600 * MS;
        return Err(e);
    }
    let Kind::Listener { queue, .. } = &mut desc(i).kind else { return Err(libc::EINVAL) };
    match queue.pop_front() {
        Some(c) => Ok(c),
        None => Err(libc::EAGAIN),
    }
}
