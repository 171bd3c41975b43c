//! The process tree of a worker: worker -> one process per run (the simulated world's keeper) -> one process per incarnation
//! of the application. Jobs come as JSON lines on standard input, results leave on standard output.
use crate::alloc;
use crate::client::Clients;
use crate::json::{n, st, J};
use crate::net::{Link, Net};
use crate::node::Node;
use crate::obj;
use crate::oracle::{self, Oracle};
use crate::rng::{hash2, Rng};
use crate::sched::{self, Preempt, Sched};
use crate::sys::{self, sc3, sc6};
use crate::vfs::Vfs;
use crate::world::*;
use std::collections::BTreeMap;

pub const X_KILL: i32 = 70;
pub const X_DONE: i32 = 71;
pub const X_CPU: i32 = 72;
const COV_MAX: usize = 1 << 20;
const STATE_BITS: usize = 1 << 20;

static mut GUARD0: *mut u32 = std::ptr::null_mut();
static mut NGUARD: usize = 0;
static mut PCS: *const usize = std::ptr::null();
static mut NPC: usize = 0;
static mut APP_L: Vec<u32> = Vec::new();
static mut HOT_L: Vec<u32> = Vec::new();
/// Code of the HTTP library that hands a request to its connection: if a thread is held up there while the connection
/// closes, the request is lost without any notice (tokio 1.20 mpsc).
static mut HANDOVER: Vec<(usize, usize)> = Vec::new();
pub fn in_handover(frame: *const usize, depth: usize) -> bool {
    #[allow(static_mut_refs)]
    unsafe {
        (0..depth).any(|i| {
            let a = frame.add(i).read_volatile();
            HANDOVER.iter().any(|(lo, hi)| a > *lo && a < *hi)
        })
    }
}
static mut STATES: *mut u8 = std::ptr::null_mut();
static mut APP_TOTAL: usize = 0;

pub unsafe fn guards(a: *mut u32, b: *mut u32) {
    if a == b || *a != 0 {
        return;
    }
    let cnt = b.offset_from(a) as usize;
    for i in 0..cnt {
        NGUARD += 1;
        *a.add(i) = NGUARD as u32;
    }
    if GUARD0.is_null() {
        GUARD0 = a;
    }
}
pub unsafe fn pcs(a: *const usize, b: *const usize) {
    if PCS.is_null() {
        PCS = a;
        NPC = b.offset_from(a) as usize / 2;
    }
}
#[allow(static_mut_refs)]
pub fn lists() -> (usize, &'static [u32], &'static [u32]) {
    unsafe { (NGUARD + 1, &APP_L, &HOT_L) }
}
pub fn state_bit(h: u64) -> u64 {
    unsafe {
        let i = (h as usize) & (STATE_BITS - 1);
        let p = STATES.add(i / 8);
        if *p & (1 << (i % 8)) == 0 {
            *p |= 1 << (i % 8);
            1
        } else {
            0
        }
    }
}
pub fn leave(code: i32) -> ! {
    let (wd, c) = (w(), unsafe { sched::CALLS });
    let o = wd.stats.get("max.system_calls").copied().unwrap_or(0);
    wd.stats.insert("max.system_calls".into(), o.max(c));
    sys::exit_group(code)
}
pub fn request_start() {
    let wd = w();
    if wd.proc == Proc::Down {
        wd.want_start = true;
    }
}

/// Which guards belong to the application's own code: by symbol name.
#[allow(static_mut_refs)]
unsafe fn find_app_edges() {
    let Some(elf) = sys::read_file("/proc/self/exe") else { return };
    let u16_ = |o: usize| u16::from_le_bytes(elf[o..o + 2].try_into().unwrap()) as usize;
    let u32_ = |o: usize| u32::from_le_bytes(elf[o..o + 4].try_into().unwrap()) as usize;
    let u64_ = |o: usize| u64::from_le_bytes(elf[o..o + 8].try_into().unwrap()) as usize;
    let (shoff, shsz, shn) = (u64_(0x28), u16_(0x3a), u16_(0x3c));
    let mut syms: Vec<(usize, usize, u8)> = Vec::new();
    for i in 0..shn {
        let s = shoff + i * shsz;
        if u32_(s + 4) != 2 {
            continue;
        }
        let (off, size, link) = (u64_(s + 0x18), u64_(s + 0x20), u32_(s + 0x28));
        let stro = u64_(shoff + link * shsz + 0x18);
        for k in 0..size / 24 {
            let e = off + k * 24;
            if elf[e + 4] & 15 != 2 {
                continue;
            }
            let no = stro + u32_(e);
            let end = elf[no..].iter().position(|b| *b == 0).unwrap() + no;
            let name = String::from_utf8_lossy(&elf[no..end]);
            let app = name.contains("bitcoin_indexer");
            let hot = app && (name.contains("5state") || name.contains("State") || name.contains("last_blocks") || name.contains("8executor") || name.contains("thread_pool") || name.contains("4main"));
            if name.contains("6client8dispatch") && (name.contains("4chan") && name.contains("2Tx") && name.contains("4send") || name.contains("8try_send") || name.contains("15UnboundedSender") && name.contains("4send")) {
                HANDOVER.push((u64_(e + 8), u64_(e + 8) + u64_(e + 16)));
            }
            syms.push((u64_(e + 8), u64_(e + 16), app as u8 | (hot as u8) << 1));
        }
    }
    syms.sort();
    let phdr = libc::getauxval(libc::AT_PHDR) as usize;
    let base = phdr - u64_(0x20);
    for r in HANDOVER.iter_mut() {
        *r = (r.0 + base, r.1 + base);
    }
    for i in 0..NPC.min(NGUARD) {
        let pc = (*PCS.add(i * 2)).wrapping_sub(base);
        let k = syms.partition_point(|s| s.0 <= pc);
        if k == 0 {
            continue;
        }
        let s = syms[k - 1];
        if pc < s.0 + s.1 && s.2 & 1 != 0 {
            let g = i + 1;
            *sched::EDGE_APP.add(g) = 1;
            APP_L.push(g as u32);
            if s.2 & 2 != 0 {
                HOT_L.push(g as u32);
                *sched::EDGE_APP.add(g) |= 8;
            }
        }
    }
    APP_TOTAL = APP_L.len();
}

fn read_line(buf: &mut Vec<u8>) -> Option<Vec<u8>> {
    loop {
        if let Some(p) = buf.iter().position(|b| *b == b'\n') {
            let rest = buf.split_off(p + 1);
            let mut l = std::mem::replace(buf, rest);
            l.pop();
            return Some(l);
        }
        let mut t = [0u8; 65536];
        let r = unsafe { sc3(libc::SYS_read, 0, t.as_mut_ptr() as i64, t.len() as i64) };
        if r <= 0 {
            return None;
        }
        buf.extend_from_slice(&t[..r as usize]);
    }
}

/// Runs before the application's `main`. Returns only in an incarnation of the application.
pub unsafe fn serve() {
    if libc::getenv(b"VSIM_JOBS\0".as_ptr() as *const _).is_null() {
        return;
    }
    // no address randomisation: re-execute once
    let pers = sc3(libc::SYS_personality, 0xffffffff, 0, 0);
    if pers >= 0 && pers & 0x0040000 == 0 && libc::getenv(b"VSIM_NR\0".as_ptr() as *const _).is_null() {
        if sc3(libc::SYS_personality, pers | 0x0040000, 0, 0) >= 0 {
            libc::setenv(b"VSIM_NR\0".as_ptr() as *const _, b"1\0".as_ptr() as *const _, 1);
            let argv = [b"indexer\0".as_ptr() as *const libc::c_char, std::ptr::null()];
            libc::execv(b"/proc/self/exe\0".as_ptr() as *const _, argv.as_ptr());
        }
    }
    sys::resolve();
    std::panic::set_hook(Box::new(|i| {
        let m = format!("sim panic: {}\n", i);
        sys::write_all(2, m.as_bytes());
        if !W.is_null() {
            w().app_err.extend_from_slice(m.as_bytes());
        }
        sys::exit_group(99);
    }));
    sched::make_key();
    libc::mallopt(-8, 1); // M_ARENA_MAX
    sched::EDGE_APP = alloc::shared_bytes(COV_MAX);
    sched::COV = alloc::shared_bytes(COV_MAX);
    sched::PASSED = alloc::shared_bytes(COV_MAX);
    STATES = alloc::shared_bytes(STATE_BITS / 8);
    if NGUARD + 2 > COV_MAX {
        sys::write_all(2, b"sim: too many edges\n");
        sys::exit_group(99);
    }
    find_app_edges();
    alloc::prepare();
    let mut buf = Vec::new();
    sys::write_all(1, format!("{}\n", obj! {"ready" => n(NGUARD as u64), "app_edges" => n(APP_TOTAL as u64)}.dump()).as_bytes());
    while let Some(l) = read_line(&mut buf) {
        let Some(j) = J::parse(&l) else { continue };
        if j.b("cov") {
            coverage();
            continue;
        }
        let id = j.u("id", 0);
        let pid = libc::fork();
        if pid == 0 {
            sc3(libc::SYS_prctl, 1, 9, 0); // PR_SET_PDEATHSIG
            libc::alarm(j.u("wall", 120) as u32);
            if run(&l) {
                return; // an incarnation: on to the application's main
            }
            sys::exit_group(0);
        }
        let mut status = 0;
        while libc::waitpid(pid, &mut status, 0) < 0 && sys::errno() == libc::EINTR {}
        if status != 0 {
            let m = obj! {"id" => n(id), "harness" => st(format!("run process ended with wait status {:#x}", status))};
            sys::write_all(1, format!("{}\n", m.dump()).as_bytes());
        }
    }
    sys::exit_group(0);
}
unsafe fn coverage() {
    let hexs = |p: *const u8, n: usize| -> String {
        let mut s = String::with_capacity(n * 2);
        for i in 0..n {
            let b = *p.add(i);
            s.push(char::from_digit((b >> 4) as u32, 16).unwrap());
            s.push(char::from_digit((b & 15) as u32, 16).unwrap());
        }
        s
    };
    let mut bits = vec![0u8; (NGUARD + 8) / 8];
    let mut appb = vec![0u8; (NGUARD + 8) / 8];
    for g in 1..=NGUARD {
        if *sched::COV.add(g) != 0 {
            bits[g / 8] |= 1 << (g % 8);
            if *sched::EDGE_APP.add(g) != 0 {
                appb[g / 8] |= 1 << (g % 8);
            }
        }
    }
    let m = obj! {"cov" => st(hexs(bits.as_ptr(), bits.len())), "appcov" => st(hexs(appb.as_ptr(), appb.len())), "states" => st(hexs(STATES, STATE_BITS / 8))};
    sys::write_all(1, format!("{}\n", m.dump()).as_bytes());
}

fn link(j: Option<&J>) -> Link {
    let e = J::Null;
    let j = j.unwrap_or(&e);
    Link {
        lat_lo: j.u("lat_lo", 50) * US,
        lat_hi: j.u("lat_hi", 200) * US,
        seg: j.u("seg", 0),
        gap: j.u("gap", 0) * US,
        sndbuf: j.u("sndbuf", 200_000) as usize,
        accept_delay: 0,
    }
}
/// The world of a scenario at time zero.
fn build(scn: J, trace: bool) {
    let cfg = Cfg::of(scn.get("cfg").unwrap_or(&J::Null));
    let seed = scn.u("seed", 1);
    let sj = scn.get("sched").cloned().unwrap_or(J::Null);
    let mut pre = Vec::new();
    for p in sj.get("preempts").and_then(|x| x.arr()).unwrap_or(&vec![]) {
        pre.push(Preempt {
            inc: p.u("inc", 1) as u32,
            app: p.b("app"),
            at: p.u("at", 1),
            stall: p.u("stall", 0) * US,
            sel: p.get("sel").and_then(|x| x.i64()).map(|x| (p.b("hot"), x as u64)),
            guard: 0,
            seen: 0,
            pause: false,
        });
    }
    let explicit = sj.get("explicit").and_then(|x| x.arr()).map(|a| {
        let mut m = BTreeMap::new();
        for c in a.chunks(2) {
            m.insert(c[0].i64().unwrap_or(0) as u64, c[1].i64().unwrap_or(0) as u64);
        }
        m
    });
    let sched = Sched {
        crawl: None,
        late: None,
            rare: None,
        thr: Vec::new(),
        cur: 0,
        runq: Default::default(),
        rng: Rng::new(hash2(sj.u("seed", 1), 11)),
        explicit,
        idx: 0,
        taken: Vec::new(),
        switch_pm: sj.u("switch", 0),
        wake_pm: sj.u("wake", 0),
        pick_pm: sj.u("pick", 0),
        spur_pm: sj.u("spur", 0),
        preempts: pre,
        hash: 1,
        switches: 0,
        states: 0,
        stalls: Vec::new(),
        slice: sj.u("slice_us", 10_000) * US,
    };
    let net = Net::new(hash2(seed, 12), link(scn.get("node_link")), link(scn.get("client_link")));
    let mut vfs = Vfs::new(hash2(seed, 13));
    vfs.short_pm = scn.u("short_pm", 0);
    vfs.eintr_pm = scn.u("eintr_pm", 0);
    let node = Node::blank(&scn, &cfg, hash2(seed, 14));
    let ops: Vec<OpRec> = scn
        .get("ops")
        .and_then(|x| x.arr())
        .unwrap_or(&vec![])
        .iter()
        .map(|j| OpRec { j: j.clone(), done: false, skip: j.get("trig").map(|t| t.u("skip", 0)).unwrap_or(0) })
        .collect();
    let t_end = ops.iter().map(|o| o.j.u("t", 0)).max().unwrap_or(0) * US + scn.u("tail", 0) * US + 200 * MS;
    let t_end = t_end.max(scn.u("until", 0) * US);
    let nops = ops.len();
    let res_on = scn.s("property") == "C22";
    let world = World {
        now: 0,
        wall_off: 0,
        seq: 0,
        events: BTreeMap::new(),
        cfg,
        prop: scn.s("property"),
        ops,
        armed: Vec::new(),
        t_ops_end: t_end,
        proc: Proc::Down,
        inc: 0,
        start_t: 0,
        finished: false,
        excuse: false,
        excuse_why: String::new(),
        badenv: Default::default(),
        bad: None,
        exits: Vec::new(),
        log: seed,
        log_n: 0,
        trace_on: trace,
        trace: Vec::new(),
        app_out: Vec::new(),
        app_err: Vec::new(),
        violations: Vec::new(),
        stats: BTreeMap::new(),
        stall_total: 0,
        sched,
        net,
        vfs,
        node,
        cl: Clients::new(),
        or: Oracle::new(),
        res: crate::res::Res::new(res_on),
        app_rng: Rng::new(hash2(seed, 15)),
        edges_all: 0,
        sim_end: t_end + 4000 * SEC,
        want_start: false,
        phase_t: 0,
        resume_mined: 0,
        fin_round: 0,
        finale_at: 0,
        completed: false,
        deaths: 0,
        busy_until: 0,
        disk_slow_ns: 0,
        scn,
    };
    unsafe {
        W = Box::into_raw(Box::new(world));
    }
    let wd = w();
    if let Some(p) = wd.scn.get("prompt_ms").and_then(|x| x.i64()) {
        wd.or.prompt = p as u64 * MS;
    }
    crate::node::setup();
    let wd = w();
    if wd.cfg.paths % 2 == 1 {
        wd.vfs.mkdir_setup("/data/in dex.d");
    }
    for i in 0..nops {
        let t = wd.ops[i].j.u("t", 0) * US;
        if t == 0 && wd.ops[i].j.b("pre") {
            crate::ops::exec(i);
        } else {
            wd.at(t, Ev::Op(i));
        }
    }
    wd.at(0, Ev::Start);
    wd.at(t_end, Ev::Phase(0));
    wd.at(500 * MS, Ev::Check(0));
}

unsafe fn set(k: &str, v: &str) {
    let k = format!("{}\0", k);
    let v = format!("{}\0", v);
    libc::setenv(k.as_ptr() as *const _, v.as_ptr() as *const _, 1);
}
unsafe fn environment() {
    let c = w().cfg.clone();
    let nd = &w().node;
    libc::clearenv();
    set("THREADS", &c.threads.to_string());
    set("BATCH_SIZE", &c.batch.to_string());
    let (sp, bp) = match c.paths {
        0 => ("/data/store.bin", "/blocks"),
        1 => ("/data/../data/in dex.d/\u{e9}=%s.x", "/blocks/"),
        2 => ("data/store", "./blocks"),
        4 => ("store.bin", "../blocks"),
        _ => ("/data/in dex.d/a.tmp", "//blocks/."),
    };
    set("STORE_FILE_PATH", sp);
    set("BLOCK_FILES_PATH", bp);
    set("RPC_SERVER_PORT", &nd.port.to_string());
    set("RPC_SERVER_USER", &c.user);
    set("RPC_SERVER_PASSWORD", &c.pass);
    set("RPC_SERVER_HOST", match c.host_name { 0 => "10.0.0.7", 3 => "127.0.0.1", 4 => "localhost", _ => "node.example" });
    if !(c.defaults && c.interval == 1000) {
        set("UPDATE_INTERVAL", &c.interval.to_string());
    }
    if !(c.defaults && c.conf == 6) {
        set("CONFIRMATIONS", &c.conf.to_string());
    }
    if !c.defaults || c.listen != 0 {
        set("HOST", if c.listen == 0 { "127.0.0.1" } else { "0.0.0.0" });
        set("PORT", &c.port.to_string());
    }
    if let Some(b) = w().badenv.front() {
        for v in b.arr().unwrap_or(&vec![]) {
            let l = v.arr().unwrap();
            let k = l[0].str().unwrap_or("").to_string();
            match l[1].str() {
                Some("\u{fffd}") => {
                    // not UTF-8
                    let k = format!("{}\0", k);
                    libc::setenv(k.as_ptr() as *const _, b"\xff\xfe1\0".as_ptr() as *const _, 1);
                }
                Some(x) => set(&k, x),
                None => {
                    let k = format!("{}\0", k);
                    libc::unsetenv(k.as_ptr() as *const _);
                }
            }
        }
    }
}
fn limit(r: i64, v: u64) {
    let l = [v, v];
    unsafe { sc6(libc::SYS_setrlimit, r, l.as_ptr() as i64, 0, 0, 0, 0) };
}

/// One run. Returns true in an incarnation of the application (whose `main` must run next).
unsafe fn run(line: &[u8]) -> bool {
    let t0 = sys::real_now_ns();
    alloc::fresh();
    // never dropped: the application process returns from here, and shares this memory
    let job: &J = Box::leak(Box::new(J::parse(line).unwrap()));
    let scn = match job.get("scn") {
        Some(s) => s.clone(),
        None => crate::scen::generate(&job.s("prop"), job.u("seed", 1), job.u("deep", 0)),
    };
    if job.b("dry") {
        let m = obj! {"id" => n(job.u("id", 0)), "scn" => scn};
        sys::write_all(1, format!("{}\n", m.dump()).as_bytes());
        return false;
    }
    build(scn, job.b("trace"));
    let mut harness: Option<String> = None;
    loop {
        // no process: the rest of the world goes on
        loop {
            let wd = w();
            if wd.finished || wd.want_start {
                break;
            }
            match wd.events.keys().next() {
                Some(k) => {
                    wd.now = wd.now.max(k.0);
                    if wd.now > wd.sim_end {
                        wd.violate("sim-timeout", "simulated time ran out before the scenario ended".into());
                        break;
                    }
                    run_due();
                }
                None => {
                    wd.violate("deadlock", "no process and no event is pending".into());
                    break;
                }
            }
        }
        let wd = w();
        if wd.finished {
            break;
        }
        wd.want_start = false;
        wd.inc += 1;
        wd.excuse = false;
        wd.excuse_why.clear();
        wd.proc = Proc::Starting;
        wd.start_t = wd.now;
        wd.node.polls.clear();
        wd.node.low_block = None;
        wd.node.low_ask = None;
        if wd.inc > 1 && !wd.or.opened_ever {
            // nothing but the block files to start from: they hold what the node has
            let mut rng = Rng::new(hash2(wd.seq, 77));
            wd.node.flush_file(&mut rng);
        }
        let wd = w();
        wd.node.last_rpc = wd.now;
        wd.vfs.blk_opens = 0;
        wd.vfs.cur_write = None;
        wd.app_err.clear();
        wd.bad = None;
        if let Some(b) = wd.badenv.front() {
            wd.bad = Some(b.dump());
            wd.excuse("bad-config");
            wd.stat("fault.bad_config", 1);
            let i = wd.inc;
            wd.after(10 * SEC, Ev::BadCheck(i));
        }
        if wd.node.down {
            wd.excuse("node-down");
        }
        if wd.vfs.fd_limit > 0 {
            wd.excuse("no-descriptors");
        }
        oracle::process_start();
        crate::res::process_start();
        let wd = w();
        wd.note(format!("process starts (incarnation {}, {:?})", wd.inc, wd.cfg));
        wd.stat("incarnations", 1);
        let pid = libc::fork();
        if pid == 0 {
            sc3(libc::SYS_prctl, 1, 9, 0);
            limit(0, 100); // RLIMIT_CPU
            limit(4, 0); // no core files
            environment();
            sched::reset_for_process();
            sched::watch_hung();
            APP = true;
            return true;
        }
        let mut status = 0;
        while libc::waitpid(pid, &mut status, 0) < 0 && sys::errno() == libc::EINTR {}
        let wd = w();
        wd.sched.thr.clear();
        wd.sched.runq.clear();
        wd.events.retain(|_, e| !matches!(e, Ev::Wake(..) | Ev::Unstall(_)));
        let code = if libc::WIFEXITED(status) { libc::WEXITSTATUS(status) } else { 1000 + libc::WTERMSIG(status) };
        wd.lg(95, code as u64);
        match code {
            X_KILL => {
                crate::net::process_died();
            }
            X_DONE | X_CPU => {
                wd.proc = Proc::Down;
                break;
            }
            98 | 99 => {
                alloc::release_reserve();
                harness = Some(format!("simulator error {} ({})", code, String::from_utf8_lossy(&wd.app_err)));
                break;
            }
            _ => {
                if code == 1000 + libc::SIGKILL || code == 1000 + libc::SIGXCPU || code == 1000 + libc::SIGALRM {
                    harness = Some(format!("application process ended by signal {}", code - 1000));
                    break;
                }
                died(code);
            }
        }
        if w().finished {
            break;
        }
    }
    report(job, harness, t0);
    false
}
fn died(code: i32) {
    let wd = w();
    let tail = {
        let s = String::from_utf8_lossy(&wd.app_err).to_string();
        let l: Vec<&str> = s.lines().filter(|l| !l.starts_with("note:") && !l.is_empty()).collect();
        l[l.len().saturating_sub(6)..].join(" | ").chars().take(500).collect::<String>()
    };
    let what = if code >= 1000 { format!("signal {}", code - 1000) } else { format!("status {}", code) };
    wd.exits.push((wd.inc, what.clone()));
    if wd.bad.take().is_some() {
        wd.badenv.pop_front();
    }
    let why = wd.excuse_why.clone();
    wd.note(format!("process ended with {} [{}] ({})", what, why.trim(), tail));
    let had = wd.proc;
    wd.proc = Proc::Down;
    oracle::process_end(false);
    crate::net::process_died();
    let wd = w();
    wd.deaths += 1;
    wd.stat("excused_exits", wd.excuse as u64);
    if code == 0 {
        wd.violate("exit-0", format!("the process ended with status 0: {}", tail));
    } else if !wd.excuse {
        wd.violate("died", format!("the process ended with {} although nothing had failed ({:?}): {}", what, had, tail));
    } else if wd.deaths > 200 {
        wd.violate("restart-loop", format!("200 restarts: {}", tail));
    }
    wd.after(SEC, Ev::Start);
}

fn report(job: &J, harness: Option<String>, t0: u64) {
    let wd = w();
    let bad = !wd.violations.is_empty();
    let mut m = vec![
        ("id".to_string(), n(job.u("id", 0))),
        ("seed".to_string(), n(wd.scn.u("seed", 0))),
        ("log".to_string(), st(format!("{:016x}", wd.log))),
        ("log_n".to_string(), n(wd.log_n)),
        ("sim_ms".to_string(), n(wd.now / MS)),
        ("real_us".to_string(), n((sys::real_now_ns() - t0) / 1000)),
        ("sched".to_string(), st(format!("{:016x}", wd.sched.hash))),
        ("switches".to_string(), n(wd.sched.switches)),
        ("new_states".to_string(), n(wd.sched.states)),
        ("incs".to_string(), n(wd.inc as u64)),
        ("answers".to_string(), n(wd.cl.answers)),
        ("max_latency_us".to_string(), n(wd.cl.max_latency / US)),
        ("oracle_states".to_string(), n(wd.or.distinct.len() as u64)),
        ("pairs".to_string(), n(wd.or.pairs)),
        ("mem_kb".to_string(), n(alloc::used() as u64 / 1024)),
        ("completed".to_string(), J::Bool(wd.completed)),
        ("tips".to_string(), n(wd.node.hist.len() as u64)),
        ("rpcs".to_string(), n(wd.node.rpcs)),
        ("stats".to_string(), J::Obj(wd.stats.iter().map(|(k, v)| (k.clone(), n(*v))).collect())),
    ];
    if let Some(h) = harness {
        m.push(("harness".into(), st(h)));
    }
    if !bad && !wd.completed && !m.iter().any(|x| x.0 == "harness") {
        m.push(("harness".into(), st("the run ended without reaching its end")));
    }
    if bad {
        m.push((
            "violations".into(),
            J::Arr(wd.violations.iter().map(|v| obj! {"class" => st(v.class.clone()), "detail" => st(v.detail.clone()), "t_us" => n(v.t / US)}).collect()),
        ));
        m.push(("taken".into(), J::Arr(wd.sched.taken.iter().flat_map(|(a, b)| [n(*a), n(*b)]).collect())));
    }
    if bad || job.b("keep") {
        m.push(("scn".into(), wd.scn.clone()));
    }
    if bad || job.b("trace") || m.iter().any(|x| x.0 == "harness") {
        let l = &wd.trace;
        let cut = if job.b("trace") { 20000 } else { 80 };
        m.push(("trace".into(), J::Arr(l[l.len().saturating_sub(cut)..].iter().map(|s| st(s.clone())).collect())));
        let e = String::from_utf8_lossy(&wd.app_err).to_string();
        let mut k = e.len().saturating_sub(3000);
        while !e.is_char_boundary(k) {
            k += 1;
        }
        m.push(("stderr".into(), st(e[k..].to_string())));
    }
    sys::write_all(1, format!("{}\n", J::Obj(m).dump()).as_bytes());
}
