//! Operations of a scenario (what the environment does and which faults are injected), and the end game of a run.
use crate::json::J;
use crate::net;
use crate::node::RpcFault;
use crate::oracle;
use crate::rng::{hash2, Rng};
use crate::vfs::Fault;
use crate::world::*;

pub fn exec(i: usize) {
    let wd = w();
    if wd.ops[i].done {
        return;
    }
    wd.ops[i].done = true;
    let j = wd.ops[i].j.clone();
    apply(&j);
}
fn errno(s: &str) -> i32 {
    match s {
        "EIO" => libc::EIO,
        "ENOSPC" => libc::ENOSPC,
        "EMFILE" => libc::EMFILE,
        "ENFILE" => libc::ENFILE,
        "EACCES" => libc::EACCES,
        "EROFS" => libc::EROFS,
        "EDQUOT" => libc::EDQUOT,
        "ECONNABORTED" => libc::ECONNABORTED,
        "EINTR" => libc::EINTR,
        "ENOMEM" => libc::ENOMEM,
        "EPERM" => libc::EPERM,
        "EAGAIN" => libc::EAGAIN,
        "EPIPE" => libc::EPIPE,
        _ => libc::EIO,
    }
}
/// Once more after a while, if any rounds are left.
fn again(j: &J, rng: &mut Rng) {
    let wd = w();
    let left = j.u("rounds", 0);
    if left > 0 {
        let mut x = j.clone();
        if let crate::json::J::Obj(v) = &mut x {
            for f in v.iter_mut() {
                if f.0 == "rounds" {
                    f.1 = crate::json::n(left - 1);
                } else if f.0 == "seed" {
                    f.1 = crate::json::n(rng.seed());
                }
            }
            v.retain(|f| f.0 != "t" && f.0 != "trig");
        }
        let d = j.u("every", 100) * MS;
        wd.node.churns.push(x);
        let i = wd.node.churns.len() - 1;
        wd.after(d, Ev::Again(i));
    }
}
pub fn apply(j: &J) {
    let wd = w();
    let k = j.s("k");
    let mut rng = Rng::new(j.u("seed", 1));
    wd.lg(90, fnv(k.as_bytes()));
    wd.stat(&format!("op.{}", k), 1);
    match k.as_str() {
        "mine" => {
            let n = j.u("n", 1);
            for _ in 0..n {
                wd.node.mine(&mut rng, j.u("txs", 2), j.u("mp", 60), j.b("conflict"), true);
            }
            let h = wd.node.height();
            wd.note(format!("node mines {} block(s), height {}", n, h));
        }
        "reorg" => {
            let max = wd.cfg.conf.saturating_sub(1);
            let d = j.u("depth", 1).min(max);
            if d == 0 {
                return;
            }
            wd.node.reorg(&mut rng, d as usize, j.u("extra", 1).max(1) as usize, j.u("txs", 2), j.u("same", 50));
            let h = wd.node.height();
            wd.note(format!("node reorganises {} deep, height {}", d, h));
            wd.stat("fault.reorg", 1);
            wd.res.reorged = true;
        }
        "mpadd" => wd.node.mempool_add(&mut rng, j.u("n", 1), j.u("chain", 50)),
        "mprepl" => wd.node.mempool_replace(&mut rng),
        "mpevict" => {
            wd.node.mempool_evict(&mut rng, j.u("n", 1));
            wd.stat("fault.mempool_evict", 1);
        }
        "stream" => crate::client::stream(j),
        "bad" => crate::client::bad(j),
        "clock" => {
            let s = j.get("step").and_then(|x| x.i64()).unwrap_or(0);
            wd.wall_off = wd.wall_off.saturating_add(s);
            wd.note(format!("wall clock stepped by {} ms", s / 1_000_000));
            wd.stat(if s < 0 { "fault.clock_back" } else { "fault.clock_forward" }, 1);
        }
        "io" => {
            wd.vfs.faults.push(Fault {
                op: j.s("op"),
                class: j.s("class"),
                skip: j.u("skip", 0),
                count: j.u("count", 1),
                errno: errno(&j.s("errno")),
                part: j.u("part", 0),
            });
        }
        "mark" => crate::res::mark(),
        "mpclear" => wd.node.mempool_evict(&mut rng, 1000),
        "churn" => {
            // mempool transactions come and go
            for _ in 0..j.u("n", 1) {
                wd.node.mempool_add(&mut rng, 1 + j.u("add", 3), 50);
                let n = j.u("add", 3);
                wd.node.mempool_evict(&mut rng, n);
            }
            again(j, &mut rng);
        }
        "blocks" => {
            // with "fan", to ever new addresses, each of which has spent everything one block later
            let mut inc = Vec::new();
            if j.u("fan", 0) > 0 {
                let u = wd.node.blocks[wd.node.tip].utxo.clone();
                let mut from: Vec<_> = wd.node.fan.iter().filter(|o| u.contains_key(o)).copied().collect();
                if from.is_empty() {
                    from.extend(u.keys().next().copied());
                }
                if !from.is_empty() {
                    let t = std::rc::Rc::new(crate::chain::fan(&mut rng, &from, j.u("fan", 0)));
                    wd.node.fan = (0..j.u("fan", 0) as u32).map(|k| (t.id, k)).collect();
                    inc.push(t);
                }
            }
            let b = wd.node.make_block(&mut rng, Some(wd.node.tip), &inc, 0);
            wd.node.set_tip(b, false);
            wd.res.mined += 1;
            again(j, &mut rng);
        }
        "pause" => crate::sched::pause_in(j.u("edges", 1), j.get("sel").map(|_| j.u("sel", 0)), j.u("stall", 0) * US),
        "mcrowd" => {
            let mut rng = crate::rng::Rng::new(j.u("seed", 1));
            w().node.mempool_crowd(&mut rng, j.u("n", 1));
        }
        "late" => crate::sched::late_in(j.u("n", 1), j.u("max", 1), j.u("stall", 0) * US),
        "rare" => crate::sched::rare_in(j.u("n", 1), j.u("max", 1), j.b("hot"), j.u("stall", 0) * US),
        "crawl" => crate::sched::crawl(j.u("every", 1), j.u("count", 1), j.u("stall", 0) * US),
        "slowio" => wd.vfs.delays.push((j.s("op"), j.s("class"), j.u("skip", 0), j.u("ms", 1) * MS)),
        "shortio" => {
            wd.vfs.short_pm = j.u("short", 0);
            wd.vfs.eintr_pm = j.u("eintr", 0);
        }
        "rpc" => {
            wd.node.faults.push(RpcFault { method: j.s("method"), skip: j.u("skip", 0), kind: j.s("kind"), arg: j.u("arg", 0) });
        }
        "diskslow" => {
            wd.vfs.slow = Some((j.u("op", 1) * US, j.u("kb", 1) * US));
            wd.note("disk slow".into());
            let ms = j.u("ms", 1000);
            wd.after(ms * MS, Ev::DiskOk);
        }
        "diskfull" => {
            let u = wd.vfs.used_now();
            wd.vfs.space = Some(u + j.u("room", 0));
            wd.note("disk full".into());
            let ms = j.u("ms", 1000);
            wd.after(ms * MS, Ev::DiskOk);
        }
        "nodeslow" => {
            wd.node.slow = Some(j.u("us", 1000) * US);
            wd.note(format!("node slow: {} us per answer", j.u("us", 1000)));
            let ms = j.u("ms", 1000);
            wd.after(ms * MS, Ev::RpcFast);
        }
        "partition" => {
            // the node cannot be reached for a while; what was sent arrives when it can be again
            let d = j.u("ms", 1000) * MS;
            wd.node.cut = wd.node.cut.max(wd.now + d);
            wd.node.slow_ns += d;
            wd.busy(d);
            wd.note(format!("node unreachable for {} ms", d / MS));
            wd.stat("fault.partition", 1);
            net::hold();
        }
        "nodedown" => {
            wd.node.down = true;
            wd.excuse("node-down");
            wd.note("node down".into());
            wd.stat("fault.node_down", 1);
            for c in 0..wd.net.conns.len() {
                if w().net.conns[c].peer == net::Peer::Node {
                    net::peer_close(c, true);
                }
            }
            let ms = j.u("ms", 1000);
            w().after(ms * MS, Ev::NodeUp);
        }
        "idleclose" => {
            let now = wd.now;
            let iv = wd.cfg.interval_ns();
            let mut n = 0;
            if wd.node.cut > now {
                return;
            }
            for c in 0..wd.net.conns.len() {
                let x = &w().net.conns[c];
                let idle = now - x.last_act.min(now);
                if x.peer == net::Peer::Node
                    && x.state == net::CState::Open
                    && !x.node_busy
                    && x.t_app < now
                    && x.node_reqs > 0
                    && !x.peer_closed
                    && !x.app_closed
                    && x.tx.is_empty()
                    && x.peer_buf.is_empty()
                    && idle * 10 > iv * 2
                    && idle * 10 < iv * 7
                {
                    net::peer_close_now(c);
                    n += 1;
                }
            }
            if n > 0 {
                w().stat("fault.idle_close", n);
                w().note("node closes idle connections".into());
            }
        }
        "badenv" => wd.badenv.push_back(j.get("vars").cloned().unwrap_or(J::Null)),
        "bindfail" => wd.net.bind_fail = j.u("n", 1) as u32,
        "acceptfail" => {
            for _ in 0..j.u("n", 1) {
                wd.net.accept_fail.push(errno(&j.s("errno")));
            }
        }
        "fdlimit" => {
            let have = wd.net.fds.len() as u64;
            wd.vfs.fd_limit = have + j.u("room", 0);
            wd.note("descriptors run out".into());
            wd.excuse("no-descriptors");
            let ms = j.u("ms", 1000);
            wd.after(ms * MS, Ev::FdsFree);
        }
        "rmblocks" => {
            if wd.or.opened_ever {
                wd.vfs.clear_dir(crate::vfs::BLOCKS);
                wd.node.append = false;
                wd.note("block files removed".into());
            }
        }
        "syncdisk" => wd.vfs.sync_all(),
        "kill" => kill(j, &mut rng),
        _ => {}
    }
}

fn kill(j: &J, rng: &mut Rng) {
    let wd = w();
    if wd.proc == Proc::Down || !app() {
        return;
    }
    let power = j.s("mode") == "power";
    if let Some((ino, pos, b)) = wd.vfs.cur_write.take() {
        // the crash hits in the middle of a write
        let n = match rng.below(4) {
            0 => 0,
            1 => b.len() as u64,
            _ => rng.below(b.len() as u64 + 1),
        };
        if n > 0 {
            wd.vfs.do_write(ino, pos, &b[..n as usize]);
        }
        wd.stat("fault.crash_in_write", 1);
    }
    if power {
        wd.vfs.power_loss(rng);
        wd.stat("fault.power_loss", 1);
    } else {
        wd.stat("fault.kill", 1);
    }
    wd.note(format!("process {} (incarnation {})", if power { "loses power" } else { "killed" }, wd.inc));
    oracle::process_end(power);
    let wd = w();
    if let Some(c) = j.get("cfg") {
        wd.cfg.merge(c);
        wd.stat("fault.config_change", 1);
    }
    wd.proc = Proc::Down;
    let d = j.u("down", 100);
    wd.after(d * MS, Ev::Start);
    if let Some(ops) = j.get("while_down").and_then(|x| x.arr()) {
        for o in ops.clone() {
            apply(&o);
        }
    }
    crate::driver::leave(crate::driver::X_KILL);
}
pub fn node_up() {
    let wd = w();
    wd.node.down = false;
    wd.node.last_rpc = wd.now;
    wd.note("node up".into());
}

/// How long the system may take to settle once nothing happens any more.
fn settle() -> u64 {
    let wd = w();
    let l = &wd.net.node_link;
    let per = wd.node.lat.1 + 2 * l.lat_hi + 400 * l.gap;
    20 * wd.cfg.interval_ns() + 2 * SEC + 200 * per + wd.node.slow_ns.min(600 * SEC) + wd.node.silent_ns + 2 * wd.stall_total.min(600 * SEC)
}

pub fn phase(p: u32) {
    let wd = w();
    match p {
        // the scenario's operations are over: heal everything
        0 => {
            wd.note("faults heal; the run settles".into());
            wd.armed.clear();
            wd.vfs.faults.clear();
            wd.vfs.delays.clear();
            wd.vfs.slow = None;
            wd.vfs.space = None;
            wd.vfs.fd_limit = 0;
            wd.vfs.short_pm = 0;
            wd.vfs.eintr_pm = 0;
            wd.net.bind_fail = 0;
            wd.net.accept_fail.clear();
            wd.node.faults.clear();
            wd.node.slow = None;
            if wd.node.down {
                node_up();
            }
            let wd = w();
            wd.sched.preempts.clear();
            wd.sched.crawl = None;
            wd.sched.late = None;
            crate::sched::rare_off();
            crate::sched::recompute();
            crate::client::quiesce();
            let wd = w();
            wd.phase_t = wd.now;
            wd.after(0, Ev::Phase(1));
        }
        // wait until the API is open
        1 => {
            let wd = w();
            if wd.proc == Proc::Up && wd.or.open_t.is_some() {
                // one more block, so that a snapshot of everything before becomes due
                // (not always if the chain has grown since the API opened: then one is due anyway)
                let open = wd.or.open_t.unwrap();
                let top = |b: usize| wd.node.blocks[b].height;
                let grown = wd.node.hist.iter().rev().find(|h| h.0 <= open).map(|h| top(wd.node.tip) > top(h.1)).unwrap_or(false);
                let skip = grown && hash2(wd.scn.u("seed", 1), 77 + wd.inc as u64) % 10 < 7;
                if wd.scn.b("resume") && skip {
                    wd.stat("resume.no_block", (wd.resume_mined != wd.inc) as u64);
                    wd.resume_mined = wd.inc;
                }
                if wd.scn.b("resume") && wd.resume_mined != wd.inc {
                    wd.resume_mined = wd.inc;
                    let d = 3 * wd.cfg.interval_ns() / 2 + 20 * MS;
                    wd.after(d, Ev::Phase(4));
                    return;
                }
                wd.phase_t = wd.now;
                wd.after(0, Ev::Phase(5));
                return;
            }
            let bound = 90 * SEC + wd.disk_slow_ns.min(600 * SEC) + wd.node.slow_ns.min(600 * SEC) + 4 * wd.stall_total.min(600 * SEC) + settle();
            if wd.now > wd.phase_t + bound {
                let s = wd.proc;
                wd.violate("not-up", format!("the API has not opened {} s after the last fault (process {:?})", (wd.now - wd.phase_t) / SEC, s));
                return;
            }
            wd.after(100 * MS, Ev::Phase(1));
        }
        // let it settle: until it has polled a few times since anything last happened, or a generous time has passed
        5 => {
            let iv = wd.cfg.interval_ns();
            let since = wd.phase_t.max(wd.node.quiet_since).max(wd.busy_until) + iv;
            let polls = wd.node.polls.iter().rev().take_while(|t| **t > since).count();
            if wd.proc == Proc::Up && polls < 5 && wd.now > since + settle() {
                wd.violate("poll-slow", format!("only {} polls in {} ms of quiet time (interval {} ms)", polls, (wd.now - since) / MS, wd.cfg.interval));
                return;
            }
            if polls >= 7 || wd.now > since + settle() || wd.proc != Proc::Up {
                let d = iv / 2;
                wd.after(d, Ev::Phase(2));
            } else {
                let d = (iv / 2).max(10 * MS);
                wd.after(d, Ev::Phase(5));
            }
        }
        4 => {
            let mut rng = Rng::new(wd.seq);
            wd.node.mine(&mut rng, 2, 60, false, true);
            wd.note("node mines a last block".into());
            wd.after(0, Ev::Phase(1));
        }
        2 => {
            if wd.proc != Proc::Up {
                // it died meanwhile (for an excused reason, or the run would have ended)
                wd.phase_t = wd.now;
                wd.after(0, Ev::Phase(1));
                return;
            }
            crate::res::settled();
            crate::client::finals();
            let wd = w();
            let t = wd.now + 30 * SEC;
            wd.fin_round += 1;
            let r = wd.fin_round;
            wd.at(t, Ev::Phase(1000 + r));
        }
        3 => {
            // all final answers are in and right
            wd.stat("finale.rounds", 1);
            let n = wd.finale_at;
            let fin = wd.scn.get("finale").and_then(|f| f.arr()).cloned().unwrap_or_default();
            if n >= fin.len() {
                wd.finished = true;
                wd.completed = true;
                return;
            }
            wd.finale_at += 1;
            let f = fin[n].clone();
            let height = wd.node.height() + 1;
            let conf = wd.cfg.conf as usize;
            if f.s("mode") != "power" && wd.scn.b("resume") && wd.resume_mined == wd.inc && !f.b("newfaults") {
                let first = (height + 1).saturating_sub(conf); // blocks in the snapshot
                wd.or.want_low = Some(first);
            }
            wd.phase_t = wd.now;
            wd.after(MS, Ev::Phase(1));
            let mut rng = Rng::new(wd.seq);
            kill(&f, &mut rng);
        }
        x if x >= 1000 => {
            if wd.fin_round == x - 1000 && wd.cl.fin_left > 0 && !wd.finished {
                if wd.proc != Proc::Up {
                    crate::client::drop_finals();
                    let wd = w();
                    wd.phase_t = wd.now;
                    wd.after(0, Ev::Phase(1));
                    return;
                }
                let n = wd.cl.fin_left;
                wd.violate("unanswered", format!("{} final questions have had no answer for 30 s", n));
            }
        }
        _ => {}
    }
}
