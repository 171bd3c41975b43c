//! Block and transaction model, serialisation, and random content. Independent of the code under test.
use crate::rng::Rng;
use crate::sha;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub type Id = [u8; 32];
pub type Out = (Id, u32);
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Addr(pub u8, pub [u8; 20]);
impl Addr {
    pub fn text(&self) -> String {
        sha::b58check(self.0, &self.1)
    }
    pub fn script(&self) -> Vec<u8> {
        let mut s = Vec::new();
        if self.0 == 0 {
            s.extend_from_slice(&[0x76, 0xa9, 0x14]);
            s.extend_from_slice(&self.1);
            s.extend_from_slice(&[0x88, 0xac]);
        } else {
            s.extend_from_slice(&[0xa9, 0x14]);
            s.extend_from_slice(&self.1);
            s.push(0x87);
        }
        s
    }
}
/// The specification of which scripts pay an address.
pub fn script_addr(s: &[u8]) -> Option<Addr> {
    let mut h = [0u8; 20];
    if s.len() == 25 && s[..3] == [0x76, 0xa9, 0x14] && s[23..] == [0x88, 0xac] {
        h.copy_from_slice(&s[3..23]);
        return Some(Addr(0, h));
    }
    if s.len() == 23 && s[..2] == [0xa9, 0x14] && s[22] == 0x87 {
        h.copy_from_slice(&s[2..22]);
        return Some(Addr(5, h));
    }
    None
}

#[derive(Debug)]
pub struct Tx {
    pub id: Id,
    pub raw: Vec<u8>,
    pub inputs: Vec<Out>,
    pub outs: Vec<(u64, Option<Addr>, bool)>, // value, address, spendable
    pub coinbase: bool,
}
#[derive(Clone, Copy, Debug)]
pub struct Coin {
    pub value: u64,
    pub addr: Option<Addr>,
}
pub type Utxo = BTreeMap<Out, Coin>;
pub type ByAddr = BTreeMap<Addr, Vec<(Out, u64)>>;
pub struct Blk {
    pub hash: Id,
    pub prev: Option<usize>,
    pub height: usize,
    pub raw: Vec<u8>,
    pub txs: Vec<Rc<Tx>>,
    pub utxo: Rc<Utxo>,
    pub by: Option<Rc<ByAddr>>,
}
pub fn by_addr(u: &Utxo) -> ByAddr {
    let mut m: ByAddr = BTreeMap::new();
    for (o, c) in u {
        if let Some(a) = c.addr {
            m.entry(a).or_default().push((*o, c.value));
        }
    }
    m
}
pub fn apply(u: &mut Utxo, t: &Tx) -> bool {
    if !t.coinbase {
        // no transaction may repeat one that has unspent outputs (BIP 30)
        if t.outs.iter().enumerate().any(|(n, o)| o.2 && u.contains_key(&(t.id, n as u32))) {
            return false;
        }
        for i in &t.inputs {
            if !u.contains_key(i) {
                return false;
            }
        }
        for i in &t.inputs {
            u.remove(i);
        }
    }
    for (n, (v, a, sp)) in t.outs.iter().enumerate() {
        if *sp {
            u.insert((t.id, n as u32), Coin { value: *v, addr: *a });
        }
    }
    true
}

pub fn varint(o: &mut Vec<u8>, n: u64) {
    if n < 0xfd {
        o.push(n as u8)
    } else if n <= 0xffff {
        o.push(0xfd);
        o.extend_from_slice(&(n as u16).to_le_bytes())
    } else if n <= 0xffff_ffff {
        o.push(0xfe);
        o.extend_from_slice(&(n as u32).to_le_bytes())
    } else {
        o.push(0xff);
        o.extend_from_slice(&n.to_le_bytes())
    }
}

pub struct RawIn {
    pub out: Out,
    pub sig: Vec<u8>,
    pub seq: u32,
    pub wit: Vec<Vec<u8>>,
}
pub fn build(version: i32, ins: &[RawIn], outs: &[(u64, Vec<u8>)], lock: u32, segwit: bool, coinbase: bool) -> Tx {
    let mut core = Vec::new(); // without witness
    let mut body = Vec::new();
    varint(&mut body, ins.len() as u64);
    for i in ins {
        body.extend_from_slice(&i.out.0);
        body.extend_from_slice(&i.out.1.to_le_bytes());
        varint(&mut body, i.sig.len() as u64);
        body.extend_from_slice(&i.sig);
        body.extend_from_slice(&i.seq.to_le_bytes());
    }
    varint(&mut body, outs.len() as u64);
    for (v, s) in outs {
        body.extend_from_slice(&v.to_le_bytes());
        varint(&mut body, s.len() as u64);
        body.extend_from_slice(s);
    }
    core.extend_from_slice(&version.to_le_bytes());
    core.extend_from_slice(&body);
    core.extend_from_slice(&lock.to_le_bytes());
    let id = sha::dsha(&core);
    let raw = if segwit {
        let mut r = Vec::new();
        r.extend_from_slice(&version.to_le_bytes());
        r.extend_from_slice(&[0, 1]);
        r.extend_from_slice(&body);
        for i in ins {
            varint(&mut r, i.wit.len() as u64);
            for w in &i.wit {
                varint(&mut r, w.len() as u64);
                r.extend_from_slice(w);
            }
        }
        r.extend_from_slice(&lock.to_le_bytes());
        r
    } else {
        core
    };
    Tx {
        id,
        raw,
        inputs: ins.iter().map(|i| i.out).collect(),
        outs: outs.iter().map(|(v, s)| (*v, script_addr(s), s.first() != Some(&0x6a))).collect(),
        coinbase,
    }
}

/// What transactions look like in a run.
#[derive(Clone)]
pub struct Mix {
    pub addrs: Vec<Addr>,
    pub exotic: u64, // percent of outputs with unusual scripts
    pub segwit: u64, // percent
    pub big: u64,    // permille of transactions with large counts or scripts
}
pub fn addresses(rng: &mut Rng, n: usize) -> Vec<Addr> {
    let mut v: Vec<Addr> = Vec::new();
    while v.len() < n {
        let mut h = [0u8; 20];
        h.copy_from_slice(&rng.bytes(20));
        let a = match rng.below(10) {
            0 | 1 if !v.is_empty() => {
                let b = *rng.pick(&v);
                Addr(5 - b.0, b.1) // same hash, other kind
            }
            2 | 3 if !v.is_empty() => {
                let b = *rng.pick(&v);
                let mut g = h;
                g[4..12].copy_from_slice(&b.1[4..12]); // same hash-table slot
                Addr(b.0, g)
            }
            4 if !v.is_empty() => {
                let b = *rng.pick(&v);
                let mut g = b.1;
                let i = *rng.pick(&[0usize, 3, 12, 19]);
                g[i] ^= 1 << rng.below(8);
                Addr(b.0, g)
            }
            5 => {
                let mut g = h;
                for x in g.iter_mut().take(rng.range(1, 4) as usize) {
                    *x = 0;
                }
                Addr(0, g) // leading zero bytes
            }
            _ => Addr(if rng.pct(60) { 0 } else { 5 }, h),
        };
        if !v.contains(&a) {
            v.push(a);
        }
    }
    v
}
fn edge_len(rng: &mut Rng) -> usize {
    *rng.pick(&[0usize, 1, 2, 24, 25, 26, 75, 76, 107, 251, 252, 253, 254, 255, 256, 257, 520, 1000])
}
pub fn script(rng: &mut Rng, m: &Mix) -> Vec<u8> {
    let a = *rng.pick(&m.addrs);
    if !rng.pct(m.exotic) {
        return a.script();
    }
    let s = a.script();
    match rng.below(16) {
        0 => {
            let mut r = vec![0x6a];
            let n = edge_len(rng);
            r.extend(rng.bytes(n));
            r
        }
        1 => {
            let mut r = vec![0x6a];
            r.extend(&s[1..]);
            r // OP_RETURN of an address script's size
        }
        2 => vec![],
        3 => vec![0x6a],
        4 => {
            let mut r = vec![0x00, 0x14];
            r.extend_from_slice(&a.1);
            r
        }
        5 => {
            let mut r = vec![0x00, 0x20];
            r.extend(rng.bytes(32));
            r
        }
        6 => {
            let mut r = vec![0x51, 0x20];
            r.extend(rng.bytes(32));
            r
        }
        7 => {
            let mut r = vec![0x21];
            r.extend(rng.bytes(33));
            r.push(0xac);
            r
        }
        8 => {
            let mut r = s.clone();
            let n = r.len();
            r[n - 1] ^= 1 << rng.below(8);
            r
        }
        9 => {
            let mut r = s.clone();
            let i = rng.below(3) as usize;
            r[i] ^= 1 << rng.below(8);
            r
        }
        10 => {
            let mut r = s.clone();
            r.push(*rng.pick(&[0x00, 0x61, 0x87, 0xac]));
            r
        }
        11 => {
            let mut r = s.clone();
            r.pop();
            r
        }
        12 => {
            let mut r = vec![0x61];
            r.extend(&s);
            r
        }
        13 => {
            let mut r = s.clone();
            let n = r.len();
            if n == 25 {
                r[23] ^= 1 << rng.below(8);
            }
            r
        }
        14 => {
            // both opcodes mixed: P2SH prefix at P2PKH length and the reverse
            if rng.pct(50) {
                let mut r = vec![0xa9, 0x14];
                r.extend_from_slice(&a.1);
                r.extend_from_slice(&[0x87, 0x88, 0xac]);
                r
            } else {
                let mut r = vec![0x76, 0xa9, 0x14];
                r.extend_from_slice(&a.1[..18]);
                r.extend_from_slice(&[0x88, 0xac]);
                r
            }
        }
        _ => {
            let n = edge_len(rng);
            rng.bytes(n)
        }
    }
}
pub fn value(rng: &mut Rng) -> u64 {
    match rng.below(12) {
        0 if rng.pct(5) => 100_000_000_000_000,
        0 => 0,
        1 => 1,
        2 => 546,
        3 => 100_000_000,
        4 => rng.range(99_999_990, 100_000_010),
        5 => rng.logu(1, 2_000_000_000_000),
        6 => 5_000_000_000,
        _ => rng.logu(1, 10_000_000_000),
    }
}
fn outs(rng: &mut Rng, m: &Mix, lo: u64) -> Vec<(u64, Vec<u8>)> {
    let n = if rng.below(1000) < m.big { *rng.pick(&[252u64, 253, 254, 300, 600]) } else { rng.logu(lo.max(1), 6) };
    let mut v: Vec<(u64, Vec<u8>)> = (0..n).map(|_| (value(rng), script(rng, m))).collect();
    if n > 200 && rng.pct(4) {
        // output numbers that need more than two bytes
        let k = rng.range(65_530, 65_540);
        v.splice(1..1, (0..k).map(|_| (0, vec![0x6a])));
    }
    v
}
pub fn coinbase(rng: &mut Rng, m: &Mix, height: usize) -> Tx {
    let mut sig = vec![0x03];
    sig.extend_from_slice(&(height as u32).to_le_bytes()[..3]);
    let n = rng.range(4, 90) as usize;
    sig.extend(rng.bytes(n));
    let mut o = outs(rng, m, 1);
    let sw = rng.pct(m.segwit);
    if sw {
        let mut c = vec![0x6a, 0x24, 0xaa, 0x21, 0xa9, 0xed];
        c.extend(rng.bytes(32));
        o.push((0, c));
    }
    let i = RawIn { out: ([0; 32], u32::MAX), sig, seq: u32::MAX, wit: vec![vec![0; 32]] };
    build(1, &[i], &o, 0, sw, true)
}
pub fn coinbase_p2pk(rng: &mut Rng, height: usize) -> Tx {
    let mut s = vec![0x41];
    s.extend(rng.bytes(65));
    s.push(0xac);
    let i = RawIn { out: ([0; 32], u32::MAX), sig: vec![0x04, height as u8, 0xff, 0, 0x1d], seq: u32::MAX, wit: vec![] };
    build(1, &[i], &[(5_000_000_000, s)], 0, false, true)
}
/// A transaction spending `spend` (non-empty).
pub fn tx(rng: &mut Rng, m: &Mix, spend: &[Out]) -> Tx {
    let sw = rng.pct(m.segwit);
    let big = rng.below(1000) < m.big;
    let mut size = 0;
    let ins: Vec<RawIn> = spend
        .iter()
        .map(|o| {
            let sig = if rng.pct(30) { edge_len(rng) } else { rng.range(0, 110) as usize };
            let sig = if big && rng.pct(20) { 70000 } else { sig };
            let sig = if size > 150_000 { sig.min(100) } else { sig };
            size += sig;
            let nw = if big && rng.pct(10) { *rng.pick(&[252u64, 253, 254, 300]) } else { rng.logu(1, 5) - 1 };
            let wit = (0..nw)
                .map(|_| {
                    let n = if size > 150_000 || nw > 200 {
                        3
                    } else if big && rng.pct(4) {
                        *rng.pick(&[65535usize, 65536, 70000])
                    } else {
                        edge_len(rng)
                    };
                    size += n;
                    rng.bytes(n)
                })
                .collect();
            RawIn { out: *o, sig: rng.bytes(sig), seq: rng.next() as u32, wit }
        })
        .collect();
    let mut o = outs(rng, m, 1);
    if big && rng.pct(20) {
        let n = *rng.pick(&[65534usize, 65535, 65536, 70000]);
        o.push((value(rng), rng.bytes(n)));
    }
    let ver = *rng.pick(&[1, 1, 2, 2, 0x20000000, -1]);
    let lock = if rng.pct(70) { 0 } else { rng.next() as u32 };
    build(ver, &ins, &o, lock, sw, false)
}
/// One output to each of `n` addresses that nothing has paid before.
pub fn fan(rng: &mut Rng, spend: &[Out], n: u64) -> Tx {
    let ins: Vec<RawIn> = spend.iter().map(|o| RawIn { out: *o, sig: rng.bytes(60), seq: u32::MAX, wit: vec![] }).collect();
    let o: Vec<(u64, Vec<u8>)> = (0..n)
        .map(|_| {
            let mut h = [0; 20];
            h.copy_from_slice(&rng.bytes(20));
            (value(rng), Addr(if rng.pct(60) { 0 } else { 5 }, h).script())
        })
        .collect();
    build(2, &ins, &o, 0, false, false)
}
/// Choose 1..=max inputs among `from`, newest-biased sometimes.
pub fn pick_inputs(rng: &mut Rng, from: &[Out], m: &Mix) -> Vec<Out> {
    let want = if rng.below(1000) < m.big { *rng.pick(&[252u64, 253, 254, 300]) } else { rng.logu(1, 5) };
    let want = want.min(from.len() as u64) as usize;
    let mut s: BTreeSet<usize> = BTreeSet::new();
    while s.len() < want {
        let i = if rng.pct(50) { rng.below(from.len() as u64) } else { from.len() as u64 - 1 - rng.below((from.len() as u64).min(8)) };
        if !s.insert(i as usize) && rng.pct(10) {
            // avoid long rejection loops
            for j in 0..from.len() {
                if s.len() < want && s.insert(j) {
                    break;
                }
            }
        }
    }
    let mut v: Vec<Out> = s.into_iter().map(|i| from[i]).collect();
    rng.shuffle(&mut v);
    v
}
pub fn header(rng: &mut Rng, prev: &Id, txs: &[Rc<Tx>]) -> Vec<u8> {
    let mut h = Vec::with_capacity(80);
    h.extend_from_slice(&0x20000000u32.to_le_bytes());
    h.extend_from_slice(prev);
    let mut cat = Vec::new();
    for t in txs {
        cat.extend_from_slice(&t.id);
    }
    h.extend_from_slice(&sha::dsha(&cat));
    h.extend_from_slice(&(1_600_000_000u32 + rng.below(1000) as u32).to_le_bytes());
    h.extend_from_slice(&0x1d00ffffu32.to_le_bytes());
    h.extend_from_slice(&(rng.next() as u32).to_le_bytes());
    h
}
pub fn serialize(header: &[u8], txs: &[Rc<Tx>]) -> Vec<u8> {
    let mut b = header.to_vec();
    varint(&mut b, txs.len() as u64);
    for t in txs {
        b.extend_from_slice(&t.raw);
    }
    b
}
