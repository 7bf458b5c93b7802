//! C03: no input from the network crashes or hangs an endpoint, and other connections are served regardless.

use std::collections::HashMap;

use uflow::verif as v;
use uflow::{server, EndpointConfig, SendMode};

use super::conn::{configs, raw_addr, server_cfg, small_plan, syn_for};
use super::sc;
use crate::core::{set_budget, Ctx, Property, Rng};
use crate::ep::*;
use crate::hc::*;
use crate::vlog;
use crate::wire::{self, padd, psub, Dg, Fr, Grp, PMASK};

/// Work allowed to a single call, in basic blocks. Honest traffic stays below one percent of it.
const WORK: u64 = 100_000_000;

/// What an attacker knows about the state of its victim.
#[derive(Clone, Debug, Default)]
pub struct Hints {
    /// Next frame and packet the victim expects
    pub rxf: u32,
    pub rxp: u32,
    /// Next frame and packet the victim will send, and where it started
    pub txf: u32,
    pub txp: u32,
    pub txf0: u32,
    pub txp0: u32,
    pub fwin: u32,
    pub pwin: u32,
    pub sent: Vec<(u32, bool)>,
    /// Headers of packets put to the victim before
    pub seqs: Vec<(u32, u8, u16)>,
}

impl Hints {
    fn near(r: &mut Rng, x: u32, win: u32) -> u32 {
        match r.below(14) {
            0..=3 => x,
            4 => x.wrapping_add(1),
            5 => x.wrapping_sub(1),
            6 | 7 => x.wrapping_add(r.below(20) as u32),
            8 => x.wrapping_sub(r.below(20) as u32),
            9 => x.wrapping_add(win).wrapping_add(r.below(5) as u32).wrapping_sub(2),
            10 => x.wrapping_sub(win).wrapping_add(r.below(5) as u32).wrapping_sub(2),
            11 => x.wrapping_add(r.below(2 * win as u64 + 1) as u32),
            12 => x.wrapping_add(r.pick(&[1 << 31, 1 << 19, 1 << 20, (1 << 19) - 1, (1u32 << 31) - 1, 1 << 16])),
            _ => r.u32(),
        }
    }
    fn lead(r: &mut Rng) -> u16 {
        match r.below(6) {
            0 | 1 => 0,
            2 => 1,
            3 => r.below(10) as u16,
            4 => r.pick(&[4095, 4096, 4097, 32767, 32768, 65534, 65535]),
            _ => r.u32() as u16,
        }
    }

    fn datagram(&mut self, r: &mut Rng, room: usize) -> Dg {
        if !self.seqs.is_empty() && r.chance(0.4) {
            // Another fragment of something sent before
            let (seq, chan, last) = r.pick(&self.seqs);
            let last = if r.chance(0.1) { last.wrapping_add(r.below(3) as u16) } else { last };
            let frag = if last == 0 { 0 } else { r.below(last as u64 + 1) as u16 };
            let full = frag < last;
            let len = if full && r.chance(0.95) { wire::FRAG } else { r.below(wire::FRAG as u64 + 1) as usize };
            return Dg { seq, chan: if r.chance(0.05) { r.below(64) as u8 } else { chan }, wlead: Self::lead(r), clead: Self::lead(r), frag, last, data: vec![7; len.min(room)] };
        }
        let seq = Self::near(r, self.rxp, self.pwin) & PMASK;
        let last = match r.below(12) {
            0..=6 => 0,
            7 => 1,
            8 | 9 => r.below(6) as u16,
            10 => r.below(800) as u16,
            _ => r.pick(&[65535, 65534, 32768, 11585, 2000]),
        };
        let frag = match r.below(4) {
            0 => 0,
            1 => last,
            2 => r.below(last as u64 + 1) as u16,
            _ => r.u32() as u16,
        };
        let frag = if r.chance(0.9) { frag.min(last) } else { frag };
        let len = match r.below(5) {
            0 => 0,
            1 => 1,
            2 => r.below(wire::FRAG as u64 + 1) as usize,
            3 => r.pick(&[63, 64, 255, 256, 1447, 1448, 1449, 1460]),
            _ => r.below(30) as usize,
        };
        let len = if frag < last && r.chance(0.9) { wire::FRAG } else { len };
        let chan = r.pick(&[0, 0, 1, 2, 63, 64 - 1, 17]);
        self.seqs.push((seq, chan, last));
        if self.seqs.len() > 20 {
            self.seqs.remove(0);
        }
        Dg { seq, chan, wlead: Self::lead(r), clead: Self::lead(r), frag, last, data: vec![3; len.min(room)] }
    }

    /// A well-formed frame with arbitrary field values, many of them near the edges of what the victim accepts.
    pub fn frame(&mut self, r: &mut Rng) -> Fr {
        match r.below(20) {
            0..=9 => {
                let id = if r.chance(0.8) { self.rxf.wrapping_add(if r.chance(0.8) { 0 } else { r.below(40) as u32 }) } else { Self::near(r, self.rxf, self.fwin) };
                if id.wrapping_sub(self.rxf) < self.fwin {
                    self.rxf = id.wrapping_add(1);
                }
                let n = r.pick(&[0, 1, 1, 1, 2, 4, 20, 127]);
                let mut dgs = Vec::new();
                let mut len = 10;
                for _ in 0..n {
                    let d = self.datagram(r, 1472 - 10 - 14);
                    len += wire::dg_header(&d) + d.data.len();
                    if len > 1472 && r.chance(0.9) {
                        break;
                    }
                    dgs.push(d);
                }
                Fr::Data { id, nonce: r.chance(0.5), dgs }
            }
            10..=12 => {
                let frame = r.chance(0.7).then(|| Self::near(r, self.rxf, self.fwin));
                let packet = r.chance(0.7).then(|| {
                    let p = Self::near(r, self.rxp, self.pwin);
                    if r.chance(0.95) {
                        p & PMASK
                    } else {
                        p
                    }
                });
                if r.chance(0.5) {
                    // Believed by the victim, if within its window
                    if let Some(f) = frame {
                        if f.wrapping_sub(self.rxf) <= self.fwin {
                            self.rxf = f;
                        }
                    }
                    if let Some(p) = packet {
                        if psub(p & PMASK, self.rxp) <= self.pwin {
                            self.rxp = p & PMASK;
                        }
                    }
                }
                Fr::Sync { frame, packet }
            }
            13..=18 => {
                let n = r.pick(&[0usize, 1, 1, 2, 5, 100, 160]);
                let span = self.txf.wrapping_sub(self.txf0).min(5000);
                let mut groups = Vec::new();
                for _ in 0..n {
                    let base = match r.below(4) {
                        0 => Self::near(r, self.txf, self.fwin),
                        1 => Self::near(r, self.txf0, self.fwin),
                        _ => self.txf.wrapping_sub(r.below(span as u64 + 34) as u32),
                    };
                    let mut bits = match r.below(5) {
                        0 => 1,
                        1 => u32::MAX,
                        2 => 0,
                        3 => 1 << r.below(32),
                        _ => r.u32(),
                    };
                    // Sometimes with the right parity, and only of frames which were sent
                    let mut nonce = r.chance(0.5);
                    if r.chance(0.5) && !self.sent.is_empty() {
                        let known: HashMap<u32, bool> = self.sent.iter().copied().collect();
                        nonce = false;
                        for k in 0..32 {
                            if bits >> k & 1 != 0 {
                                match known.get(&base.wrapping_add(k)) {
                                    Some(n) => nonce ^= n,
                                    None => bits &= !(1 << k),
                                }
                            }
                        }
                    }
                    groups.push(Grp { base, bits, nonce });
                }
                let fbase = match r.below(3) {
                    0 => self.txf.wrapping_sub(r.below(span as u64 + 2) as u32),
                    1 => self.txf0,
                    _ => Self::near(r, self.txf, self.fwin),
                };
                let pspan = psub(self.txp, self.txp0).min(5000);
                let pbase = match r.below(3) {
                    0 => psub(self.txp, r.below(pspan as u64 + 2) as u32),
                    1 => self.txp0,
                    _ => {
                        let p = Self::near(r, self.txp, self.pwin);
                        if r.chance(0.9) {
                            p & PMASK
                        } else {
                            p
                        }
                    }
                };
                Fr::Ack { fbase, pbase, groups }
            }
            _ => match r.below(6) {
                0 => Fr::Syn { version: r.pick(&[v_version(), 0, 255]), nonce: r.u32(), rate: r.u32(), packet: r.u32(), alloc: r.u32() },
                1 => Fr::SynAck { nonce_ack: r.u32(), nonce: r.u32(), rate: r.u32(), packet: r.u32(), alloc: r.u32() },
                2 => Fr::Ack3 { nonce_ack: r.u32() },
                3 => Fr::Err { nonce_ack: r.u32(), code: r.below(3) as u8 },
                4 => Fr::Disc,
                _ => Fr::DiscAck,
            },
        }
    }

    /// Learns from a frame the victim transmitted.
    pub fn overhear(&mut self, fr: &Fr) {
        match fr {
            Fr::Data { id, nonce, dgs } => {
                self.txf = id.wrapping_add(1);
                self.sent.push((*id, *nonce));
                if self.sent.len() > 100 {
                    self.sent.drain(..50);
                }
                for d in dgs {
                    let n = padd(d.seq, 1);
                    if psub(n, self.txp) < 1 << 19 {
                        self.txp = n;
                    }
                }
            }
            Fr::Ack { fbase, pbase, .. } => {
                if fbase.wrapping_sub(self.rxf) < 1 << 20 {
                    self.rxf = *fbase;
                }
                self.rxp = *pbase;
            }
            _ => (),
        }
    }
}

/// Errors the operating system reports because of what the network did (such as ICMP port unreachable).
fn socket_errors(w: &World, ctx: &mut Ctx, r: &mut Rng, sends: bool) {
    use std::io::ErrorKind::*;
    if sends && r.chance(0.5) {
        v::net::fail_sends(r.range(1, 5) as u32);
    }
    let k = r.pick(&[ConnectionRefused, ConnectionReset, Interrupted, Other, WouldBlock]);
    v::net::inject_error(w.saddr, k);
    for c in &w.clis {
        v::net::inject_error(c.addr, k);
    }
    ctx.count("socket_errors", 1);
}

/// Garbles a datagram; the checksum is usually made to match again.
fn mutate(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut b = b[..b.len().saturating_sub(4)].to_vec();
    for _ in 0..r.pick(&[0, 1, 1, 2, 4, 16]) {
        if b.is_empty() {
            break;
        }
        let i = if r.chance(0.6) { r.below(b.len().min(40) as u64) } else { r.below(b.len() as u64) } as usize;
        match r.below(6) {
            0 => b[i] ^= 1 << r.below(8),
            1 => b[i] = r.pick(&[0, 1, 0x7F, 0x80, 0xFF]),
            2 => b[i] = r.u32() as u8,
            3 => {
                b.remove(i);
            }
            4 => b.insert(i, r.u32() as u8),
            _ => {
                let j = r.below(b.len() as u64) as usize;
                b.swap(i, j);
            }
        }
    }
    if r.chance(0.15) {
        let n = r.below(b.len() as u64 + 1) as usize;
        b.truncate(n);
    }
    if r.chance(0.1) {
        let n = r.pick(&[1, 2, 4, 14, 100, 1472]);
        b.extend((0..n).map(|_| r.u32() as u8));
    }
    let c = if r.chance(0.95) { v::crc_compute(&b) } else { r.u32() };
    b.extend_from_slice(&c.to_be_bytes());
    b
}

fn junk(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(6) {
        0 => r.below(6) as usize,
        1 => r.below(40) as usize,
        2 => r.below(1500) as usize,
        3 => r.pick(&[1468, 1471, 1472, 1473, 2000]),
        4 => 0,
        _ => r.below(20_000) as usize,
    };
    let mut b: Vec<u8> = (0..n).map(|_| r.u32() as u8).collect();
    if r.chance(0.7) && !b.is_empty() {
        b[0] = r.pick(&[0, 1, 2, 3, 4, 5, 10, 11, 12, 13]);
    }
    if r.chance(0.8) {
        let c = v::crc_compute(&b);
        b.extend_from_slice(&c.to_be_bytes());
    }
    b
}

fn leap(r: &mut Rng) -> u64 {
    match r.below(14) {
        0..=3 => 0,
        4 => 1,
        5 | 6 => MS,
        7 | 8 => r.below(30 * MS),
        9 => r.below(SEC),
        10 => r.below(10 * SEC),
        11 => r.pick(&[600 * MS, 2 * SEC, 2 * SEC + MS, 22 * SEC, 64 * SEC]),
        12 if r.chance(0.1) => r.pick(&[3600 * SEC, 86_400 * 30 * SEC, 4_294_967_296 * MS, 4_294_967_295 * SEC]),
        _ => 5 * MS,
    }
}

fn hostile_setup(r: &mut Rng) -> Setup {
    let mut s = Setup::random(r);
    for i in 0..2 {
        if r.chance(0.6) {
            s.fwin[i] = 4096;
            s.pwin[i] = 4096;
        }
        s.ceil[i] = r.pick(&[0, 1, 2, 23, 1471, 1472, 10_000, 2_000_000, 2_000_000, u32::MAX, u32::MAX]);
        s.alloc[i] = r.pick(&[0, 1, 1447, 1448, 1449, 5000, 100_000, 1_000_000, 1_000_000, u32::MAX as usize, usize::MAX, usize::MAX - 1]);
        s.keepalive[i] = r.chance(0.4).then(|| r.pick(&[0, 1, 2000, 5000, u64::MAX]));
    }
    s
}

/// Two endpoints exchange packets; each also receives frames from an attacker who knows the state of both.
fn c03_halves(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    set_budget(WORK);
    let s = hostile_setup(r);
    ctx.desc = format!("{:?}", s);
    young();
    set_now(0);
    let mut hc = [Hc::new(s.config(0)), Hc::new(s.config(1))];
    if age(ctx) {
        hc.iter_mut().for_each(|h| h.step());
    }
    let mut hints: [Hints; 2] = std::array::from_fn(|i| Hints {
        rxf: s.fbase[1 - i],
        rxp: s.pbase[1 - i],
        txf: s.fbase[i],
        txp: s.pbase[i],
        txf0: s.fbase[i],
        txp0: s.pbase[i],
        fwin: s.fwin[1 - i],
        pwin: s.pwin[1 - i],
        ..Default::default()
    });
    let mut fly: [Vec<Vec<u8>>; 2] = [Vec::new(), Vec::new()];
    let mut old: Vec<Vec<u8>> = Vec::new();
    let mut now = 0u64;
    let ops = if ctx.thorough { r.range(100, 3000) } else { r.range(100, 1500) };
    let structured = r.pick(&[0.0, 0.3, 0.8, 1.0]);
    let spite = r.pick(&[0.02, 0.2, 0.5, 0.8]);
    let big = r.chance(0.02);
    let (mut frames, mut pkts) = (Vec::new(), Vec::new());
    for _ in 0..ops {
        let i = r.below(2) as usize;
        match r.below(12) {
            0 | 1 => {
                let max = s.alloc[1 - i].clamp(1, if big { 3_000_000 } else { 20_000 });
                for _ in 0..r.pick(&[1, 1, 3, 30]) {
                    let n = match r.below(4) {
                        0 => r.below(40) as usize,
                        1 => r.below(3000) as usize,
                        2 => max,
                        _ => 0,
                    };
                    let m = r.pick(&MODES4);
                    let c = r.pick(&[0, 1, 63]);
                    hc[i].send(&vec![0x11; n.min(max)], c, m);
                    ctx.count("packets_submitted", 1);
                }
            }
            2 | 3 => {
                hc[i].flush(&mut frames);
                for b in frames.drain(..) {
                    ctx.count("frames_emitted", 1);
                    if let Some(f) = wire::parse(&b) {
                        hints[i].overhear(&f);
                        vlog!(ctx, "{:.6} {} emits {}", now as f64 / 1e9, i, brief(&Some(f)));
                    }
                    if old.len() < 200 || r.chance(0.1) {
                        if old.len() >= 200 {
                            old.swap_remove(r.below(200) as usize);
                        }
                        old.push(b.clone());
                    }
                    if fly[1 - i].len() < 5000 {
                        fly[1 - i].push(b);
                    }
                }
            }
            4 => {
                hc[i].step();
                ctx.count("steps", 1);
            }
            5 => {
                hc[i].receive(&mut pkts);
                ctx.count("packets_delivered", pkts.len() as u64);
                pkts.clear();
            }
            6 => {
                now = now.saturating_add(leap(r));
                set_now(now);
            }
            7 => {
                let p = r.pick(&[0.0, 0.5, 1.0, 1.0]);
                let l = std::mem::take(&mut fly[i]);
                for b in l {
                    if r.chance(p) {
                        hc[i].handle(&b);
                        ctx.count("frames_handled", 1);
                    }
                }
            }
            _ => {
                if !r.chance(spite) {
                    continue;
                }
                for _ in 0..r.pick(&[1, 1, 5, 40]) {
                    let b = if r.chance(structured) {
                        let f = hints[i].frame(r);
                        vlog!(ctx, "{:.6} {} is put {}", now as f64 / 1e9, i, brief(&Some(f.clone())));
                        sealed(&f)
                    } else if !old.is_empty() && r.chance(0.9) {
                        let k = r.below(old.len() as u64) as usize;
                        mutate(r, &old[k])
                    } else {
                        junk(r)
                    };
                    let b = &b[..b.len().min(1472)];
                    ctx.count("hostile_datagrams", 1);
                    if hc[i].handle(b) {
                        ctx.count("hostile_frames_handled", 1);
                    }
                }
            }
        }
    }
    for h in &hc {
        let _ = (h.pending(), h.buffer(), h.rtt(), h.rate());
    }
    ctx.seen(now ^ hints[0].txf as u64 ^ (hints[1].txf as u64) << 32 ^ mix_hints(&hints[0]) ^ mix_hints(&hints[1]));
    ctx.nontrivial = ctx.obs.get("hostile_frames_handled").copied().unwrap_or(0) > 0;
    for h in hc {
        drop_hc(h);
    }
}

fn mix_hints(h: &Hints) -> u64 {
    crate::core::mix((h.rxf as u64) << 32 | (h.rxp ^ h.txp) as u64)
}

// ---------------------------------------------------------------------------------------------------------------
// Whole endpoints

/// An attacker who talks to a server from an address of its own.
struct Attacker {
    addr: Addr,
    nonce: u32,
    server_nonce: Option<u32>,
    up: bool,
    h: Hints,
    heard: Vec<Vec<u8>>,
    /// Shape of its traffic
    polite: f64,
    structured: f64,
    busy: f64,
    burst: u64,
}

impl Attacker {
    fn new(r: &mut Rng, addr: Addr) -> Self {
        Attacker {
            addr,
            nonce: r.pick(&[0, u32::MAX, 0xFFFFF, r.clone().u32()]),
            server_nonce: None,
            up: false,
            h: Hints::default(),
            heard: Vec::new(),
            polite: r.pick(&[0.0, 0.5, 0.9]),
            structured: r.pick(&[0.0, 0.5, 0.9, 1.0]),
            busy: r.pick(&[0.05, 0.3, 1.0]),
            burst: r.pick(&[1, 5, 40]),
        }
    }

    fn act(&mut self, w: &mut World, ctx: &mut Ctx, r: &mut Rng) {
        for (_, d) in w.raw.remove(&self.addr).unwrap_or_default() {
            let Some(f) = accept(&d) else { continue };
            if let Fr::SynAck { nonce_ack, nonce, .. } = f {
                if nonce_ack == self.nonce {
                    self.server_nonce = Some(nonce);
                }
            }
            self.h.overhear(&f);
            if matches!(f, Fr::Disc) && r.chance(self.polite) {
                w.forge(ctx, self.addr, w.saddr, &sealed(&Fr::DiscAck));
                self.up = false;
            }
            if self.heard.len() < 50 {
                self.heard.push(d);
            }
        }
        if !r.chance(self.busy) {
            return;
        }
        let saddr = w.saddr;
        if !self.up || r.chance(0.002) {
            match self.server_nonce {
                None => {
                    if r.chance(0.1) {
                        self.nonce = r.u32();
                    }
                    let mut f = syn_for(r, &w.scfg, self.nonce);
                    if let Fr::Syn { rate, alloc, .. } = &mut f {
                        *rate = r.pick(&[0, 1, 22, 23, 1471, 1_000_000, u32::MAX]);
                        if r.chance(0.2) {
                            *alloc = u32::MAX;
                        }
                    }
                    w.forge(ctx, self.addr, saddr, &sealed(&f));
                }
                Some(s) => {
                    w.forge(ctx, self.addr, saddr, &sealed(&Fr::Ack3 { nonce_ack: s }));
                    self.up = true;
                    self.server_nonce = None;
                    self.h = Hints {
                        rxf: self.nonce,
                        rxp: self.nonce & PMASK,
                        txf: s,
                        txp: s & PMASK,
                        txf0: s,
                        txp0: s & PMASK,
                        fwin: 4096,
                        pwin: 4096,
                        ..Default::default()
                    };
                    ctx.count("attackers_connected", 1);
                }
            }
            return;
        }
        for _ in 0..self.burst {
            let b = self.missile(r);
            ctx.count("hostile_datagrams", 1);
            w.forge(ctx, self.addr, saddr, &b);
        }
    }

    fn missile(&mut self, r: &mut Rng) -> Vec<u8> {
        if r.chance(self.structured) {
            let mut f = self.h.frame(r);
            // Its own end would stop the attack
            if matches!(f, Fr::Disc | Fr::DiscAck) && r.chance(0.98) {
                f = Fr::Sync { frame: None, packet: None };
            }
            sealed(&f)
        } else if !self.heard.is_empty() && r.chance(0.8) {
            let k = r.below(self.heard.len() as u64) as usize;
            let mut b = mutate(r, &self.heard[k]);
            if matches!(b.first(), Some(4 | 5)) && r.chance(0.95) {
                b[0] = 10;
            }
            b
        } else {
            junk(r)
        }
    }
}

/// A server with honest clients, and attackers at other addresses: the honest connections must not notice.
fn c03_server(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    set_budget(WORK);
    let v6 = r.chance(0.1);
    let (mut s, mut c) = configs(r);
    s.max_receive_alloc = s.max_receive_alloc.max(100_000);
    c.max_receive_alloc = c.max_receive_alloc.max(100_000);
    // The honest connections must be fast enough to be judged within the time
    for e in [&mut s, &mut c] {
        e.max_send_rate = e.max_send_rate.max(100_000);
        e.max_receive_rate = e.max_receive_rate.max(100_000);
        e.keepalive = true;
    }
    let mut scfg = server_cfg(s);
    scfg.enable_handshake_errors = r.chance(0.5);
    let link = Link::ideal(r.pick(&[0, MS, 20 * MS]));
    let mut cad = Cadence::random(r);
    cad.interval = cad.interval.max(5 * MS);
    cad.pause.0 = 0.0;
    let mut w = World::new(ctx, 0, ORDER | RELIABLE, scfg, link, cad, v6);
    let honest = r.range(1, 3) as usize;
    for _ in 0..honest {
        let mut cad = Cadence::random(r);
        cad.interval = cad.interval.max(5 * MS);
        cad.pause.0 = 0.0;
        let i = w.connect(ctx, c.clone(), cad);
        w.clis[i].plan = Some(small_plan(r, c.max_packet_size.min(10_000), 60));
    }
    w.plans = Some((small_plan(r, 1000, 1), small_plan(r, 10_000, 60)));
    let n = r.range(1, 6);
    let mut foes: Vec<Attacker> = (0..n).map(|k| Attacker::new(r, raw_addr(k, v6))).collect();
    for f in &foes {
        w.raws.insert(f.addr);
    }
    super::conn::describe(ctx, &w, "server under attack");
    let app = r.pick(&[0.0, 0.002, 0.02]);
    let mut r2 = r.fork();
    let fight = r.pick(&[5, 20, 40]) * SEC;
    let addrs: Vec<Addr> = foes.iter().map(|f| f.addr).collect();
    w.run(
        ctx,
        fight,
        |w, ctx, who| {
            w.traffic(ctx, who, &mut r2);
            if who == Who::Server {
                for f in &mut foes {
                    f.act(w, ctx, &mut r2);
                }
                if r2.chance(0.002) {
                    socket_errors(w, ctx, &mut r2, false);
                }
                if r2.chance(app) {
                    // The application turns on an attacker
                    let a = r2.pick(&addrs);
                    match r2.below(3) {
                        0 => w.disconnect_server(ctx, a, Req::Flush),
                        1 => w.disconnect_server(ctx, a, Req::Now),
                        _ => w.drop_session(ctx, a),
                    }
                }
            }
        },
        |_| false,
    );
    // One more packet each way, while the attackers' connections are still there
    for i in 0..honest {
        if ctx.failed() {
            break;
        }
        if w.clis[i].w.live() {
            w.send_client(ctx, i, 100, 5, SendMode::Reliable);
        }
        let a = w.clis[i].addr;
        if w.sess.get(&a).and_then(|l| l.last()).map_or(false, |s| s.w.live()) {
            w.send_server(ctx, a, 100, 5, SendMode::Reliable);
        }
    }
    w.run(ctx, fight + 400 * SEC, |_, _, _| (), |w| (0..honest).all(|i| settled(w, i)));
    if !ctx.failed() {
        for i in 0..honest {
            let cw = &w.clis[i].w;
            let sw = w.session(i).map(|s| (s.w.connected, s.w.ended));
            if cw.connected.is_none() || cw.ended.is_some() || !matches!(sw, Some((Some(_), None))) {
                ctx.fail(format!("honest client {} on an ideal network: connected {:?} ended {:?}; the server's side: {:?}", i, cw.connected, cw.ended, sw));
            } else if !settled(&w, i) {
                ctx.fail(format!(
                    "honest client {}: Reliable packets not delivered: {} to the server, {} to the client",
                    i,
                    w.clis[i].tx.reliable_missing(),
                    w.session(i).map_or(0, |s| s.tx.reliable_missing())
                ));
            }
            ctx.count("honest_connections_served", 1);
        }
    }
    ctx.nontrivial = ctx.obs.get("attackers_connected").copied().unwrap_or(0) > 0;
    w.finish();
}

fn settled(w: &World, i: usize) -> bool {
    w.clis[i].w.ended.is_some() || (w.clis[i].tx.reliable_missing() == 0 && w.session(i).map_or(false, |s| s.tx.reliable_missing() == 0))
}

/// A client whose server is an attacker.
fn c03_client(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    set_budget(WORK);
    let (s, _) = configs(r);
    let scfg = server_cfg(s);
    let cad = Cadence::fixed(10 * MS);
    let mut w = World::new(ctx, 0, 0, scfg, Link::ideal(r.pick(&[0, 5 * MS, 300 * MS])), cad, false);
    let saddr = w.saddr;
    w.drop_server();
    w.raws.insert(saddr);
    w.plain = true;
    let cfg = extreme(r);
    let cad = odd_cadence(r);
    ctx.desc = format!("client {:?} rate {} / {} alloc {} packet {} timeout {} keepalive {} {}", cad, cfg.max_send_rate, cfg.max_receive_rate, cfg.max_receive_alloc, cfg.max_packet_size, cfg.active_timeout_ms, cfg.keepalive, cfg.keepalive_interval_ms);
    let max = cfg.max_packet_size;
    w.connect(ctx, cfg, cad);
    let mut p = small_plan(r, max, 300);
    p.burst = r.pick(&[1, 10, 40]);
    w.clis[0].plan = Some(p);
    let addr = w.clis[0].addr;
    let mut foe = Attacker::new(r, saddr);
    foe.burst = r.pick(&[1, 5, 20]);
    let mut r2 = r.fork();
    let end = r.pick(&[3, 10, 60]) * SEC;
    let limits = (r.pick(&[0u32, 1, 23, 1471, 1472, 1_000_000, u32::MAX]), r.pick(&[0u32, 1, 1_000_000, u32::MAX]), r.pick(&[0u32, 1, 1448, 1449, 1_000_000, u32::MAX]));
    w.run(
        ctx,
        end,
        |w, ctx, who| {
            let Who::Client(_) = who else { return };
            w.traffic(ctx, who, &mut r2);
            for (_, d) in w.raw.remove(&saddr).unwrap_or_default() {
                let Some(f) = accept(&d) else { continue };
                foe.h.overhear(&f);
                match f {
                    Fr::Syn { nonce, .. } if r2.chance(0.8) => {
                        let n = r2.pick(&[0, u32::MAX, 0xFFFFF, r2.clone().u32()]);
                        let f = Fr::SynAck { nonce_ack: nonce, nonce: n, rate: limits.0, packet: limits.1, alloc: limits.2 };
                        w.forge(ctx, saddr, addr, &sealed(&f));
                        foe.h = Hints { rxf: n, rxp: n & PMASK, txf: nonce, txp: nonce & PMASK, txf0: nonce, txp0: nonce & PMASK, fwin: 4096, pwin: 4096, ..Default::default() };
                        foe.up = true;
                    }
                    Fr::Disc if r2.chance(foe.polite) => w.forge(ctx, saddr, addr, &sealed(&Fr::DiscAck)),
                    _ => (),
                }
                if foe.heard.len() < 50 {
                    foe.heard.push(d);
                }
            }
            if foe.up || r2.chance(0.1) {
                for _ in 0..foe.burst {
                    if r2.chance(foe.busy) {
                        let b = foe.missile(&mut r2);
                        ctx.count("hostile_datagrams", 1);
                        w.forge(ctx, saddr, addr, &b);
                    }
                }
            }
            if r2.chance(0.01) {
                socket_errors(w, ctx, &mut r2, true);
            }
            if r2.chance(0.003) {
                w.disconnect_client(ctx, 0, if r2.chance(0.5) { Req::Flush } else { Req::Now });
            }
        },
        |_| false,
    );
    ctx.nontrivial = ctx.obs.get("client_connects").copied().unwrap_or(0) > 0;
    w.finish();
}

/// Configurations at the edges of what is valid.
fn extreme(r: &mut Rng) -> EndpointConfig {
    EndpointConfig {
        max_send_rate: r.pick(&[1, 2, 23, 1000, 1472, 2_000_000, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX]),
        max_receive_rate: r.pick(&[1, 2, 23, 1000, 1472, 2_000_000, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX]),
        max_packet_size: r.pick(&[1, 1448, 1449, 20_000, 1_000_000, 1_000_000, uflow::MAX_PACKET_SIZE]),
        max_receive_alloc: r.pick(&[1, 1448, 1449, 1_000_000, 1_000_000, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX]),
        keepalive: r.chance(0.5),
        keepalive_interval_ms: r.pick(&[0, 1, 2000, 5000, u64::MAX / 1000, u64::MAX - 1, u64::MAX]),
        active_timeout_ms: r.pick(&[0, 1, 1000, 20_000, 20_000, u64::MAX / 1000, u64::MAX - 1, u64::MAX]),
    }
}

fn odd_cadence(r: &mut Rng) -> Cadence {
    let mut c = Cadence::random(r);
    c.interval = c.interval.max(2 * MS);
    if r.chance(0.3) {
        c.pause = (0.02, r.pick(&[SEC, 3 * SEC, 30 * SEC, 5000 * SEC, 5_000_000 * SEC]));
    }
    c
}

/// Valid calls in any state and order, configurations at the edges, leaps of time, junk from everywhere.
fn c03_calls(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    set_budget(WORK);
    let v6 = r.chance(0.1);
    let mut a = extreme(r);
    let mut b = extreme(r);
    if r.chance(0.8) {
        a.max_packet_size = a.max_packet_size.min(b.max_receive_alloc);
        b.max_packet_size = b.max_packet_size.min(a.max_receive_alloc);
    }
    let scfg = server::Config {
        max_total_connections: r.pick(&[1, 2, 4096, usize::MAX]),
        max_active_connections: r.pick(&[1, 2, 32, usize::MAX]),
        enable_handshake_errors: r.chance(0.5),
        endpoint_config: a.clone(),
    };
    let end = r.pick(&[5, 30, 120]) * SEC;
    let link = if r.chance(0.5) { Link::ideal(r.pick(&[0, 20 * MS])) } else { Link::faulty(r, end) };
    let cad = odd_cadence(r);
    let mut w = World::new(ctx, 0, 0, scfg, link, cad, v6);
    w.keep_old = true;
    w.plain = true;
    super::conn::describe(ctx, &w, &format!("calls; client {} {} {} {} {} {} {}", b.max_send_rate, b.max_receive_rate, b.max_packet_size, b.max_receive_alloc, b.keepalive, b.keepalive_interval_ms, b.active_timeout_ms));
    for _ in 0..r.range(1, 3) {
        let cad = odd_cadence(r);
        w.connect(ctx, b.clone(), cad);
    }
    let act = r.pick(&[0.05, 0.3, 1.0]);
    let noise = r.pick(&[0.0, 0.05, 0.3]);
    let mut r2 = r.fork();
    let saddr = w.saddr;
    let mut huge = r.chance(0.02) as u32;
    w.run(
        ctx,
        end,
        |w, ctx, who| {
            let r = &mut r2;
            if r.chance(act) {
                for _ in 0..r.pick(&[1, 1, 4]) {
                    let max = match who {
                        Who::Client(_) => b.max_packet_size,
                        Who::Server => a.max_packet_size,
                    };
                    let mut len = match r.below(4) {
                        0 => 0,
                        1 => max,
                        _ => r.below(4000) as usize,
                    };
                    if len > 100_000 && huge == 0 {
                        len = 100_000;
                    } else if len > 100_000 {
                        huge -= 1;
                    }
                    let len = len.min(max);
                    let chan = r.pick(&[0, 1, 63]);
                    let mode = r.pick(&MODES4);
                    ctx.count("api_calls", 1);
                    match who {
                        Who::Client(i) => match r.below(40) {
                            0..=29 => w.send_client(ctx, i, len, chan, mode),
                            30 => w.disconnect_client(ctx, i, Req::Flush),
                            31 => w.disconnect_client(ctx, i, Req::Now),
                            32..=35 => w.flush_client(ctx, i),
                            36 => w.step_client(ctx, i),
                            37 => w.drop_client(i),
                            38 => {
                                if w.clis.len() < 8 {
                                    let cad = odd_cadence(r);
                                    w.connect(ctx, b.clone(), cad);
                                }
                            }
                            _ => {
                                if let Some(c) = &w.clis[i].c {
                                    crate::core::lib(|| (c.is_active(), c.send_buffer_size(), c.rtt_s(), c.local_address(), c.remote_address()));
                                }
                            }
                        },
                        Who::Server => {
                            let l = w.known_addrs();
                            if l.is_empty() {
                                continue;
                            }
                            let x = r.pick(&l);
                            match r.below(40) {
                                0..=29 => w.send_server(ctx, x, len, chan, mode),
                                30 => w.disconnect_server(ctx, x, Req::Flush),
                                31 => w.disconnect_server(ctx, x, Req::Now),
                                32..=35 => w.flush_server(ctx),
                                36 => w.step_server(ctx),
                                37 => w.drop_session(ctx, x),
                                _ => {
                                    if let Some(s) = &w.server {
                                        crate::core::lib(|| s.client(&x).map(|c| (c.borrow().is_active(), c.borrow().send_buffer_size(), c.borrow().rtt_s())));
                                    }
                                }
                            }
                        }
                    }
                }
            }
            if r.chance(noise / 10.0) {
                socket_errors(w, ctx, r, true);
            }
            if r.chance(noise) {
                for _ in 0..r.pick(&[1, 1, 10]) {
                    let b = if !w.old.is_empty() && r.chance(0.5) {
                        let k = r.below(w.old.len() as u64) as usize;
                        let b = w.old[k].2.clone();
                        mutate(r, &b)
                    } else {
                        junk(r)
                    };
                    ctx.count("hostile_datagrams", 1);
                    let i = r.below(w.clis.len() as u64) as usize;
                    let ca = w.clis[i].addr;
                    match r.below(3) {
                        0 => {
                            let x = raw_addr(r.below(5), v6);
                            w.forge(ctx, x, saddr, &b);
                        }
                        1 => w.forge(ctx, ca, saddr, &b),
                        _ => w.forge(ctx, saddr, ca, &b),
                    }
                }
            }
        },
        |_| false,
    );
    ctx.nontrivial = ctx.obs.get("api_calls").copied().unwrap_or(0) > 0;
    w.finish();
}

pub fn c03() -> Property {
    Property {
        id: "C03",
        rule: "a case counts if hostile frames were accepted as well-formed (halves), an attacker completed a handshake (server), the victim connected (client), or the application called something (calls); cases are distinct if the sequence numbers reached differ or the connection events do",
        scenarios: vec![
            sc("halves", 2_500, 300_000, c03_halves),
            sc("server", 80, 15_000, c03_server),
            sc("client", 300, 40_000, c03_client),
            sc("calls", 400, 40_000, c03_calls),
        ],
        floors: &[
            ("hostile_frames_handled", 100_000),
            ("hostile_datagrams", 200_000),
            ("attackers_connected", 150),
            ("honest_connections_served", 80),
            ("client_connects", 200),
            ("server_connects", 200),
            ("api_calls", 50_000),
            ("socket_errors", 1_000),
        ],
    }
}
