//! HalfConnection driver: wrapper, traffic model with per-direction monitors, simulated network.

use std::cmp::Reverse;
use std::collections::{BinaryHeap, HashMap, VecDeque};

use uflow::verif as v;
use uflow::SendMode;

use crate::alloc;
use crate::core::{lib, mix, out, Ctx, Rng};
use crate::vlog;
use crate::wire::{self, alloc_size, padd, psub, Fr, FRAG, PMASK};

pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

thread_local! {
    /// Time between the creation of the endpoints and the beginning of the case
    static AGE: std::cell::Cell<u64> = std::cell::Cell::new(0);
}

pub fn set_now(ns: u64) {
    v::time::set_now_ns(ns + AGE.with(|a| a.get()));
}

/// To be called at time 0 when the endpoints have been created. Some of them have existed for weeks when the case begins:
/// milliseconds since their creation are about to exceed 31 or 32 bits, or have done so.
/// Tells whether they have: then each half connection has to be stepped once before anything else, as it would be by the
/// endpoint that creates it (its clock starts with its first step).
pub fn age(ctx: &mut Ctx) -> bool {
    let h = mix(ctx.index ^ 0x00a6_e000);
    if h % 6 != 0 {
        return false;
    }
    let soon = mix(h) % 30_000 * MS;
    let a = match mix(h ^ 1) % 5 {
        0 => (1u64 << 31) * MS - soon,
        1 => (1u64 << 32) * MS - soon,
        2 => (1u64 << 32) * MS + soon,
        3 => (1u64 << 33) * MS - soon,
        _ => 500 * 86_400 * SEC + soon,
    };
    AGE.with(|c| c.set(a));
    ctx.count("endpoints_weeks_old", 1);
    set_now(0);
    true
}

pub fn young() {
    AGE.with(|c| c.set(0));
}

pub struct Hc {
    pub inner: v::HalfConnection,
}

impl Hc {
    pub fn new(c: v::Config) -> Self {
        Hc { inner: lib(|| v::HalfConnection::new(c)) }
    }
    pub fn send(&mut self, data: &[u8], chan: u8, mode: SendMode) {
        let b = alloc::payload(data);
        lib(|| self.inner.send(b, chan, mode))
    }
    pub fn step(&mut self) {
        lib(|| self.inner.step())
    }
    pub fn flush(&mut self, frames: &mut Vec<Vec<u8>>) {
        lib(|| v::hc_flush(&mut self.inner, &mut |b: &[u8]| out(|| frames.push(b.to_vec()))))
    }
    pub fn receive(&mut self, packets: &mut Vec<Box<[u8]>>) {
        lib(|| v::hc_receive(&mut self.inner, &mut |b: Box<[u8]>| out(|| packets.push(b))))
    }
    pub fn handle(&mut self, bytes: &[u8]) -> bool {
        lib(|| v::hc_handle(&mut self.inner, bytes))
    }
    pub fn pending(&self) -> bool {
        lib(|| self.inner.is_send_pending())
    }
    pub fn buffer(&self) -> usize {
        lib(|| self.inner.send_buffer_size())
    }
    pub fn rtt(&self) -> Option<f64> {
        lib(|| self.inner.rtt_s())
    }
    pub fn rate(&self) -> f64 {
        lib(|| self.inner.verif_send_rate())
    }
}

pub fn drop_hc(h: Hc) {
    lib(move || drop(h))
}

// ---------------------------------------------------------------------------------------------------------------
// Traffic of one direction and its monitors

pub const ORDER: u32 = 1; // C01
pub const RELIABLE: u32 = 2; // C02
pub const FRAMES: u32 = 4; // C04
pub const GLOBAL: u32 = 8; // C05
pub const LIMITS: u32 = 16; // C06
pub const MODES: u32 = 32; // C12
pub const RATE: u32 = 64; // C13
pub const BUFFER: u32 = 128; // C20

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Phase {
    Queued,
    Assigned,
    Released,
    Dropped,
}

pub struct Pkt {
    pub chan: u8,
    pub mode: SendMode,
    pub len: usize,
    pub tick: u64,
    pub at: u64,
    pub delivered: bool,
    pub phase: Phase,
    pub seq: u32,
    pub frags: Vec<FragState>,
    pub fate_lost: bool,
}

#[derive(Clone, Copy, Default)]
pub struct FragState {
    pub tx: u32,
    /// Its acknowledgement has certainly been processed
    pub acked: bool,
    /// Some genuine acknowledgement of it, however late, has been passed to the sender
    pub maybe: bool,
    pub last_tx: u64,
}

pub struct FrameRec {
    pub at: u64,
    pub nonce: bool,
    pub frags: Vec<(u32, u16)>,
    pub acked: bool,
}

pub fn mode_idx(m: SendMode) -> usize {
    match m {
        SendMode::TimeSensitive => 0,
        SendMode::Unreliable => 1,
        SendMode::Persistent => 2,
        SendMode::Reliable => 3,
    }
}

pub const MODES4: [SendMode; 4] = [SendMode::TimeSensitive, SendMode::Unreliable, SendMode::Persistent, SendMode::Reliable];

pub struct Dir {
    pub on: u32,
    pub name: &'static str,
    pub salt: u64,
    pub pkts: Vec<Pkt>,
    small: HashMap<Vec<u8>, u32>,
    small_next: [u32; 4],
    zero_chan: u8,
    zero_sent: u64,
    pub zero_rel: u64,
    pub zero_got: u64,
    // receiver
    last_on_chan: [i64; 64],
    rel: Vec<VecDeque<u32>>,
    global_next: usize,
    pub delivered: u64,
    pub delivered_bytes: u64,
    pub last_delivery: u64,
    // sender
    pub ticks: u64,
    /// When the sender was stepped last: the time it ascribes to the frames it sends until the next step
    pub last_step: u64,
    /// Send time of the newest frame acknowledged for the first time since this was last taken
    pub newest_ack: Option<u64>,
    /// An acknowledgement was handled which the sender may or may not have honoured
    pub doubtful_ack: bool,
    /// Frames this far behind the window base are remembered
    pub tail: u32,
    /// Frames stamped before this time may have been forgotten by the sender
    pub forgotten: u64,
    pub queue: VecDeque<u32>,
    pub by_seq: HashMap<u32, u32>,
    pub base: u32,
    pub next: u32,
    pub window: u32,
    pub alloc_limit: usize,
    pub alloc: usize,
    pub max_alloc_seen: usize,
    pub max_out_seen: u32,
    pub frames: HashMap<u32, FrameRec>,
    pub frame_base: u32,
    pub frame_next: u32,
    pub total: usize,
    pub blind: u64,
    pub retx: u64,
    pub acked_frags: u64,
    pub ts_dropped: u64,
    pub stale_blocked: u64,
    // rate
    pub rate: RateMon,
    pub max_frame: usize,
    // newest frame the peer has handled and newest first-id of it
    pub handled_by_peer: u64,
}

/// Token bucket audit of emitted bytes: for every interval [t_i, t_j],
/// bytes <= ceil * (t_j - t_i) + ceil * rtt(t_i) + 1472.
pub struct RateMon {
    pub ceil: f64,
    /// Largest value of -(bytes before i) + ceil*t_i - ceil*rtt_i over all i so far, see `emit`
    best: f64,
    cum: f64,
    pub frames: u64,
    pub bytes: u64,
    pub worst: f64,
}

impl RateMon {
    pub fn new(ceil: f64) -> Self {
        RateMon { ceil, best: f64::INFINITY, cum: 0.0, frames: 0, bytes: 0, worst: f64::NEG_INFINITY }
    }
    /// Returns the number of bytes by which some interval ending now exceeds its allowance (negative if none does).
    pub fn emit(&mut self, now: u64, len: usize, rtt: Option<f64>) -> f64 {
        let t = now as f64 / 1e9;
        // An interval starting with this very frame
        let start = self.cum - self.ceil * t + self.ceil * rtt.unwrap_or(0.0);
        // Minimise (cum_before_i - ceil*t_i + ceil*rtt_i)
        self.best = self.best.min(start);
        self.cum += len as f64;
        self.frames += 1;
        self.bytes += len as u64;
        let excess = self.cum - self.ceil * t - self.best - wire::MAX_FRAME as f64;
        self.worst = self.worst.max(excess);
        excess
    }
}

impl Dir {
    pub fn new(name: &'static str, on: u32, salt: u64, base: u32, frame_base: u32, window: u32, alloc_limit: usize, ceil: f64) -> Self {
        Dir {
            on,
            name,
            salt,
            pkts: Vec::new(),
            small: HashMap::new(),
            small_next: [0; 4],
            zero_chan: 63,
            zero_sent: 0,
            zero_rel: 0,
            zero_got: 0,
            last_on_chan: [-1; 64],
            rel: (0..64).map(|_| VecDeque::new()).collect(),
            global_next: 0,
            delivered: 0,
            delivered_bytes: 0,
            last_delivery: 0,
            ticks: 0,
            last_step: 0,
            newest_ack: None,
            doubtful_ack: false,
            tail: 0,
            forgotten: 0,
            queue: VecDeque::new(),
            by_seq: HashMap::new(),
            base,
            next: base,
            window,
            alloc_limit,
            alloc: 0,
            max_alloc_seen: 0,
            max_out_seen: 0,
            frames: HashMap::new(),
            frame_base,
            frame_next: frame_base,
            total: 0,
            blind: 0,
            retx: 0,
            acked_frags: 0,
            ts_dropped: 0,
            stale_blocked: 0,
            rate: RateMon::new(ceil),
            max_frame: 0,
            handled_by_peer: 0,
        }
    }

    fn fill(&self, uid: u32, len: usize) -> Vec<u8> {
        let mut b = vec![0u8; len];
        let mut s = mix(self.salt ^ (uid as u64) << 20 ^ len as u64);
        for c in b.chunks_mut(8) {
            s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let w = (s ^ (s >> 29)).to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
        let mut at = 0;
        while at + 4 <= len {
            b[at..at + 4].copy_from_slice(&uid.to_le_bytes());
            at += FRAG;
        }
        b
    }

    /// Registers a packet about to be submitted and returns its payload (and possibly adjusted channel, mode).
    pub fn make(&mut self, len: usize, chan: u8, mode: SendMode, now: u64) -> (Vec<u8>, u8, SendMode) {
        let uid = self.pkts.len() as u32;
        let mut len = len;
        let (mut chan, mut mode) = (chan, mode);
        if (1..4).contains(&len) && self.small_next[len] >= (1u64 << (8 * len)).min(1 << 20) as u32 {
            len = 4;
        }
        let data = if len == 0 {
            // Anonymous: kept apart on a channel of their own
            chan = self.zero_chan;
            if mode == SendMode::TimeSensitive {
                mode = SendMode::Reliable;
            }
            self.zero_sent += 1;
            self.zero_rel += (mode == SendMode::Reliable) as u64;
            Vec::new()
        } else if len < 4 {
            if chan == self.zero_chan {
                chan -= 1;
            }
            let n = self.small_next[len];
            self.small_next[len] += 1;
            let d = n.to_le_bytes()[..len].to_vec();
            self.small.insert(d.clone(), uid);
            d
        } else {
            if chan == self.zero_chan {
                chan -= 1;
            }
            self.fill(uid, len)
        };
        let n = len.div_ceil(FRAG).max(1);
        self.pkts.push(Pkt {
            chan,
            mode,
            len,
            tick: self.ticks,
            at: now,
            delivered: false,
            phase: Phase::Queued,
            seq: 0,
            frags: vec![FragState::default(); n],
            fate_lost: false,
        });
        if mode == SendMode::Reliable && len > 0 {
            self.rel[chan as usize].push_back(uid);
        }
        self.queue.push_back(uid);
        self.total += len;
        (data, chan, mode)
    }

    // ---- receiver side ------------------------------------------------------------------------------------------

    pub fn identify(&self, data: &[u8]) -> Option<u32> {
        match data.len() {
            0 => None,
            1..=3 => self.small.get(data).copied(),
            _ => {
                let uid = u32::from_le_bytes([data[0], data[1], data[2], data[3]]);
                ((uid as usize) < self.pkts.len()).then_some(uid)
            }
        }
    }

    pub fn on_received(&mut self, ctx: &mut Ctx, data: &[u8], now: u64) {
        self.delivered += 1;
        self.delivered_bytes += data.len() as u64;
        self.last_delivery = now;
        let content = self.on & (ORDER | FRAMES | GLOBAL | RELIABLE) != 0;
        if data.is_empty() {
            self.zero_got += 1;
            if content && self.zero_got > self.zero_sent {
                ctx.fail(format!("{}: an empty packet was delivered which was never submitted or twice", self.name));
            }
            if self.on & GLOBAL != 0 {
                self.global(ctx, None);
            }
            return;
        }
        let Some(uid) = self.identify(data) else {
            if content {
                ctx.fail(format!("{}: delivered {} bytes which were never submitted: {:02x?}", self.name, data.len(), &data[..data.len().min(16)]));
            }
            return;
        };
        let p = &self.pkts[uid as usize];
        if content {
            if p.len != data.len() || (data.len() >= 4 && self.fill(uid, p.len) != data) {
                let exp = self.fill(uid, p.len);
                let at = exp.iter().zip(data.iter()).position(|(a, b)| a != b);
                ctx.fail(format!("{}: packet {} delivered with altered contents (submitted {} bytes, got {}, first difference at {:?})", self.name, uid, p.len, data.len(), at));
                return;
            }
            if p.delivered {
                ctx.fail(format!("{}: packet {} (channel {}, {:?}, {} bytes) delivered twice", self.name, uid, p.chan, p.mode, p.len));
                return;
            }
        }
        let p = &mut self.pkts[uid as usize];
        p.delivered = true;
        let (chan, len, mode) = (p.chan as usize, p.len, p.mode);
        if self.on & (ORDER | GLOBAL) != 0 {
            if (uid as i64) < self.last_on_chan[chan] {
                ctx.fail(format!("{}: packet {} delivered after packet {} on channel {}", self.name, uid, self.last_on_chan[chan], chan));
            }
            self.last_on_chan[chan] = self.last_on_chan[chan].max(uid as i64);
        }
        if self.on & RELIABLE != 0 {
            while let Some(&r) = self.rel[chan].front() {
                if self.pkts[r as usize].delivered {
                    self.rel[chan].pop_front();
                } else {
                    if r < uid {
                        ctx.fail(format!("{}: packet {} ({:?}) of channel {} delivered before earlier Reliable packet {}", self.name, uid, mode, chan, r));
                    }
                    break;
                }
            }
        }
        if self.on & GLOBAL != 0 {
            self.global(ctx, Some(uid));
        }
        ctx.seen((uid as u64) << 32 | len as u64);
    }

    // Ideal network: walks the submission order; only TimeSensitive packets may be stepped over
    fn global(&mut self, ctx: &mut Ctx, uid: Option<u32>) {
        loop {
            let Some(p) = self.pkts.get(self.global_next) else {
                ctx.fail(format!("{}: delivery of {:?} out of global order", self.name, uid));
                return;
            };
            let matches = match uid {
                Some(u) => u as usize == self.global_next,
                None => p.len == 0,
            };
            if matches {
                self.pkts[self.global_next].delivered = true;
                self.global_next += 1;
                return;
            }
            if p.mode != SendMode::TimeSensitive {
                ctx.fail(format!(
                    "{}: packet {:?} delivered while earlier packet {} ({:?}, channel {}, {} bytes) was not",
                    self.name, uid, self.global_next, p.mode, p.chan, p.len
                ));
                return;
            }
            self.global_next += 1;
        }
    }

    pub fn undelivered(&self, f: impl Fn(&Pkt) -> bool) -> Vec<u32> {
        (0..self.pkts.len() as u32)
            .filter(|&u| {
                let p = &self.pkts[u as usize];
                p.len > 0 && !p.delivered && f(p)
            })
            .collect()
    }

    pub fn zero_missing(&self) -> u64 {
        self.zero_sent - self.zero_got
    }

    pub fn reliable_missing(&self) -> usize {
        self.undelivered(|p| p.mode == SendMode::Reliable).len()
    }

    // ---- sender side --------------------------------------------------------------------------------------------

    pub fn on_emit(&mut self, ctx: &mut Ctx, bytes: &[u8], fr: &Option<Fr>, now: u64, rtt: Option<f64>) {
        self.max_frame = self.max_frame.max(bytes.len());
        if self.on & FRAMES != 0 && bytes.len() > wire::MAX_FRAME {
            ctx.fail(format!("{}: emitted a frame of {} bytes", self.name, bytes.len()));
        }
        if self.on & RATE != 0 {
            let excess = self.rate.emit(now, bytes.len(), rtt);
            // Numerical slack of the harness' own floating point sums
            if excess > 1.0 + self.rate.cum * 1e-12 {
                ctx.fail(format!("{}: emitted {:.1} bytes more than the ceiling of {} B/s allows (frame of {} bytes at {:.6} s, rtt {:?})", self.name, excess, self.rate.ceil, bytes.len(), now as f64 / 1e9, rtt));
            }
        }
        let Some(Fr::Data { id, nonce, dgs }) = fr else { return };
        let mut frags = Vec::with_capacity(dgs.len());
        for d in dgs {
            let uid = match self.by_seq.get(&d.seq) {
                Some(&u) => u,
                None => match self.assign(ctx, d) {
                    Some(u) => u,
                    None => {
                        self.blind += 1;
                        continue;
                    }
                },
            };
            frags.push((uid, d.frag));
            self.on_fragment(ctx, uid, d, now);
        }
        self.frame_next = id.wrapping_add(1);
        self.frames.insert(*id, FrameRec { at: self.last_step, nonce: *nonce, frags, acked: false });
        if self.on & LIMITS != 0 {
            let n = psub(self.next, self.base);
            if n > self.window {
                ctx.fail(format!("{}: {} packets outstanding, window is {}", self.name, n, self.window));
            }
            let cap = self.alloc_limit.div_ceil(FRAG) * FRAG;
            if self.alloc > cap {
                ctx.fail(format!("{}: {} unacknowledged packet bytes outstanding, peer accepts {}", self.name, self.alloc, cap));
            }
        }
        self.max_alloc_seen = self.max_alloc_seen.max(self.alloc);
        self.max_out_seen = self.max_out_seen.max(psub(self.next, self.base));
    }

    // First datagram of a packet: find out which submitted packet it carries
    fn assign(&mut self, ctx: &mut Ctx, d: &wire::Dg) -> Option<u32> {
        let strict = self.on & (LIMITS | MODES | BUFFER) != 0;
        let ahead = psub(d.seq, self.base);
        if ahead >= psub(self.next, self.base).wrapping_add(4096) & PMASK || psub(d.seq, self.next) >= 4096 {
            // Neither a new packet nor an outstanding one: a packet the receiver has moved past
            if strict {
                let old = self.pkts.iter().rposition(|p| p.phase == Phase::Released && p.seq == d.seq);
                if let Some(u) = old {
                    let p = &self.pkts[u];
                    if self.on & MODES != 0 && p.mode != SendMode::Reliable {
                        ctx.fail(format!("{}: fragment {} of packet {} ({:?}) transmitted after the receiver reported moving past it", self.name, d.frag, u, p.mode));
                    }
                    return None;
                }
            }
            return None;
        }
        let uid = if d.data.is_empty() && d.last == 0 {
            self.queue.iter().copied().find(|&u| self.pkts[u as usize].len == 0)
        } else if d.data.len() >= 4 || d.last == 0 {
            self.identify(&d.data)
        } else {
            None
        }?;
        // Everything before it in the queue which is TimeSensitive has been discarded
        let pos = self.queue.iter().position(|&u| u == uid)?;
        for _ in 0..pos {
            let u = self.queue.pop_front().unwrap();
            let p = &mut self.pkts[u as usize];
            if p.mode == SendMode::TimeSensitive {
                p.phase = Phase::Dropped;
                self.total -= p.len;
                self.ts_dropped += 1;
            } else {
                // Overtaken; the order monitors judge whether that matters
                self.blind += 1;
                p.phase = Phase::Assigned;
            }
        }
        self.queue.pop_front();
        let p = &mut self.pkts[uid as usize];
        p.phase = Phase::Assigned;
        p.seq = d.seq;
        self.alloc += alloc_size(p.len);
        self.by_seq.insert(d.seq, uid);
        self.next = padd(d.seq, 1);
        Some(uid)
    }

    fn on_fragment(&mut self, ctx: &mut Ctx, uid: u32, d: &wire::Dg, now: u64) {
        let ticks = self.ticks;
        let on = self.on;
        let name = self.name;
        let p = &mut self.pkts[uid as usize];
        let begun = p.frags.iter().any(|f| f.tx > 0);
        if on & FRAMES != 0 {
            let n = p.len.div_ceil(FRAG).max(1);
            if d.last as usize + 1 != n || d.frag > d.last {
                ctx.fail(format!("{}: packet {} of {} bytes sent as fragment {} of last {}", name, uid, p.len, d.frag, d.last));
                return;
            }
            let want = (p.len - (d.frag as usize * FRAG).min(p.len)).min(FRAG);
            if d.data.len() != want {
                ctx.fail(format!("{}: fragment {}/{} of packet {} ({} bytes) carries {} bytes instead of {}", name, d.frag, d.last, uid, p.len, d.data.len(), want));
                return;
            }
        }
        let Some(f) = p.frags.get_mut(d.frag as usize) else { return };
        if on & MODES != 0 {
            match p.mode {
                SendMode::Unreliable | SendMode::TimeSensitive => {
                    if f.tx > 0 {
                        ctx.fail(format!("{}: fragment {} of {:?} packet {} transmitted again", name, d.frag, p.mode, uid));
                    }
                    if p.mode == SendMode::TimeSensitive && !begun && ticks != p.tick {
                        ctx.fail(format!("{}: TimeSensitive packet {} submitted before step {} first transmitted after step {}", name, uid, p.tick + 1, ticks));
                    }
                }
                SendMode::Persistent | SendMode::Reliable => {
                    if f.acked {
                        ctx.fail(format!("{}: fragment {} of {:?} packet {} transmitted after its acknowledgement was processed", name, d.frag, p.mode, uid));
                    }
                }
            }
        }
        if f.tx > 0 {
            self.retx += 1;
        }
        f.tx += 1;
        f.last_tx = now;
    }

    /// The sender has been stepped; `rtt` is its estimate from before.
    pub fn on_step(&mut self, now: u64, rtt: Option<f64>) {
        self.ticks += 1;
        self.last_step = now;
        // The retransmission timeout is at least four round trips
        let keep = rtt.map(|r| (4.0 * r * 1e9) as u64).unwrap_or(600 * MS);
        self.forgotten = self.forgotten.max((now + 2 * MS).saturating_sub(keep));
    }

    /// An ack frame from the peer was handed to the sender.
    pub fn on_ack(&mut self, fbase: u32, pbase: u32, groups: &[wire::Grp]) {
        for g in groups {
            // All covered frames must have been sent, and the nonce must match
            let mut xor = false;
            let mut ok = true;
            let mut fresh = true;
            let mut ids = Vec::new();
            for i in 0..32u32 {
                if g.bits >> i & 1 != 0 {
                    let id = g.base.wrapping_add(i);
                    match self.frames.get(&id) {
                        Some(f) => {
                            xor ^= f.nonce;
                            // Only acknowledgements arriving promptly are certain to be honoured
                            let behind = self.frame_base.wrapping_sub(id) as i32;
                            if f.at < self.forgotten || behind > self.tail as i32 {
                                fresh = false;
                            }
                            ids.push(id);
                        }
                        None => ok = false,
                    }
                }
            }
            if !ok || xor != g.nonce {
                continue;
            }
            for id in ids {
                let f = self.frames.get_mut(&id).unwrap();
                if f.acked {
                    continue;
                }
                f.acked = fresh;
                if fresh {
                    self.newest_ack = self.newest_ack.max(Some(f.at));
                } else {
                    self.doubtful_ack = true;
                }
                for &(u, i) in &f.frags {
                    if let Some(s) = self.pkts[u as usize].frags.get_mut(i as usize) {
                        s.maybe = true;
                        s.acked |= fresh;
                        self.acked_frags += fresh as u64;
                    }
                }
            }
        }
        let span = self.frame_next.wrapping_sub(self.frame_base);
        let d = fbase.wrapping_sub(self.frame_base);
        if d <= span {
            self.frame_base = fbase;
        }
        if self.frames.len() > 40000 {
            let fb = self.frame_base;
            self.frames.retain(|id, _| (fb.wrapping_sub(*id) as i32) < 9000);
        }
        if pbase <= PMASK && psub(pbase, self.base) <= psub(self.next, self.base) {
            while self.base != pbase {
                if let Some(u) = self.by_seq.remove(&self.base) {
                    let p = &mut self.pkts[u as usize];
                    p.phase = Phase::Released;
                    self.alloc -= alloc_size(p.len);
                    self.total -= p.len;
                }
                self.base = padd(self.base, 1);
            }
        }
    }

    /// Checks `send_buffer_size()` against the model.
    pub fn check_buffer(&mut self, ctx: &mut Ctx, got: usize) {
        if self.on & BUFFER == 0 || self.blind > 0 {
            return;
        }
        let mut allowed = self.total;
        if got == allowed {
            return;
        }
        // Stale TimeSensitive packets at the head of the queue may have been discarded already
        for &u in &self.queue {
            let p = &self.pkts[u as usize];
            if p.mode != SendMode::TimeSensitive || p.tick == self.ticks {
                break;
            }
            allowed -= p.len;
            if got == allowed {
                return;
            }
        }
        ctx.fail(format!(
            "{}: send_buffer_size() is {}, but {} bytes are queued or unacknowledged ({} packets queued, {} outstanding; {} with stale TimeSensitive packets discarded)",
            self.name,
            got,
            self.total,
            self.queue.len(),
            self.by_seq.len(),
            allowed
        ));
    }
}

// ---------------------------------------------------------------------------------------------------------------
// Network

#[derive(Clone, Debug)]
pub struct Link {
    pub delay: u64,
    pub jitter: u64,
    pub loss: f64,
    pub dup: f64,
    pub corrupt: f64,
    pub fifo: bool,
    /// Intervals during which everything is lost
    pub dark: Vec<(u64, u64)>,
    /// Extra delay during intervals
    pub slow: Vec<(u64, u64, u64)>,
    /// Probability that a data/sync/ack frame is lost, on top of `loss`
    pub loss_by_kind: [f64; 3],
    /// Loss probability of data/sync/ack frames (bits of the mask) during intervals
    pub only: Vec<(u64, u64, u8, f64)>,
    /// Faults cease at this time
    pub until: u64,
    /// Probability that some earlier frame is sent again along with a frame
    pub replay: f64,
    history: Vec<Vec<u8>>,
    last: u64,
}

impl Link {
    pub fn ideal(delay: u64) -> Self {
        Link {
            delay,
            jitter: 0,
            loss: 0.0,
            dup: 0.0,
            corrupt: 0.0,
            fifo: true,
            dark: Vec::new(),
            slow: Vec::new(),
            loss_by_kind: [0.0; 3],
            only: Vec::new(),
            until: u64::MAX,
            replay: 0.0,
            history: Vec::new(),
            last: 0,
        }
    }

    /// Random fault mix.
    pub fn faulty(r: &mut Rng, until: u64) -> Self {
        let mut l = Link::ideal(r.pick(&[0, MS, 5 * MS, 20 * MS, 50 * MS, 150 * MS, 400 * MS]));
        l.until = until;
        l.fifo = r.chance(0.3);
        if r.chance(0.7) {
            l.jitter = r.pick(&[MS, 10 * MS, 50 * MS, 300 * MS, 2 * SEC]);
        }
        if r.chance(0.8) {
            l.loss = r.pick(&[0.005, 0.02, 0.1, 0.3, 0.6]);
        }
        if r.chance(0.6) {
            l.dup = r.pick(&[0.01, 0.1, 0.5]);
        }
        if r.chance(0.3) {
            l.corrupt = r.pick(&[0.01, 0.1]);
        }
        if r.chance(0.3) {
            for k in 0..3 {
                if r.chance(0.5) {
                    l.loss_by_kind[k] = r.pick(&[0.1, 0.5, 0.9]);
                }
            }
        }
        if r.chance(0.4) && until > 0 {
            for _ in 0..r.range(1, 3) {
                let a = r.below(until);
                let d = r.pick(&[50 * MS, 500 * MS, 3 * SEC, 10 * SEC]);
                l.dark.push((a, (a + d).min(until)));
            }
        }
        l
    }

    pub fn fate(&mut self, r: &mut Rng, now: u64, bytes: &[u8], sends: &mut Vec<(u64, Vec<u8>)>) {
        let faulty = now < self.until;
        if faulty {
            if self.dark.iter().any(|&(a, b)| now >= a && now < b) {
                return;
            }
            if r.chance(self.loss) {
                return;
            }
            let k = match bytes[0] {
                10 => 0,
                11 => 1,
                12 => 2,
                _ => 3,
            };
            if k < 3 && self.loss_by_kind[k] > 0.0 && r.chance(self.loss_by_kind[k]) {
                return;
            }
            for &(a, b, mask, p) in &self.only {
                if k < 3 && now >= a && now < b && mask >> k & 1 != 0 && r.chance(p) {
                    return;
                }
            }
        }
        if self.replay > 0.0 && faulty {
            if self.history.len() < 4096 {
                self.history.push(bytes.to_vec());
            } else {
                let i = r.below(4096) as usize;
                self.history[i] = bytes.to_vec();
            }
            if r.chance(self.replay) {
                let n = self.history.len() as u64;
                let i = if r.chance(0.5) { r.below(n) } else { n - 1 - r.below(n.min(64)) };
                sends.push((now + self.delay + r.below(self.jitter.max(MS)), self.history[i as usize].clone()));
            }
        }
        let copies = if faulty && self.dup > 0.0 && r.chance(self.dup) { 2 + r.below(2) } else { 1 };
        for _ in 0..copies {
            let mut at = now + self.delay;
            if faulty && self.jitter > 0 {
                at += r.below(self.jitter);
            }
            for &(a, b, d) in &self.slow {
                if now >= a && now < b {
                    at += d;
                }
            }
            if self.fifo {
                at = at.max(self.last);
                self.last = at;
            }
            let mut data = bytes.to_vec();
            if faulty && self.corrupt > 0.0 && r.chance(self.corrupt) {
                // Distinct positions, so that the result always differs
                let mut done: Vec<u64> = Vec::new();
                for _ in 0..r.range(1, 4) {
                    let bit = r.below(data.len() as u64 * 8);
                    if !done.contains(&bit) {
                        done.push(bit);
                        data[(bit / 8) as usize] ^= 1 << (bit % 8);
                    }
                }
            }
            sends.push((at, data));
        }
    }
}

// ---------------------------------------------------------------------------------------------------------------
// Two connected HalfConnections

#[derive(Clone, Debug)]
pub struct Cadence {
    pub interval: u64,
    pub jitter: u64,
    /// Extra flushes between steps
    pub flushes: u32,
    /// Probability of flushing right after the step
    pub flush_after: f64,
    /// Probability of a pause of the given length
    pub pause: (f64, u64),
    /// Later change of the interval
    pub change: Option<(u64, u64)>,
}

impl Cadence {
    pub fn fixed(interval: u64) -> Self {
        Cadence { interval, jitter: 0, flushes: 0, flush_after: 1.0, pause: (0.0, 0), change: None }
    }
    pub fn random(r: &mut Rng) -> Self {
        let interval = r.pick(&[MS / 2, MS, 5 * MS, 15 * MS, 33 * MS, 100 * MS, 300 * MS]);
        Cadence {
            interval,
            jitter: if r.chance(0.5) { interval / 2 } else { 0 },
            flushes: if r.chance(0.3) { r.range(1, 3) as u32 } else { 0 },
            flush_after: r.pick(&[0.0, 0.5, 1.0]),
            pause: if r.chance(0.2) { (0.005, r.pick(&[300 * MS, 2 * SEC, 5 * SEC])) } else { (0.0, 0) },
            change: None,
        }
    }
    pub fn next(&self, r: &mut Rng, now: u64) -> u64 {
        let mut i = self.interval;
        if let Some((at, to)) = self.change {
            if now >= at {
                i = to;
            }
        }
        if self.jitter > 0 {
            let j = self.jitter.min(i);
            i = i + r.below(j.max(1)) - j / 2;
        }
        if self.pause.0 > 0.0 && r.chance(self.pause.0) {
            i += self.pause.1;
        }
        i
    }
}

#[derive(PartialEq, Eq, PartialOrd, Ord)]
enum Ev {
    Arrive(usize, Vec<u8>),
    Flush(usize),
    Tick(usize),
}

pub struct End {
    pub hc: Hc,
    pub inbox: Vec<Vec<u8>>,
    pub cadence: Cadence,
    pub dead: bool,
    pub frames_out: u64,
}

pub struct Sim {
    pub now: u64,
    pub ends: Vec<End>,
    /// dirs[i]: traffic submitted by end i
    pub dirs: Vec<Dir>,
    /// links[i]: from end i to the other
    pub links: Vec<Link>,
    q: BinaryHeap<Reverse<(u64, u64, Ev)>>,
    serial: u64,
    rng: Rng,
    /// Adds up to this much virtual time between API calls of one tick (real calls take time)
    pub frames_lost: u64,
    pub handled: u64,
    pub ack_fresh: bool,
    out_buf: Vec<Vec<u8>>,
    pkt_buf: Vec<Box<[u8]>>,
}

#[derive(Clone, Debug)]
pub struct Setup {
    pub fwin: [u32; 2],
    pub pwin: [u32; 2],
    pub fbase: [u32; 2],
    pub pbase: [u32; 2],
    pub ceil: [u32; 2],
    /// alloc[i]: receive limit of end i
    pub alloc: [usize; 2],
    pub keepalive: [Option<u64>; 2],
}

impl Setup {
    pub fn random(r: &mut Rng) -> Self {
        let win = |r: &mut Rng| 1u32 << r.pick(&[0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 12, 12]);
        let fb = |r: &mut Rng| if r.chance(0.5) { 0u32.wrapping_sub(r.below(300) as u32) } else { r.u32() };
        let pb = |r: &mut Rng| if r.chance(0.5) { 0u32.wrapping_sub(r.below(300) as u32) & PMASK } else { r.u32() & PMASK };
        let ceil = |r: &mut Rng| r.pick(&[1472u32, 10_000, 100_000, 2_000_000, 2_000_000, 50_000_000, u32::MAX]);
        let alloc = |r: &mut Rng| r.pick(&[1usize, 1448, 1449, 3000, 10_000, 100_000, 1_000_000, 1_000_000]);
        Setup {
            fwin: [win(r), win(r)],
            pwin: [win(r), win(r)],
            fbase: [fb(r), fb(r)],
            pbase: [pb(r), pb(r)],
            ceil: [ceil(r), ceil(r)],
            alloc: [alloc(r), alloc(r)],
            keepalive: [r.chance(0.3).then_some(5000), r.chance(0.3).then_some(5000)],
        }
    }
    pub fn plain() -> Self {
        Setup {
            fwin: [4096; 2],
            pwin: [4096; 2],
            fbase: [0; 2],
            pbase: [0; 2],
            ceil: [2_000_000; 2],
            alloc: [1_000_000; 2],
            keepalive: [None; 2],
        }
    }
    pub fn config(&self, i: usize) -> v::Config {
        let j = 1 - i;
        v::Config {
            tx_frame_base_id: self.fbase[i],
            rx_frame_base_id: self.fbase[j],
            tx_frame_window_size: self.fwin[i],
            rx_frame_window_size: self.fwin[j],
            tx_packet_base_id: self.pbase[i],
            rx_packet_base_id: self.pbase[j],
            tx_packet_window_size: self.pwin[i],
            rx_packet_window_size: self.pwin[j],
            tx_bandwidth_limit: self.ceil[i],
            tx_alloc_limit: self.alloc[j].min(u32::MAX as usize),
            rx_alloc_limit: self.alloc[i],
            keepalive_interval_ms: self.keepalive[i],
        }
    }
}

impl Sim {
    pub fn new(ctx: &mut Ctx, s: &Setup, on: u32, links: Vec<Link>, cadence: Vec<Cadence>) -> Self {
        young();
        set_now(0);
        let salt = ctx.rng.u64();
        let mut ends = cadence
            .into_iter()
            .enumerate()
            .map(|(i, c)| End {
                hc: Hc::new(s.config(i)),
                inbox: Vec::new(),
                cadence: c,
                dead: false,
                frames_out: 0,
            })
            .collect::<Vec<_>>();
        let dirs = (0..2)
            .map(|i| {
                let mut d = Dir::new(
                    if i == 0 { "A->B" } else { "B->A" },
                    on,
                    salt ^ i as u64,
                    s.pbase[i],
                    s.fbase[i],
                    s.pwin[i],
                    s.alloc[1 - i],
                    s.ceil[i] as f64,
                );
                d.tail = s.fwin[i];
                d
            })
            .collect();
        if age(ctx) {
            ends.iter_mut().for_each(|e| e.hc.step());
        }
        let mut sim = Sim {
            now: 0,
            ends,
            dirs,
            links,
            q: BinaryHeap::new(),
            serial: 0,
            rng: ctx.rng.fork(),
            frames_lost: 0,
            handled: 0,
            ack_fresh: true,
            out_buf: Vec::new(),
            pkt_buf: Vec::new(),
        };
        let off = sim.rng.below(10 * MS);
        sim.push(0, Ev::Tick(0));
        sim.push(off, Ev::Tick(1));
        sim
    }

    fn push(&mut self, at: u64, e: Ev) {
        self.serial += 1;
        self.q.push(Reverse((at, self.serial, e)));
    }

    pub fn submit(&mut self, ctx: &mut Ctx, i: usize, len: usize, chan: u8, mode: SendMode) {
        let (data, chan, mode) = self.dirs[i].make(len, chan, mode, self.now);
        ctx.count("packets_submitted", 1);
        self.ends[i].hc.send(&data, chan, mode);
        self.check_buffer(ctx, i);
    }

    fn check_buffer(&mut self, ctx: &mut Ctx, i: usize) {
        if self.dirs[i].on & BUFFER != 0 {
            let b = self.ends[i].hc.buffer();
            self.dirs[i].check_buffer(ctx, b);
            ctx.count("buffer_checks", 1);
        }
    }

    pub fn flush(&mut self, ctx: &mut Ctx, i: usize) {
        set_now(self.now);
        let mut frames = std::mem::take(&mut self.out_buf);
        self.ends[i].hc.flush(&mut frames);
        let rtt = self.ends[i].hc.rtt();
        for b in frames.drain(..) {
            self.ends[i].frames_out += 1;
            let fr = wire::parse(&b);
            vlog!(ctx, "{:>12.6} {} emits {} bytes {}", self.now as f64 / 1e9, i, b.len(), brief(&fr));
            ctx.count("frames_emitted", 1);
            self.dirs[i].on_emit(ctx, &b, &fr, self.now, rtt);
            let mut sends = Vec::new();
            self.links[i].fate(&mut self.rng, self.now, &b, &mut sends);
            if sends.is_empty() {
                ctx.count("frames_lost", 1);
                self.frames_lost += 1;
            }
            if sends.len() > 1 {
                ctx.count("frames_duplicated", sends.len() as u64 - 1);
            }
            for (at, data) in sends {
                self.push(at, Ev::Arrive(1 - i, data));
            }
        }
        self.out_buf = frames;
        self.check_buffer(ctx, i);
    }

    fn drain(&mut self, ctx: &mut Ctx, i: usize) {
        let inbox = std::mem::take(&mut self.ends[i].inbox);
        for b in inbox {
            let fr = wire::parse(&b);
            let ok = self.ends[i].hc.handle(&b);
            ctx.count(if ok { "frames_handled" } else { "frames_rejected" }, 1);
            if ok {
                self.handled += 1;
                if let Some(Fr::Ack { fbase, pbase, groups }) = &fr {
                    vlog!(ctx, "{:>12.6} {} handles {}", self.now as f64 / 1e9, i, brief(&fr));
                    self.dirs[i].on_ack(*fbase, *pbase, groups);
                    self.check_buffer(ctx, i);
                }
                if matches!(fr, Some(Fr::Data { .. })) {
                    ctx.count("data_frames_handled", 1);
                }
            }
        }
    }

    pub fn receive(&mut self, ctx: &mut Ctx, i: usize) {
        let mut pkts = std::mem::take(&mut self.pkt_buf);
        self.ends[i].hc.receive(&mut pkts);
        let now = self.now;
        for p in pkts.drain(..) {
            ctx.count("packets_delivered", 1);
            self.dirs[1 - i].on_received(ctx, &p, now);
        }
        self.pkt_buf = pkts;
    }

    /// One application tick, in the order in which Client::step() and Server::step() do it.
    fn tick(&mut self, ctx: &mut Ctx, i: usize) {
        set_now(self.now);
        self.flush(ctx, i);
        self.drain(ctx, i);
        let rtt = self.ends[i].hc.rtt();
        self.ends[i].hc.step();
        self.dirs[i].on_step(self.now, rtt);
        self.check_buffer(ctx, i);
        self.receive(ctx, i);
        ctx.count("steps", 1);
    }

    /// Runs until `stop` returns true (checked after every tick) or the time `end` is reached. `app` is called right
    /// after each tick, before the optional flush.
    pub fn run(
        &mut self,
        ctx: &mut Ctx,
        end: u64,
        mut app: impl FnMut(&mut Sim, &mut Ctx, usize),
        mut stop: impl FnMut(&Sim) -> bool,
    ) {
        while let Some(Reverse((at, _, _))) = self.q.peek() {
            if *at > end || ctx.failed() {
                break;
            }
            let Reverse((at, _, e)) = self.q.pop().unwrap();
            self.now = at;
            match e {
                Ev::Arrive(i, b) => self.ends[i].inbox.push(b),
                Ev::Flush(i) => self.flush(ctx, i),
                Ev::Tick(i) => {
                    self.tick(ctx, i);
                    app(self, ctx, i);
                    let c = self.ends[i].cadence.clone();
                    if self.rng.chance(c.flush_after) {
                        self.flush(ctx, i);
                    }
                    let d = c.next(&mut self.rng, at);
                    for _ in 0..c.flushes {
                        let t = at + self.rng.below(d.max(1));
                        self.push(t, Ev::Flush(i));
                    }
                    self.push(at + d, Ev::Tick(i));
                    if stop(self) {
                        break;
                    }
                }
            }
        }
    }

    pub fn idle(&self) -> bool {
        (0..2).all(|i| !self.ends[i].hc.pending() && self.ends[i].hc.buffer() == 0)
    }

    pub fn finish(self) {
        let Sim { ends, .. } = self;
        for e in ends {
            drop_hc(e.hc);
        }
    }
}

pub fn brief(f: &Option<Fr>) -> String {
    match f {
        Some(Fr::Data { id, dgs, .. }) => format!(
            "data #{} {}",
            id,
            dgs.iter().take(4).map(|d| format!("[{}c{} {}/{} w{} c{} {}B]", d.seq, d.chan, d.frag, d.last, d.wlead, d.clead, d.data.len())).collect::<Vec<_>>().join(" ")
        ),
        Some(Fr::Ack { fbase, pbase, groups }) => format!(
            "ack f{} p{} {}",
            fbase,
            pbase,
            groups.iter().map(|g| format!("{}:{:x}", g.base, g.bits)).collect::<Vec<_>>().join(" ")
        ),
        Some(f) => format!("{:?}", f),
        None => "?".into(),
    }
}

// ---------------------------------------------------------------------------------------------------------------
// Traffic plans

pub struct Plan {
    pub left: u64,
    pub burst: u64,
    pub p: f64,
    pub sizes: u8,
    pub max: usize,
    pub chans: u8,
    pub weights: [u32; 4],
    /// If not zero: the share of the packets which do not use channel 0
    pub rare: f64,
}

impl Plan {
    pub fn random(r: &mut Rng, max_len: usize, packets: u64) -> Self {
        Plan {
            left: packets,
            burst: r.pick(&[1, 1, 3, 10, 40]),
            p: r.pick(&[0.05, 0.3, 1.0]),
            sizes: r.below(5) as u8,
            max: max_len,
            chans: r.pick(&[1, 2, 3, 8, 64]),
            weights: match r.below(6) {
                0 => [0, 0, 0, 1],
                1 => [0, 1, 0, 1],
                2 => [1, 1, 1, 1],
                3 => [0, 0, 1, 1],
                4 => [1, 3, 1, 0],
                _ => [1, 2, 2, 4],
            },
            rare: 0.0,
        }
    }
    pub fn size(&self, r: &mut Rng) -> usize {
        let n = match self.sizes {
            0 => r.below(64) as usize,
            1 => r.below(600) as usize,
            2 => {
                let k = r.below(5) as usize * FRAG;
                (k + r.below(5) as usize).saturating_sub(2)
            }
            3 => r.log(1.0, 20_000.0) as usize,
            5 => 4 + r.below(5) as usize,
            // 128 of these fit a frame
            7 => 4,
            // Around the word sizes of a bit set indexed by fragments
            6 => {
                let k = r.pick(&[7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 192, 255, 256, 257, 300, 400]) * FRAG;
                k + r.below(5) as usize - 2
            }
            _ => r.pick(&[0, 1, 2, 3, 63, 64, 255, 256, 1447, 1448, 1449, 2896, 2897, 4000]),
        };
        n.min(self.max)
    }
    pub fn mode(&self, r: &mut Rng) -> SendMode {
        let t: u32 = self.weights.iter().sum();
        let mut x = r.below(t as u64) as u32;
        for k in 0..4 {
            if x < self.weights[k] {
                return MODES4[k];
            }
            x -= self.weights[k];
        }
        SendMode::Reliable
    }
    /// The packets to submit now.
    pub fn draw(&mut self, r: &mut Rng) -> Vec<(usize, u8, SendMode)> {
        let mut v = Vec::new();
        if self.left == 0 || !r.chance(self.p) {
            return v;
        }
        for _ in 0..r.range(1, self.burst) {
            if self.left == 0 {
                break;
            }
            self.left -= 1;
            let len = self.size(r);
            let mode = self.mode(r);
            let chan = if self.rare > 0.0 && !r.chance(self.rare) { 0 } else { r.below(self.chans as u64) as u8 };
            v.push((len, chan, mode));
        }
        v
    }
    pub fn act(&mut self, sim: &mut Sim, ctx: &mut Ctx, i: usize, r: &mut Rng) {
        for (len, chan, mode) in self.draw(r) {
            sim.submit(ctx, i, len, chan, mode);
        }
    }
}
