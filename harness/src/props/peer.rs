//! A sending HalfConnection under a scripted receiving peer which decides which frames arrive, when and how they are
//! acknowledged, and when the receive window moves: C12, and parts of C06, C15, C20.

use std::collections::HashMap;

use super::frag::seal_lib;
use super::sc;
use super::stream::max_len;
use crate::core::{Ctx, Property, Rng};
use crate::hc::*;
use crate::vlog;
use crate::wire::{self, padd, psub, Fr, Grp};
use uflow::SendMode;

pub struct Script {
    pub setup: Setup,
    pub loss: f64,
    /// Probability that a fragment is chosen to be lost for its first few transmissions
    pub target: f64,
    pub ack_loss: f64,
    pub ack_every: f64,
    pub delay: u64,
    pub ack_delay_max: u64,
    /// Probability per peer tick that the receive window moves over incomplete non-Reliable packets
    pub skip: f64,
    pub plan: Plan,
    pub cadence: Cadence,
    pub fault_end: u64,
    pub end: u64,
    /// Keeps submitting packets of all modes until the faults end
    pub on: u32,
}

impl Script {
    pub fn random(r: &mut Rng, on: u32, thorough: bool) -> Script {
        let mut setup = Setup::random(r);
        setup.alloc[1] = r.pick(&[1, 1448, 1449, 3000, 20_000, 1_000_000, 1_000_000]);
        setup.ceil[0] = r.pick(&[1472, 5000, 100_000, 2_000_000, 50_000_000, u32::MAX]);
        let n = r.range(5, if thorough { 600 } else { 200 });
        let slow = setup.ceil[0] < 10_000;
        let mut plan = Plan::random(r, max_len(&setup, 0).min(if slow { 3000 } else { 30_000 }), n);
        plan.burst = r.pick(&[1, 3, 10, 40, 200]);
        let big = setup.ceil[0] >= 2_000_000 && r.chance(0.15);
        if big {
            // Packets of hundreds of fragments
            setup.alloc[1] = 1_000_000;
            plan = Plan::random(r, 590_000, n.min(10));
            plan.sizes = 6;
            plan.burst = r.pick(&[1, 3]);
        }
        if on & MODES != 0 {
            plan.weights = r.pick(&[[1, 1, 1, 1], [0, 0, 1, 0], [0, 0, 1, 1], [1, 0, 1, 0], [0, 1, 2, 0], [3, 1, 0, 1]]);
        }
        let fault_end = r.pick(&[1, 5, 20, 100]) * SEC;
        let mut cadence = Cadence::random(r);
        cadence.change = Some((fault_end, cadence.interval.max(10 * MS)));
        Script {
            setup,
            // The rate must not collapse if much is to be sent
            loss: if big { r.pick(&[0.0, 0.01, 0.05]) } else { r.pick(&[0.0, 0.0, 0.05, 0.3, 0.7]) },
            target: if big { r.pick(&[0.0, 0.01, 0.05]) } else { r.pick(&[0.0, 0.1, 0.5]) },
            ack_loss: if big { r.pick(&[0.0, 0.1, 0.3]) } else { r.pick(&[0.0, 0.1, 0.5, 0.9]) },
            ack_every: r.pick(&[0.05, 0.3, 1.0]),
            delay: if big { r.pick(&[0, MS, 10 * MS, 50 * MS]) } else { r.pick(&[0, MS, 10 * MS, 50 * MS, 200 * MS, 900 * MS]) },
            ack_delay_max: r.pick(&[0, 0, 20 * MS, 300 * MS]),
            skip: r.pick(&[0.0, 0.01, 0.2]),
            plan,
            cadence,
            fault_end,
            end: 20_000 * SEC,
            on,
        }
    }
}

pub struct Peer {
    rng: Rng,
    /// Received but not yet acknowledged frames
    fresh: Vec<(u32, bool)>,
    fbase: u32,
    pbase: u32,
    have: HashMap<u32, Vec<bool>>,
    losses: HashMap<(u32, u16), u32>,
    reply: bool,
    salt: u64,
    arrivals: std::collections::VecDeque<(u64, Vec<u8>)>,
    pub acks: Vec<(u64, u64, Vec<u8>)>,
    serial: u64,
    pub sync_packet: u64,
    pub targeted: u64,
}

impl Peer {
    pub fn new(r: &mut Rng, s: &Setup) -> Peer {
        Peer {
            rng: r.fork(),
            fresh: Vec::new(),
            fbase: s.fbase[0],
            pbase: s.pbase[0],
            have: HashMap::new(),
            losses: HashMap::new(),
            reply: false,
            salt: r.u64(),
            arrivals: Default::default(),
            acks: Vec::new(),
            serial: 0,
            sync_packet: 0,
            targeted: 0,
        }
    }

    /// The sender has emitted a frame.
    fn sent(&mut self, s: &Script, now: u64, bytes: &[u8]) {
        let faulty = now < s.fault_end;
        if faulty && self.rng.chance(s.loss) {
            return;
        }
        if let Some(Fr::Data { dgs, .. }) = wire::parse(bytes).filter(|_| faulty) {
            let mut lost = false;
            for d in &dgs {
                let h = crate::core::mix(self.salt ^ (d.seq as u64) << 20 ^ d.frag as u64);
                if (h % 1000) as f64 <= s.target * 1000.0 && s.target > 0.0 {
                    let n = self.losses.entry((d.seq, d.frag)).or_insert(0);
                    if *n < 1 + (h >> 32) as u32 % 5 {
                        *n += 1;
                        lost = true;
                    }
                }
            }
            if lost {
                self.targeted += 1;
                return;
            }
        }
        self.arrivals.push_back((now + s.delay, bytes.to_vec()));
    }

    /// Runs the receiver: takes what has arrived, moves the window, emits acknowledgements.
    fn act(&mut self, ctx: &mut Ctx, s: &Script, dir: &Dir, now: u64) {
        while self.arrivals.front().is_some_and(|a| a.0 <= now) {
            let (_, b) = self.arrivals.pop_front().unwrap();
            match wire::parse(&b) {
                Some(Fr::Data { id, nonce, dgs }) => {
                    let ahead = id.wrapping_sub(self.fbase);
                    if ahead >= s.setup.fwin[0] {
                        continue;
                    }
                    self.fbase = id.wrapping_add(1);
                    self.fresh.push((id, nonce));
                    for d in dgs {
                        if psub(d.seq, self.pbase) < 4096 {
                            let e = self.have.entry(d.seq).or_insert_with(|| vec![false; d.last as usize + 1]);
                            if let Some(x) = e.get_mut(d.frag as usize) {
                                *x = true;
                            }
                        }
                    }
                }
                Some(Fr::Sync { frame, packet }) => {
                    if let Some(f) = frame {
                        if f.wrapping_sub(self.fbase) <= s.setup.fwin[0] {
                            self.fbase = f;
                        }
                    }
                    if let Some(p) = packet {
                        self.sync_packet += 1;
                        if psub(p, self.pbase) <= 4096 {
                            while self.pbase != p {
                                self.have.remove(&self.pbase);
                                self.pbase = padd(self.pbase, 1);
                            }
                        }
                    }
                    self.reply = true;
                }
                _ => (),
            }
        }
        let faulty = now < s.fault_end;
        // Move the window as far as packets are complete; others may be skipped unless they are Reliable
        loop {
            let seq = self.pbase;
            let Some(&uid) = dir.by_seq.get(&seq) else { break };
            let complete = self.have.get(&seq).is_some_and(|v| v.iter().all(|x| *x));
            let mode = dir.pkts[uid as usize].mode;
            let may_skip = match mode {
                SendMode::Reliable => false,
                // Held until complete unless skipping is part of the script; sync moves past the rest
                SendMode::Persistent => faulty && self.rng.chance(s.skip),
                _ => self.rng.chance(s.skip),
            };
            if !complete && !may_skip {
                break;
            }
            if !complete {
                ctx.count("incomplete_packets_passed", 1);
            }
            self.have.remove(&seq);
            self.pbase = padd(seq, 1);
            if faulty && self.rng.chance(0.3) {
                break;
            }
        }
        let every = if faulty { s.ack_every } else { 1.0 };
        if (self.reply || !self.fresh.is_empty() || self.rng.chance(0.05)) && self.rng.chance(every) {
            self.reply = false;
            let mut groups: Vec<Grp> = Vec::new();
            // Mostly all of them, sometimes in several frames
            let n = if self.rng.chance(0.8) { self.fresh.len() } else { self.rng.below(self.fresh.len() as u64 + 1) as usize };
            for (id, nonce) in self.fresh.drain(..n.min(2000)) {
                match groups.last_mut() {
                    Some(g) if id.wrapping_sub(g.base) < 32 => {
                        g.bits |= 1 << id.wrapping_sub(g.base);
                        g.nonce ^= nonce;
                    }
                    _ => groups.push(Grp { base: id, bits: 1, nonce }),
                }
            }
            for c in if groups.is_empty() { vec![&groups[..]] } else { groups.chunks(160).collect() } {
                let b = seal_lib(wire::write(&Fr::Ack { fbase: self.fbase, pbase: self.pbase, groups: c.to_vec() }));
                if faulty && self.rng.chance(s.ack_loss) {
                    ctx.count("acks_lost", 1);
                    continue;
                }
                let extra = if faulty && s.ack_delay_max > 0 { self.rng.below(s.ack_delay_max) } else { 0 };
                self.serial += 1;
                self.acks.push((now + s.delay + extra, self.serial, b));
            }
        }
    }

    fn due(&mut self, now: u64) -> Vec<Vec<u8>> {
        let mut due: Vec<(u64, u64, Vec<u8>)> = Vec::new();
        let mut i = 0;
        while i < self.acks.len() {
            if self.acks[i].0 <= now {
                due.push(self.acks.swap_remove(i));
            } else {
                i += 1;
            }
        }
        due.sort();
        due.into_iter().map(|d| d.2).collect()
    }
}

/// Extra acknowledgement frames passed to the sender, and what the sender did.
pub trait Tap {
    /// Called before the genuine acknowledgements of a tick are processed; returns frames to pass as well.
    fn inject(&mut self, _now: u64, _sender: &Hc, _dir: &Dir) -> Vec<Vec<u8>> {
        Vec::new()
    }
    /// May replace a genuine acknowledgement by another one which ought to have the same effect.
    fn rewrite(&mut self, _now: u64, _bytes: &[u8], _dir: &Dir) -> Option<Vec<u8>> {
        None
    }
    fn genuine(&mut self, _now: u64, _bytes: &[u8]) {}
    fn emitted(&mut self, _ctx: &mut Ctx, _now: u64, _bytes: &[u8]) {}
    fn state(&mut self, _ctx: &mut Ctx, _now: u64, _hc: &Hc, _dir: &mut Dir) {}
}

pub struct NoTap;
impl Tap for NoTap {}

pub struct Outcome {
    pub dir: Dir,
    pub settled: bool,
    pub now: u64,
    pub peer: Peer,
    pub hc: Hc,
}

fn flush(ctx: &mut Ctx, s: &Script, hc: &mut Hc, dir: &mut Dir, peer: &mut Peer, tap: &mut dyn Tap, now: u64) {
    let mut frames = Vec::new();
    hc.flush(&mut frames);
    let rtt = hc.rtt();
    for b in frames {
        let fr = wire::parse(&b);
        vlog!(ctx, "{:>12.6} emits {} bytes {}", now as f64 / 1e9, b.len(), brief(&fr));
        ctx.count("frames_emitted", 1);
        if let Some(Fr::Sync { packet: Some(p), .. }) = &fr {
            judge_sync(ctx, dir, *p);
        }
        dir.on_emit(ctx, &b, &fr, now, rtt);
        tap.emitted(ctx, now, &b);
        peer.sent(s, now, &b);
    }
}

/// The sender asks the receiver to move past every packet before `p`.
fn judge_sync(ctx: &mut Ctx, dir: &Dir, p: u32) {
    if dir.on & MODES == 0 {
        return;
    }
    let mut seq = dir.base;
    while seq != p && psub(p, seq) <= 4096 {
        if let Some(&u) = dir.by_seq.get(&seq) {
            let k = &dir.pkts[u as usize];
            if matches!(k.mode, SendMode::Persistent | SendMode::Reliable) {
                if let Some(i) = k.frags.iter().position(|f| !f.maybe) {
                    ctx.fail(format!("the receiver was asked to move past {:?} packet {} although fragment {} (transmitted {} times) was never acknowledged", k.mode, u, i, k.frags[i].tx));
                    return;
                }
            }
        }
        seq = padd(seq, 1);
    }
    ctx.count("window_syncs_judged", 1);
}

pub fn play(ctx: &mut Ctx, r: &mut Rng, mut s: Script, tap: &mut dyn Tap) -> Outcome {
    young();
    set_now(0);
    let mut hc = Hc::new(s.setup.config(0));
    if age(ctx) {
        hc.step();
    }
    let mut dir = Dir::new("A->peer", s.on, r.u64(), s.setup.pbase[0], s.setup.fbase[0], s.setup.pwin[0], s.setup.alloc[1], s.setup.ceil[0] as f64);
    dir.tail = s.setup.fwin[0];
    let mut peer = Peer::new(r, &s.setup);
    let mut app = r.fork();
    let mut now = 0u64;
    let mut settled = false;
    while now < s.end && !ctx.failed() {
        // One application tick
        set_now(now);
        flush(ctx, &s, &mut hc, &mut dir, &mut peer, tap, now);
        for b in tap.inject(now, &hc, &dir) {
            vlog!(ctx, "{:>12.6} injected {}", now as f64 / 1e9, brief(&wire::parse(&b)));
            hc.handle(&b);
        }
        for b in peer.due(now) {
            match tap.rewrite(now, &b, &dir) {
                Some(other) => {
                    vlog!(ctx, "{:>12.6} rewritten to {}", now as f64 / 1e9, brief(&wire::parse(&other)));
                    hc.handle(&other)
                }
                None => hc.handle(&b),
            };
            ctx.count("acks_handled", 1);
            tap.genuine(now, &b);
            if let Some(fr @ Fr::Ack { fbase, pbase, groups }) = &wire::parse(&b) {
                vlog!(ctx, "{:>12.6} handles {}", now as f64 / 1e9, brief(&Some(fr.clone())));
                dir.on_ack(*fbase, *pbase, groups);
                if s.on & BUFFER != 0 {
                    let n = hc.buffer();
                    dir.check_buffer(ctx, n);
                    ctx.count("buffer_checks", 1);
                }
            }
        }
        let rtt = hc.rtt();
        hc.step();
        dir.on_step(now, rtt);
        tap.state(ctx, now, &hc, &mut dir);
        if s.plan.left > 0 && (app.chance(s.plan.p) || now > s.fault_end) {
            for _ in 0..app.range(1, s.plan.burst) {
                if s.plan.left == 0 {
                    break;
                }
                s.plan.left -= 1;
                let (len, mode, chan) = (s.plan.size(&mut app), s.plan.mode(&mut app), app.below(s.plan.chans as u64) as u8);
                let (data, chan, mode) = dir.make(len, chan, mode, now);
                hc.send(&data, chan, mode);
                ctx.count("packets_submitted", 1);
                if s.on & BUFFER != 0 {
                    let n = hc.buffer();
                    dir.check_buffer(ctx, n);
                    ctx.count("buffer_checks", 1);
                }
            }
        }
        if app.chance(s.cadence.flush_after) {
            flush(ctx, &s, &mut hc, &mut dir, &mut peer, tap, now);
        }
        let d = s.cadence.next(&mut app, now).max(1);
        for k in 0..s.cadence.flushes as u64 {
            // Later flushes before the next step
            set_now(now + d * (k + 1) / (s.cadence.flushes as u64 + 1));
            flush(ctx, &s, &mut hc, &mut dir, &mut peer, tap, now + d * (k + 1) / (s.cadence.flushes as u64 + 1));
        }
        if s.on & BUFFER != 0 {
            let n = hc.buffer();
            dir.check_buffer(ctx, n);
        }
        peer.act(ctx, &s, &dir, now);
        now += d;
        if s.plan.left == 0 && now > s.fault_end && !hc.pending() && hc.buffer() == 0 {
            settled = true;
            break;
        }
    }
    Outcome { dir, settled, now, peer, hc }
}

pub fn describe(ctx: &mut Ctx, s: &Script) {
    ctx.desc = format!(
        "window f{} p{} ceil {} peer limit {}; loss {} targeted {} ack loss {} ack every {} delay {}ms skip {}; {} packets weights {:?} sizes {} tick {}us flushes {}",
        s.setup.fwin[0], s.setup.pwin[0], s.setup.ceil[0], s.setup.alloc[1], s.loss, s.target, s.ack_loss, s.ack_every, s.delay / MS, s.skip,
        s.plan.left, s.plan.weights, s.plan.sizes, s.cadence.interval / 1000, s.cadence.flushes
    );
    vlog!(ctx, "{}", ctx.desc);
}

pub fn scripted(ctx: &mut Ctx, on: u32) {
    let mut rng = ctx.rng.fork();
    let s = Script::random(&mut rng, on, ctx.thorough);
    describe(ctx, &s);
    let fault_end = s.fault_end;
    let o = play(ctx, &mut rng, s, &mut NoTap);
    let d = &o.dir;
    if !ctx.failed() && !o.settled {
        ctx.fail(format!(
            "{} s after the last fault the sender still reports pending {} and {} buffered bytes",
            (o.now - fault_end) / SEC,
            o.hc.pending(),
            o.hc.buffer()
        ));
    }
    if !ctx.failed() && on & MODES != 0 && d.blind == 0 {
        for (u, p) in d.pkts.iter().enumerate() {
            if matches!(p.mode, SendMode::Persistent | SendMode::Reliable) && p.phase != Phase::Released {
                ctx.fail(format!("{:?} packet {} was never taken over by the receiver", p.mode, u));
                break;
            }
        }
    }
    if d.blind > 0 {
        ctx.count("senders_not_modelled", 1);
    }
    for p in &d.pkts {
        let tx: u64 = p.frags.iter().map(|f| f.tx as u64).sum();
        match p.mode {
            SendMode::TimeSensitive | SendMode::Unreliable => ctx.count("single_shot_fragments", tx),
            _ => {
                ctx.count("resendable_fragments", tx);
                ctx.max("transmissions_of_a_fragment", p.frags.iter().map(|f| f.tx as u64).max().unwrap_or(0));
            }
        }
    }
    ctx.count("ts_discarded", d.ts_dropped);
    ctx.count("fragments_retransmitted", d.retx);
    ctx.count("frames_lost_on_purpose", o.peer.targeted);
    ctx.count("senders_judged", 1);
    ctx.max("settling_ms", o.now.saturating_sub(fault_end) / MS);
    ctx.max("packets_outstanding", d.max_out_seen as u64);
    ctx.nontrivial = d.frames.len() > 2 || d.pkts.iter().any(|p| p.frags.iter().any(|f| f.tx > 0));
    ctx.seen(d.retx << 32 | d.acked_frags);
    ctx.seen(o.now);
    let Outcome { hc, .. } = o;
    drop_hc(hc);
}

fn c12_scripted(ctx: &mut Ctx) {
    scripted(ctx, MODES)
}

fn c12_pair(ctx: &mut Ctx) {
    use super::stream::*;
    let r = &mut ctx.rng;
    let mut setup = Setup::random(r);
    for i in 0..2 {
        setup.alloc[i] = r.pick(&[1448, 3000, 20_000, 1_000_000]);
        setup.ceil[i] = r.pick(&[1472, 5000, 100_000, 2_000_000]);
    }
    let end = r.pick(&[5, 20, 60]) * SEC;
    let plans: Vec<Plan> = (0..2)
        .map(|i| {
            let n = r.range(20, 300);
            let mut p = Plan::random(r, max_len(&setup, i).min(20_000), n);
            p.burst = r.pick(&[1, 3, 40]);
            p.p = r.pick(&[0.05, 0.3]);
            p
        })
        .collect();
    let links = (0..2).map(|_| Link::faulty(r, end)).collect();
    let mut cadence: Vec<Cadence> = (0..2).map(|_| Cadence::random(r)).collect();
    for c in &mut cadence {
        c.flushes = r.below(4) as u32;
    }
    let run = Run { setup, links, cadence, plans, fault_end: 0, end };
    moded(ctx, run);
}

/// Tiny packets, many of them in a frame and in flight.
fn c12_wide(ctx: &mut Ctx) {
    let mut run = super::stream::wide(&mut ctx.rng, ctx.thorough, true);
    run.end = 60 * SEC;
    moded(ctx, run);
}

fn c12_big(ctx: &mut Ctx) {
    let mut run = super::stream::big(&mut ctx.rng, ctx.thorough);
    run.end = run.fault_end + 60 * SEC;
    moded(ctx, run);
}

fn moded(ctx: &mut Ctx, run: super::stream::Run) {
    use super::stream::*;
    super::stream::describe(ctx, &run);
    let sim = drive(ctx, run, MODES, false);
    nontrivial(ctx, &sim);
    for d in &sim.dirs {
        if d.blind > 0 {
            ctx.count("senders_not_modelled", 1);
        }
        ctx.count("ts_discarded", d.ts_dropped);
        ctx.count("senders_judged", 1);
    }
    sim.finish();
}

pub fn c12() -> Property {
    Property {
        id: "C12",
        rule: "a case counts if data frames were emitted; cases are distinct if the numbers of retransmissions, acknowledged fragments and the end time differ",
        scenarios: vec![sc("scripted", 6_000, 200_000, c12_scripted), sc("pair", 2_000, 60_000, c12_pair), sc("wide", 400, 10_000, c12_wide), sc("big", 200, 6_000, c12_big), sc("endpoints", 400, 15_000, super::ends::c12)],
        floors: &[("fragments_retransmitted", 5_000), ("ts_discarded", 500), ("single_shot_fragments", 5_000), ("frames_lost_on_purpose", 1_000), ("window_syncs_judged", 200)],
    }
}

pub fn c06_sender(ctx: &mut Ctx) {
    scripted(ctx, LIMITS)
}

pub fn c20_scripted(ctx: &mut Ctx) {
    scripted(ctx, BUFFER)
}

// ---------------------------------------------------------------------------------------------------------------
// C15: the same run with and without acknowledgements that must not matter

#[derive(Clone)]
struct Step {
    now: u64,
    hash: u64,
    what: String,
}

const KINDS: usize = 9;
const KIND_NAMES: [&str; KINDS] = ["wrong_nonce_single", "wrong_nonce_group", "never_sent", "partly_never_sent", "distant_past", "replayed", "regrouped", "overlapping", "window"];

/// Records what the sender did, or compares it with an earlier recording.
struct Twin {
    record: Vec<Step>,
    compare: Option<Vec<Step>>,
    at: usize,
    inject: f64,
    rng: Rng,
    genuine: Vec<(u64, Vec<u8>)>,
    last: Option<(u32, u32)>,
    kinds: [u64; KINDS],
    only: Option<u64>,
    text: bool,
    injected: Vec<(u64, String)>,
}

impl Twin {
    fn note(&mut self, ctx: &mut Ctx, now: u64, hash: u64, what: impl Fn() -> String) {
        if ctx.failed() {
            return;
        }
        match &self.compare {
            None => self.record.push(Step { now, hash, what: if self.text { what() } else { String::new() } }),
            Some(c) => {
                let ok = c.get(self.at).is_some_and(|s| s.hash == hash && s.now == now);
                if !ok {
                    let was = c.get(self.at).map(|s| format!("at {:.6} s {}", s.now as f64 / 1e9, s.what)).unwrap_or("nothing".into());
                    let inj: Vec<String> = self.injected.iter().rev().take(3).map(|(t, s)| format!("{:.6} s {}", *t as f64 / 1e9, s)).collect();
                    ctx.fail(format!("with the extra acknowledgements the sender diverged at {:.6} s: {}; without them: {}; last injected: {}", now as f64 / 1e9, what(), was, inj.join(" | ")));
                }
                self.at += 1;
            }
        }
    }
    fn bogus(&mut self, now: u64, dir: &Dir) -> Option<(u64, Vec<u8>)> {
        let r = &mut self.rng;
        let (fbase, pbase) = self.last?;
        let kind = self.only.unwrap_or_else(|| r.pick(&[0, 1, 2, 3, 4, 5, 6, 8]));
        let span = dir.frame_next.wrapping_sub(dir.frame_base).max(1);
        let some_id = dir.frame_base.wrapping_add(r.below(span as u64) as u32);
        let mut groups = Vec::new();
        let xor = |base: u32, bits: u32, dir: &Dir| -> Option<bool> {
            let mut x = false;
            for i in 0..32 {
                if bits >> i & 1 != 0 {
                    x ^= dir.frames.get(&base.wrapping_add(i))?.nonce;
                }
            }
            Some(x)
        };
        match kind {
            0 | 1 => {
                // Frames which are in flight, with the wrong nonce
                for _ in 0..r.range(1, 3) {
                    let base = some_id.wrapping_sub(r.below(8) as u32);
                    let mut bits = if kind == 0 { 1 } else { r.u32() | 1 };
                    for i in 0..32 {
                        if !dir.frames.contains_key(&base.wrapping_add(i)) {
                            bits &= !(1 << i);
                        }
                    }
                    if bits == 0 {
                        continue;
                    }
                    let x = xor(base, bits, dir)?;
                    groups.push(Grp { base, bits, nonce: !x });
                }
            }
            2 => {
                // Frames never sent
                let base = dir.frame_next.wrapping_add(r.pick(&[0, 1, 5, 100, 4096, 1 << 20, 1 << 31]));
                groups.push(Grp { base, bits: r.u32() | 1, nonce: r.chance(0.5) });
            }
            3 => {
                // Sent and unsent frames in one group: the parity cannot be known to the peer
                let back = r.range(1, 20) as u32;
                let base = dir.frame_next.wrapping_sub(back.min(span));
                if !dir.frames.contains_key(&base) {
                    return None;
                }
                let bits = (r.u32() | 1) | 1 << 31;
                let known = (0..32).filter(|i| dir.frames.contains_key(&base.wrapping_add(*i))).fold(0u32, |a, i| a | 1 << i);
                if known == u32::MAX {
                    return None;
                }
                let x = xor(base, bits & known, dir)?;
                groups.push(Grp { base, bits: bits | !known & 1 << 31, nonce: x ^ r.chance(0.3) });
                if groups[0].bits & !known == 0 {
                    return None;
                }
            }
            4 => {
                // Frames of the distant past
                let base = dir.frame_base.wrapping_sub(r.range(20_000, 100_000) as u32);
                groups.push(Grp { base, bits: r.u32() | 1, nonce: r.chance(0.5) });
            }
            6 => {
                // Frames acknowledged before, in other groups than before
                for _ in 0..r.range(1, 4) {
                    let base = some_id.wrapping_sub(r.below(64) as u32);
                    let want = r.u32() | 1;
                    let mut bits = 0;
                    for i in 0..32 {
                        let id = base.wrapping_add(i);
                        if want >> i & 1 != 0 && known(dir, id) && dir.frames[&id].acked {
                            bits |= 1 << i;
                        }
                    }
                    if bits != 0 {
                        groups.push(Grp { base, bits, nonce: xor(base, bits, dir)? });
                    }
                }
            }
            7 => return None,
            8 => {
                // No frames, but a frame window which was left long ago or has never been reached, and the packet
                // window moved past packets in flight
                let fbase = if r.chance(0.5) { dir.frame_next.wrapping_add(r.pick(&[1, 2, 31, 4096, 1 << 20])) } else { fbase.wrapping_sub(r.pick(&[1, 2, 31, 4096, 1 << 20])) };
                let pbase = wire::padd(pbase, r.range(1, 40) as u32);
                return Some((8, seal_lib(wire::write(&Fr::Ack { fbase, pbase, groups }))));
            }
            _ => {
                // A copy of an earlier acknowledgement
                if self.genuine.is_empty() {
                    return None;
                }
                let n = self.genuine.len() as u64;
                let i = match r.below(3) {
                    0 => n - 1,
                    1 => n - 1 - r.below(n.min(8)),
                    _ => r.below(n),
                };
                return Some((5, self.genuine[i as usize].1.clone()));
            }
        }
        if groups.is_empty() {
            return None;
        }
        let _ = now;
        Some((kind, seal_lib(wire::write(&Fr::Ack { fbase, pbase, groups }))))
    }
}

/// Whether the sender is certain to remember a frame.
fn known(dir: &Dir, id: u32) -> bool {
    let behind = dir.frame_base.wrapping_sub(id) as i32;
    dir.frames.get(&id).is_some_and(|f| f.at >= dir.forgotten) && behind <= dir.tail as i32
}

impl Tap for Twin {
    fn rewrite(&mut self, now: u64, bytes: &[u8], dir: &Dir) -> Option<Vec<u8>> {
        if self.compare.is_none() || self.only.is_some_and(|k| k != 7) || !self.rng.chance(self.inject) {
            return None;
        }
        let Some(Fr::Ack { fbase, pbase, mut groups }) = wire::parse(bytes) else { return None };
        let mut any = false;
        for g in groups.iter_mut() {
            // Extend the group by frames acknowledged before
            let mut room = (g.bits.leading_zeros() as u64).min(self.rng.range(1, 31));
            while room > 0 {
                let id = g.base.wrapping_sub(1);
                if !known(dir, id) || !dir.frames[&id].acked {
                    break;
                }
                g.base = id;
                g.bits <<= 1;
                room -= 1;
                if self.rng.chance(0.7) {
                    g.bits |= 1;
                    g.nonce ^= dir.frames[&id].nonce;
                    any = true;
                }
            }
            let mut end = 32 - g.bits.leading_zeros();
            let limit = end + self.rng.below(32) as u32;
            let mut bits = 0u32;
            while g.bits != 0 && end < limit.min(32) {
                let id = g.base.wrapping_add(end);
                if !known(dir, id) || !dir.frames[&id].acked {
                    break;
                }
                if self.rng.chance(0.7) {
                    bits |= 1 << end;
                    g.nonce ^= dir.frames[&id].nonce;
                    any = true;
                }
                end += 1;
            }
            g.bits |= bits;
        }
        if !any {
            return None;
        }
        self.kinds[7] += 1;
        let b = seal_lib(wire::write(&Fr::Ack { fbase, pbase, groups }));
        self.injected.push((now, format!("kind 7 {}", brief(&wire::parse(&b)))));
        Some(b)
    }
    fn inject(&mut self, now: u64, _hc: &Hc, dir: &Dir) -> Vec<Vec<u8>> {
        let mut v = Vec::new();
        if self.compare.is_none() {
            return v;
        }
        let p = self.inject;
        while self.rng.chance(p) && v.len() < 20 {
            if let Some((k, b)) = self.bogus(now, dir) {
                self.kinds[k as usize] += 1;
                self.injected.push((now, format!("kind {} {}", k, brief(&wire::parse(&b)))));
                if self.injected.len() > 16 {
                    self.injected.remove(0);
                }
                v.push(b);
            }
        }
        v
    }
    fn genuine(&mut self, now: u64, bytes: &[u8]) {
        if let Some(Fr::Ack { fbase, pbase, .. }) = wire::parse(bytes) {
            self.last = Some((fbase, pbase));
        }
        if self.compare.is_some() {
            self.genuine.push((now, bytes.to_vec()));
            // Immediate repetition is the next injection's business
        }
    }
    fn emitted(&mut self, ctx: &mut Ctx, now: u64, bytes: &[u8]) {
        let h = bytes.iter().fold(7u64, |h, b| crate::core::mix(h ^ *b as u64));
        self.note(ctx, now, h, || format!("emits {}", brief(&wire::parse(bytes))));
    }
    fn state(&mut self, ctx: &mut Ctx, now: u64, hc: &Hc, _dir: &mut Dir) {
        let (rtt, rate, pend, buf) = (hc.rtt(), hc.rate(), hc.pending(), hc.buffer());
        let h = crate::core::mix(rtt.map(|x| x.to_bits()).unwrap_or(1)) ^ crate::core::mix(rate.to_bits() ^ 5) ^ crate::core::mix(buf as u64 * 2 + pend as u64);
        self.note(ctx, now, h, || format!("has rtt {:?} rate {} pending {} buffer {}", rtt, rate, pend, buf));
    }
}

fn c15_twin(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let mk = |rng: &Rng| {
        let mut r = rng.clone();
        let mut s = Script::random(&mut r, 0, false);
        s.setup.fwin[0] = r.pick(&[32, 256, 4096]);
        s.ack_loss = r.pick(&[0.0, 0.1, 0.5]);
        s.delay = r.pick(&[MS, 10 * MS, 50 * MS, 200 * MS]);
        s.fault_end = r.pick(&[2, 10, 40]) * SEC;
        s.end = s.fault_end + 20 * SEC;
        s.cadence.interval = r.pick(&[MS, 5 * MS, 15 * MS, 100 * MS]);
        s.cadence.change = None;
        s.plan.left = r.range(50, 600);
        s.plan.p = r.pick(&[0.05, 0.3, 1.0]);
        // The order of acknowledgements matters for what "the window base reported last" is
        s.ack_delay_max = 0;
        (s, r)
    };
    let inject = rng.pick(&[0.02, 0.2, 0.6]);
    let only = if rng.chance(0.5) { Some(rng.below(KINDS as u64)) } else { None };
    let tap = |rng: &mut Rng, compare: Option<Vec<Step>>, text: bool| Twin {
        record: Vec::new(),
        compare,
        at: 0,
        inject,
        rng: rng.fork(),
        genuine: Vec::new(),
        last: None,
        kinds: [0; KINDS],
        only,
        text,
        injected: Vec::new(),
    };
    let lib_seed = rng.u64();
    uflow::verif::rand::seed(lib_seed);
    let (s, mut r) = mk(&rng);
    describe(ctx, &s);
    let mut a = tap(&mut rng.clone(), None, ctx.verbose);
    let o = play(ctx, &mut r, s, &mut a);
    drop_hc(o.hc);
    let steps = a.record.len() as u64;
    vlog!(ctx, "------ again, with injections");
    uflow::verif::rand::seed(lib_seed);
    let (s, mut r) = mk(&rng);
    let mut b = tap(&mut rng.clone(), Some(a.record), true);
    let o = play(ctx, &mut r, s, &mut b);
    if !ctx.failed() && b.at as u64 != steps {
        ctx.fail(format!("with the extra acknowledgements the sender did {} things instead of {}", b.at, steps));
    }
    drop_hc(o.hc);
    for i in 0..KINDS {
        ctx.count(KIND_NAMES[i], b.kinds[i]);
    }
    ctx.count("sender_states_compared", steps);
    ctx.count("acks_injected", b.kinds.iter().sum());
    ctx.nontrivial = b.kinds.iter().sum::<u64>() > 0;
    ctx.seen(steps);
    ctx.seen(b.kinds.iter().fold(0u64, |a, k| a.wrapping_mul(1000).wrapping_add(*k)));
    ctx.seen(o.now);
}

pub fn c15() -> Property {
    Property {
        id: "C15",
        rule: "a case is a run of a sender played twice, without and with injected acknowledgements; it counts if any were injected; distinct by length and injections",
        scenarios: vec![sc("twin", 5_000, 150_000, c15_twin)],
        floors: &[("sender_states_compared", 100_000), ("wrong_nonce_single", 1_000), ("wrong_nonce_group", 1_000), ("never_sent", 1_000), ("partly_never_sent", 500), ("distant_past", 1_000), ("replayed", 5_000), ("regrouped", 1_000), ("overlapping", 1_000)],
    }
}

