//! C14: the allowed send rate, observed on the rate computation itself and on sending half-connections.

use super::peer::{describe, play, Outcome, Script, Tap};
use super::sc;
use crate::core::{lib, Ctx, Property};
use crate::hc::*;
use crate::vlog;
use uflow::verif as v;

const S: f64 = 1472.0;
const FLOOR: f64 = 23.0;
const WINDOW: f64 = 4380.0;

/// RFC 5348, section 3.1, with b = 1 and t_RTO = 4 R.
pub fn eq(rtt: f64, p: f64) -> f64 {
    if p <= 0.0 || rtt <= 0.0 {
        return f64::INFINITY;
    }
    S / (rtt * ((2.0 * p / 3.0).sqrt() + 12.0 * (3.0 * p / 8.0).sqrt() * p * (1.0 + 32.0 * p * p)))
}

fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * a.abs().max(b.abs()) + 1e-12
}

fn unit(ctx: &mut Ctx) {
    let mut r = ctx.rng.fork();
    let ceil = r.pick(&[23, 100, 1472, 1473, 5000, 100_000, 2_000_000, 100_000_000, 1 << 31, u32::MAX - 1, u32::MAX]);
    let mut s = lib(|| v::SendRateComp::new(ceil));
    let (ceil, floor) = (ceil as f64, FLOOR.min(ceil as f64));
    let rtt_scale = r.log(1.0, 5e6);
    let rtt_spread = r.pick(&[1.0, 1.2, 3.0, 100.0]);
    let feed = r.pick(&[0.2, 0.5, 0.9]);
    let loss_from = match r.below(4) {
        0 => u64::MAX,
        1 => 0,
        _ => r.range(1, 30),
    };
    let lossy = r.pick(&[0.0, 0.1, 0.5]);
    let busy = r.pick(&[0.0, 0.5, 1.0]);
    let limited = r.pick(&[0.0, 0.5, 1.0]);
    let recv_kind = r.below(4);
    let gap = r.below(4);
    ctx.desc = format!("ceil {} rtt around {:.0} ms spread {} feedback {} first loss after {} loss changes {} busy {} limited {} recv {} gap {}", ceil, rtt_scale, rtt_spread, feed, loss_from, lossy, busy, limited, recv_kind, gap);
    vlog!(ctx, "{}", ctx.desc);
    let mut now = r.below(100_000) + if ctx.index % 8 == 3 { r.pick(&[(1u64 << 31) - 50_000, (1 << 32) - 50_000, 1 << 33]) } else { 0 };
    let mut x = lib(|| s.send_rate());
    if x > ceil || x < floor {
        ctx.fail(format!("the initial rate {} lies outside of {} .. {}", x, floor, ceil));
    }
    let mut rtt: Option<f64> = None;
    let mut p = 0.0f64;
    let mut lost = false;
    let mut feedbacks = 0u64;
    // The nofeedback timer cannot have been restarted earlier than this
    let mut timer: Option<(u64, f64)> = None;
    let steps = r.range(10, if ctx.thorough { 400 } else { 120 });
    let mut halvings = 0u64;
    for k in 0..steps {
        if ctx.failed() {
            return;
        }
        if timer.is_none() && r.chance(0.8) || r.chance(busy) {
            lib(|| s.notify_frame_sent(now));
            if timer.is_none() {
                timer = Some((now, 2.0));
            }
        }
        now += match if gap == 3 { r.below(3) } else { gap } {
            0 => r.range(1, 20),
            1 => r.log(1.0, rtt_scale * 4.0 + 10.0) as u64,
            _ => r.log(1.0, 300_000.0) as u64,
        };
        let give = timer.is_some() && r.chance(feed);
        let fb = if give {
            feedbacks += 1;
            if feedbacks > loss_from {
                if p == 0.0 {
                    p = r.log(1e-6, 1.0);
                } else if r.chance(lossy) {
                    p = (p * r.log(0.2, 5.0)).clamp(1e-8, 1.0);
                }
            }
            let sample = if r.chance(0.02) { 0 } else { (rtt_scale * r.log(1.0 / rtt_spread, rtt_spread)) as u64 };
            let rr = match recv_kind {
                0 => x as u32,
                1 => r.log(1.0, u32::MAX as f64) as u32,
                2 => (x * r.log(0.1, 2.0)) as u32,
                _ => r.pick(&[0, 1, u32::MAX, 1000]),
            };
            Some((sample, rr, p, r.chance(limited)))
        } else {
            None
        };
        let mut reset = None;
        {
            let f = fb.map(|(rtt_ms, receive_rate, loss_rate, rate_limited)| v::FeedbackData { rtt_ms, receive_rate, loss_rate, rate_limited });
            lib(|| v::src_step(&mut s, now, f, &mut |q| reset = Some(q)));
        }
        let (x1, rtt1, rtt_ms) = (lib(|| s.send_rate()), lib(|| s.rtt_s()), lib(|| s.rtt_ms()));
        vlog!(ctx, "{:>9} {:?} X {} -> {} R {:?} reset {:?}", now, fb, x, x1, rtt1, reset);
        if x1 > ceil || x1 < floor || x1.is_nan() {
            ctx.fail(format!("step {}: rate {} lies outside of {} .. {}", k, x1, floor, ceil));
        }
        match fb {
            Some((sample, _, p, _)) => {
                let q = sample as f64 / 1000.0;
                let want = rtt.map_or(q, |r| 0.9 * r + 0.1 * q);
                match rtt1 {
                    Some(g) if close(g, want) => (),
                    g => ctx.fail(format!("step {}: RTT estimate {:?} instead of {} (sample {}, before {:?})", k, g, want, q, rtt)),
                }
                if rtt_ms != Some((want * 1000.0).round() as u64) && (want * 1000.0).fract().abs() - 0.5 > 1e-6 {
                    ctx.fail(format!("step {}: RTT in ms {:?} instead of {}", k, rtt_ms, want * 1000.0));
                }
                if p == 0.0 && !lost {
                    let most = (2.0 * x).max(WINDOW / want);
                    if x1 > most.max(FLOOR) + 1.0 {
                        ctx.fail(format!("step {}: one feedback without loss raised the rate from {} to {}, initial window per RTT {}", k, x, x1, WINDOW / want));
                    }
                    ctx.count("slow_start_feedbacks", 1);
                } else if !lost {
                    lost = true;
                    // The loss history was reset to match the rate
                    let most = match reset {
                        // Beyond the resolution of a loss interval
                        Some(p0) if p0 < 1e-15 => f64::INFINITY,
                        Some(p0) => eq(want, p0) * 1.06 + 2.0,
                        None => eq(want, p) + 1.0,
                    };
                    if x1 > most.max(FLOOR) {
                        ctx.fail(format!("step {}: rate {} after the first loss, the equation gives {} for a loss rate of {:?}", k, x1, most, reset));
                    }
                    if x1 > (x / 2.0).max(S / 2.0 / want).max(FLOOR) + 1.0 {
                        ctx.fail(format!("step {}: the first loss left the rate at {} (before {})", k, x1, x));
                    }
                    ctx.count("first_losses", 1);
                } else {
                    if x1 > eq(want, p).max(FLOOR) + 1.0 {
                        ctx.fail(format!("step {}: rate {} exceeds the throughput equation, {} for RTT {} and loss {}", k, x1, eq(want, p), want, p));
                    }
                    ctx.count("equation_feedbacks", 1);
                }
                rtt = rtt1;
                timer = Some((now, (4.0 * want).max(2.0 * S / x.max(x1))));
            }
            None => {
                if rtt1 != rtt {
                    ctx.fail(format!("step {}: the RTT estimate changed from {:?} to {:?} without feedback", k, rtt, rtt1));
                }
                if x1 > x {
                    ctx.fail(format!("step {}: the rate rose from {} to {} without feedback", k, x, x1));
                }
                if x1 < (x / 2.0 - 2.0).max(0.0) {
                    ctx.fail(format!("step {}: the rate fell from {} to {} without feedback", k, x, x1));
                }
                if x1 < x {
                    halvings += 1;
                    let (t, d) = timer.unwrap_or((now, 2.0));
                    if ((now - t) as f64) < d * 1000.0 - 2.0 {
                        ctx.fail(format!("step {}: the rate fell {} ms after the nofeedback timer was restarted, which takes {} ms", k, now - t, d * 1000.0));
                    }
                    timer = Some((now, (4.0 * rtt.unwrap_or(0.0)).max(2.0 * S / x)));
                }
                ctx.count("steps_without_feedback", 1);
            }
        }
        x = x1;
        ctx.seen(x1.to_bits());
    }
    // Nothing is heard from the receiver any more, while frames are being sent
    if timer.is_some() && r.chance(0.5) && !ctx.failed() {
        let wait = rtt.map_or(0, |r| (r * 4000.0) as u64) + 200_000;
        for _ in 0..80 {
            lib(|| s.notify_frame_sent(now));
            now += wait;
            lib(|| v::src_step(&mut s, now, None, &mut |_| ()));
            let x1 = lib(|| s.send_rate());
            if x1 > x || x1 < floor {
                ctx.fail(format!("without any feedback the rate went from {} to {}", x, x1));
                return;
            }
            halvings += (x1 < x) as u64;
            x = x1;
        }
        if x > floor + 1.0 {
            ctx.fail(format!("the rate is {} after 80 expirations of the nofeedback timer while sending", x));
        }
        ctx.count("silences", 1);
    }
    ctx.count("halvings", halvings);
    ctx.nontrivial = feedbacks > 0 || halvings > 0;
    lib(move || drop(s));
}

// ---------------------------------------------------------------------------------------------------------------
// A half-connection under a scripted peer

struct Watch {
    rtt: Option<f64>,
    rate: f64,
    ceil: f64,
    lossless: bool,
    oldest: u32,
    known: bool,
}

impl Watch {
    fn check(&mut self, ctx: &mut Ctx, now: u64, hc: &Hc, dir: &mut Dir) {
        let (rtt, x) = (hc.rtt(), hc.rate());
        let newest = dir.newest_ack.take();
        let doubtful = std::mem::take(&mut dir.doubtful_ack);
        if doubtful {
            self.known = false;
        }
        // Frames forgotten without an acknowledgement are taken for lost
        while let Some(f) = dir.frames.get(&self.oldest) {
            if !f.acked {
                self.lossless &= f.at >= dir.forgotten;
                break;
            }
            self.oldest = self.oldest.wrapping_add(1);
        }
        let floor = FLOOR.min(self.ceil);
        let at = now as f64 / 1e9;
        if x > self.ceil || x < floor {
            ctx.fail(format!("at {:.6} s the rate {} lies outside of {} .. {}", at, x, floor, self.ceil));
        }
        let feedback = match newest {
            Some(stamp) => {
                let q = (now / MS - stamp / MS) as f64 / 1000.0;
                let want = self.rtt.map_or(q, |r| 0.9 * r + 0.1 * q);
                if self.known {
                    if !rtt.is_some_and(|r| close(r, want)) {
                        ctx.fail(format!("at {:.6} s the RTT estimate is {:?} instead of {} (sample {}, before {:?})", at, rtt, want, q, self.rtt));
                    }
                    ctx.count("rtt_samples_judged", 1);
                }
                true
            }
            None => doubtful,
        };
        if !feedback {
            if rtt != self.rtt {
                ctx.fail(format!("at {:.6} s the RTT estimate changed from {:?} to {:?} without feedback", at, self.rtt, rtt));
            }
            if x > self.rate {
                ctx.fail(format!("at {:.6} s the rate rose from {} to {} without feedback", at, self.rate, x));
            }
            if x < self.rate / 2.0 - 2.0 {
                ctx.fail(format!("at {:.6} s the rate fell from {} to {} without feedback", at, self.rate, x));
            }
            ctx.count("steps_without_feedback", 1);
            ctx.count("halvings", (x < self.rate) as u64);
        } else if self.lossless {
            if let Some(r) = rtt {
                if x > (2.0 * self.rate).max(WINDOW / r).max(FLOOR) + 1.0 {
                    ctx.fail(format!("at {:.6} s one feedback without loss raised the rate from {} to {}, initial window per RTT {}", at, self.rate, x, WINDOW / r));
                }
                ctx.count("slow_start_feedbacks", 1);
            }
        }
        // Whatever happened, the estimate continues from here
        self.rtt = rtt;
        self.known = true;
        self.rate = x;
    }
}

impl Tap for Watch {
    fn state(&mut self, ctx: &mut Ctx, now: u64, hc: &Hc, dir: &mut Dir) {
        self.check(ctx, now, hc, dir);
    }
}

fn scripted(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let mut s = Script::random(&mut rng, 0, ctx.thorough);
    s.fault_end = rng.pick(&[5, 20, 100]) * SEC;
    s.end = s.fault_end + rng.pick(&[1, 60, 400]) * SEC;
    if rng.chance(0.05) {
        // Round trips of minutes
        s.delay = rng.pick(&[40, 70, 200]) * SEC;
        s.end = s.fault_end + 3000 * SEC;
    }
    let lossless = rng.chance(0.4);
    if lossless {
        s.loss = 0.0;
        s.target = 0.0;
        s.ack_loss = 0.0;
        s.ack_delay_max = 0;
        // With a window smaller than the number of frames in flight the peer drops frames
        s.setup.fwin[0] = 4096;
    }
    describe(ctx, &s);
    let ceil = s.setup.ceil[0] as f64;
    let mut w = Watch { rtt: None, rate: ceil.min(S), ceil, lossless, oldest: s.setup.fbase[0], known: true };
    let Outcome { hc, now, .. } = play(ctx, &mut rng, s, &mut w);
    ctx.nontrivial = w.rtt.is_some();
    ctx.seen(now);
    ctx.seen(w.rate.to_bits());
    ctx.seen(w.rtt.unwrap_or(0.0).to_bits());
    drop_hc(hc);
}

// ---------------------------------------------------------------------------------------------------------------
// Isolated loss events with known intervals

/// The loss event rate of RFC 5348, section 5.4; intervals newest first, the first being the current one.
fn loss_event_rate(iv: &[f64]) -> f64 {
    const W: [f64; 8] = [1.0, 1.0, 1.0, 1.0, 0.8, 0.6, 0.4, 0.2];
    let n = (iv.len() - 1).min(8);
    let (mut a, mut b, mut w) = (0.0, 0.0, 0.0);
    for i in 0..n {
        a += iv[i] * W[i];
        b += iv[i + 1] * W[i];
        w += W[i];
    }
    w / f64::max(a, b)
}

fn steady(ctx: &mut Ctx) {
    use crate::wire::{self, Fr, Grp};
    let mut r = ctx.rng.fork();
    let delay = r.pick(&[10, 25, 50, 100]) * MS;
    let tick = r.pick(&[1, 2, 5]) * MS;
    let rtt = 2 * delay + 2 * tick;
    let mut setup = Setup::random(&mut r);
    setup.ceil[0] = r.pick(&[200_000, 1_000_000, 5_000_000]);
    setup.alloc[1] = 50_000_000;
    setup.fwin = [4096; 2];
    setup.pwin = [4096; 2];
    let len = r.pick(&[40usize, 400, 1448]);
    // Distance between loss events in round trips
    let far = r.pick(&[3.0, 6.0, 15.0]);
    let constant = r.chance(0.3);
    let events_wanted = if ctx.thorough { 60 } else { 30 };
    ctx.desc = format!("rtt {} ms tick {} ms ceil {} packets of {} bytes, loss events about {} RTTs apart", rtt / MS, tick / MS, setup.ceil[0], len, far);
    vlog!(ctx, "{}", ctx.desc);
    young();
    set_now(0);
    let mut hc = Hc::new(setup.config(0));
    if age(ctx) {
        hc.step();
    }
    let mut net: std::collections::VecDeque<(u64, Vec<u8>)> = Default::default();
    let mut acks: std::collections::VecDeque<(u64, Vec<u8>)> = Default::default();
    let mut now = 0u64;
    let mut frames = Vec::new();
    // Frames in order of their ids: whether they start a loss event
    let mut starts: Vec<bool> = Vec::new();
    let mut next_loss = 3 * SEC;
    let mut burst_until = 0u64;
    let mut events = 0u32;
    let mut highest = 0usize; // frames acknowledged or lost before the highest acknowledged one
    let mut fbase = setup.fbase[0];
    let mut pbase = setup.pbase[0];
    // The latest three frames acknowledged: a loss is noticed after three later ones
    let mut tops = [0usize; 3];
    let mut judged = 0u64;
    let end = 4000 * SEC;
    let mut peak: f64 = 0.0;
    while now < end && events < events_wanted && !ctx.failed() {
        set_now(now);
        hc.flush(&mut frames);
        for b in frames.drain(..) {
            if let Some(Fr::Data { .. }) = wire::parse(&b) {
                let fresh_event = now >= next_loss;
                let lost = fresh_event || now < burst_until;
                if fresh_event {
                    // A loss event: frames sent within a fraction of the round trip
                    events += 1;
                    burst_until = now + (r.f64() * 0.2 * rtt as f64) as u64;
                    let d = if constant { far } else { far * r.log(0.7, 2.5) };
                    next_loss = now + (d * rtt as f64) as u64;
                }
                starts.push(fresh_event);
                if !lost {
                    net.push_back((now + delay, b));
                }
            } else {
                net.push_back((now + delay, b));
            }
        }
        let mut groups: Vec<Grp> = Vec::new();
        let mut sync = false;
        while net.front().is_some_and(|f| f.0 <= now) {
            match wire::parse(&net.pop_front().unwrap().1) {
                Some(Fr::Data { id, nonce, dgs }) => {
                    fbase = id.wrapping_add(1);
                    // What was lost is gone
                    pbase = dgs.last().map_or(pbase, |d| wire::padd(d.seq, 1));
                    match groups.last_mut() {
                        Some(g) if id.wrapping_sub(g.base) < 32 => {
                            g.bits |= 1 << id.wrapping_sub(g.base);
                            g.nonce ^= nonce;
                        }
                        _ => groups.push(Grp { base: id, bits: 1, nonce }),
                    }
                }
                Some(Fr::Sync { frame, packet }) => {
                    pbase = packet.unwrap_or(pbase);
                    if let Some(f) = frame {
                        fbase = f;
                    }
                    sync = true;
                }
                _ => (),
            }
        }
        if !groups.is_empty() || sync {
            for c in if groups.is_empty() { vec![&groups[..]] } else { groups.chunks(100).collect() } {
                acks.push_back((now + delay, super::frag::seal_lib(wire::write(&Fr::Ack { fbase, pbase, groups: c.to_vec() }))));
            }
        }
        while acks.front().is_some_and(|f| f.0 <= now) {
            let b = acks.pop_front().unwrap().1;
            hc.handle(&b);
            if let Some(Fr::Ack { groups, .. }) = wire::parse(&b) {
                for g in &groups {
                    for i in (0..32).filter(|i| g.bits >> i & 1 != 0) {
                        tops.rotate_left(1);
                        tops[2] = g.base.wrapping_add(i).wrapping_sub(setup.fbase[0]) as usize;
                        highest = tops[2] + 1;
                    }
                }
            }
        }
        hc.step();
        let x = hc.rate();
        peak = peak.max(x);
        if events > 12 {
            // The least loss rate within the uncertainty of detection
            let mut p_lo = f64::INFINITY;
            let known: Vec<usize> = (0..highest).filter(|&i| starts[i]).collect();
            let known: Vec<usize> = if known.len() < 12 { Vec::new() } else { known };
            for cut in tops[0].saturating_sub(1)..=highest {
                let mut iv = Vec::new();
                let mut last = cut;
                for &k in known.iter().rev().filter(|&&k| k < cut) {
                    iv.push((last - k) as f64);
                    last = k;
                    if iv.len() == 9 {
                        break;
                    }
                }
                if iv.len() == 9 {
                    p_lo = p_lo.min(loss_event_rate(&iv));
                }
            }
            if p_lo.is_finite() {
                let rt = hc.rtt().unwrap_or(1.0);
                let most = eq(rt, p_lo);
                judged += 1;
                if most < setup.ceil[0] as f64 {
                    ctx.count("equation_binding", 1);
                }
                vlog!(ctx, "{:.3} x {} most {} ratio {:.3} rtt {} highest {} events at {:?}", now as f64 / 1e9, x, most, x / most, rt, highest, &known[known.len().saturating_sub(11)..]);
                if x > 1.02 * most + FLOOR {
                    ctx.fail(format!("at {:.3} s the rate is {}, but the equation gives {} for RTT {} and the loss event rate {} of the frames lost", now as f64 / 1e9, x, most, rt, p_lo));
                }
            }
        }
        // Keep the sender busy
        while hc.buffer() < 400 * len.max(100) {
            hc.send(&vec![7u8; len], 0, uflow::SendMode::Unreliable);
        }
        now += tick;
    }
    ctx.count("equation_judged_end_to_end", judged);
    ctx.count("loss_events", events as u64);
    ctx.max("peak_rate", peak as u64);
    ctx.nontrivial = judged > 0;
    ctx.seen(starts.len() as u64);
    ctx.seen(now);
    drop_hc(hc);
}

// ---------------------------------------------------------------------------------------------------------------
// Arbitrary losses and reordered acknowledgements

/// The sender's loss history: a frame counts as lost once three later ones were acknowledged, losses of frames sent
/// within one round trip of the first make up one event.
struct History {
    shift: i64,
    base: usize,
    seen: Vec<usize>,
    // (end in ms, length), newest first
    intervals: std::collections::VecDeque<(u64, f64)>,
    events: u64,
}

impl History {
    fn new(shift: i64) -> Self {
        History { shift, base: 0, seen: Vec::new(), intervals: Default::default(), events: 0 }
    }
    fn pass(&mut self, ok: bool, sent: &[u64], rtt: u64) {
        let at = sent[self.base];
        self.base += 1;
        match self.intervals.front_mut() {
            Some(i) if ok || at < i.0 => i.1 += 1.0,
            None if ok => (),
            _ => {
                self.intervals.push_front((at + (rtt as i64 + self.shift).max(0) as u64, 1.0));
                self.intervals.truncate(9);
                self.events += 1;
            }
        }
    }
    fn acked(&mut self, f: usize, sent: &[u64], rtt: u64) {
        if f < self.base || self.seen.contains(&f) {
            return;
        }
        self.seen.push(f);
        self.seen.sort();
        while let Some(&first) = self.seen.first() {
            if first == self.base || self.seen.len() == 3 {
                while self.base < first {
                    self.pass(false, sent, rtt);
                }
                self.pass(true, sent, rtt);
                self.seen.remove(0);
            } else {
                break;
            }
        }
    }
    /// The first loss reported replaces the history by one interval matching the rate.
    fn restart(&mut self) {
        self.intervals.truncate(1);
        self.intervals[0].1 = f64::NAN;
    }
    fn rate(&self) -> Option<f64> {
        let iv: Vec<f64> = self.intervals.iter().map(|i| i.1).collect();
        if iv.len() == 9 && iv.iter().all(|l| l.is_finite()) {
            Some(loss_event_rate(&iv))
        } else {
            None
        }
    }
}

fn mixed(ctx: &mut Ctx) {
    use crate::wire::{self, Fr, Grp};
    let mut r = ctx.rng.fork();
    let delay = r.pick(&[5, 10, 25, 50, 100, 400]) * MS;
    let tick = r.pick(&[1, 1, 2, 5, 20]) * MS;
    let rtt = 2 * delay + 2 * tick;
    let mut setup = Setup::random(&mut r);
    setup.ceil[0] = r.pick(&[200_000, 1_000_000, 5_000_000]);
    setup.alloc[1] = 50_000_000;
    setup.fwin = [4096; 2];
    setup.pwin = [4096; 2];
    let len = r.pick(&[40usize, 400, 1448]);
    let mut loss = r.log(0.002, 0.06);
    let burst = r.pick(&[0.0, 0.0, 0.3, 1.0]);
    let jitter = if r.chance(0.3) { 0 } else { r.below(rtt / 2) };
    let split = r.pick(&[0.0, 0.1, 0.5, 1.0]);
    let ack_loss = r.pick(&[0.0, 0.0, 0.01, 0.05]);
    let copies = r.pick(&[0.0, 0.0, 0.2]);
    let wanted = if ctx.thorough { 200 } else { 80 };
    ctx.desc = format!(
        "rtt {} ms tick {} ms ceil {} packets of {} bytes, loss {:.4} bursts {} ack jitter {} ms ack loss {} groups split {} copies {}",
        rtt / MS, tick / MS, setup.ceil[0], len, loss, burst, jitter / MS, ack_loss, split, copies
    );
    vlog!(ctx, "{}", ctx.desc);
    young();
    set_now(0);
    let mut hc = Hc::new(setup.config(0));
    if age(ctx) {
        hc.step();
    }
    let mut net: std::collections::VecDeque<(u64, Vec<u8>)> = Default::default();
    let mut acks: std::collections::BTreeMap<(u64, u64), Vec<u8>> = Default::default();
    let mut serial = 0;
    let mut now = 0u64;
    let mut frames = Vec::new();
    let mut sent: Vec<u64> = Vec::new();
    let mut models: Vec<History> = [-1, 0, 1].iter().map(|&s| History::new(s)).collect();
    let mut lossy = false;
    let mut burst_until = 0u64;
    let (mut fbase, mut pbase) = (setup.fbase[0], setup.pbase[0]);
    let (mut judged, mut binding, mut late) = (0u64, 0u64, 0u64);
    let mut acked = std::collections::HashSet::new();
    let mut turn = r.range(5, 60) * SEC;
    'run: while now < 2000 * SEC && models[1].events < wanted && !ctx.failed() {
        now += tick;
        set_now(now);
        let mut groups: Vec<Grp> = Vec::new();
        let mut sync = false;
        while net.front().is_some_and(|f| f.0 <= now) {
            match wire::parse(&net.pop_front().unwrap().1) {
                Some(Fr::Data { id, nonce, dgs }) => {
                    fbase = id.wrapping_add(1);
                    pbase = dgs.last().map_or(pbase, |d| wire::padd(d.seq, 1));
                    match groups.last_mut() {
                        Some(g) if id.wrapping_sub(g.base) < 32 && !r.chance(split) => {
                            g.bits |= 1 << id.wrapping_sub(g.base);
                            g.nonce ^= nonce;
                        }
                        _ => groups.push(Grp { base: id, bits: 1, nonce }),
                    }
                }
                Some(Fr::Sync { frame, packet }) => {
                    pbase = packet.unwrap_or(pbase);
                    if let Some(f) = frame {
                        fbase = f;
                    }
                    sync = true;
                }
                _ => (),
            }
        }
        if sync && groups.is_empty() {
            serial += 1;
            acks.insert((now + delay, serial), super::frag::seal_lib(wire::write(&Fr::Ack { fbase, pbase, groups: Vec::new() })));
        }
        if split > 0.0 {
            // Groups of one acknowledgement in any order
            for i in (1..groups.len()).rev() {
                groups.swap(i, r.below(i as u64 + 1) as usize);
            }
        }
        let mut rest = &groups[..];
        while !rest.is_empty() {
            let n = if split > 0.0 { r.range(1, 100.min(rest.len() as u64)) as usize } else { rest.len().min(100) };
            let b = super::frag::seal_lib(wire::write(&Fr::Ack { fbase, pbase, groups: rest[..n].to_vec() }));
            rest = &rest[n..];
            for _ in 0..(!r.chance(ack_loss)) as u32 + r.chance(copies) as u32 {
                serial += 1;
                acks.insert((now + delay + if jitter > 0 { r.below(jitter) } else { 0 }, serial), b.clone());
            }
        }
        let mut fed = false;
        let rtt_ms = hc.rtt().map_or(100, |s| (s * 1000.0).round() as u64);
        while acks.first_key_value().is_some_and(|f| f.0 .0 <= now) {
            let b = acks.pop_first().unwrap().1;
            hc.handle(&b);
            let Some(Fr::Ack { groups, .. }) = wire::parse(&b) else { continue };
            for g in &groups {
                for i in (0..32).filter(|i| g.bits >> i & 1 != 0) {
                    let f = g.base.wrapping_add(i).wrapping_sub(setup.fbase[0]) as usize;
                    if hc.rtt().is_some_and(|s| (now / MS - sent[f]) as f64 > s * 3500.0) {
                        // May have been forgotten
                        ctx.count("mixed_ambiguous", 1);
                        break 'run;
                    }
                    if !acked.insert(f) {
                        continue;
                    }
                    fed = true;
                    late += (f < models[1].base) as u64;
                    for m in models.iter_mut() {
                        m.acked(f, &sent, rtt_ms);
                    }
                }
            }
        }
        let b = models[1].base;
        if hc.rtt().is_some_and(|s| b < sent.len() && (now / MS - sent[b]) as f64 > s * 3500.0) {
            ctx.count("mixed_ambiguous", 1);
            break;
        }
        hc.step();
        if fed {
            if !lossy && models[1].events > 0 {
                lossy = true;
                models.iter_mut().for_each(|m| m.restart());
            } else if lossy {
                let p: Vec<f64> = models.iter().filter_map(|m| m.rate()).collect();
                if p.len() == 3 {
                    let p = p.into_iter().fold(f64::INFINITY, f64::min);
                    let (x, rt) = (hc.rate(), hc.rtt().unwrap_or(1.0));
                    let most = eq(rt, p);
                    judged += 1;
                    binding += (x > 0.9 * most) as u64;
                    vlog!(ctx, "{:.3} x {} most {} ratio {:.3} rtt {} p {} base {} intervals {:?}", now as f64 / 1e9, x, most, x / most, rt, p, models[1].base, models[1].intervals.iter().map(|i| i.1).collect::<Vec<_>>());
                    if x > 1.01 * most + FLOOR {
                        ctx.fail(format!("at {:.3} s the rate is {}, but the equation gives {} for RTT {} and the loss event rate {} of the frames not acknowledged", now as f64 / 1e9, x, most, rt, p));
                    }
                }
            }
        }
        // Keep the sender busy
        while hc.buffer() < 400 * len.max(100) {
            hc.send(&vec![7u8; len], 0, uflow::SendMode::Unreliable);
        }
        if now > turn {
            turn = now + r.range(5, 60) * SEC;
            loss = r.log(0.002, 0.06);
        }
        hc.flush(&mut frames);
        for b in frames.drain(..) {
            let mut lost = false;
            if let Some(Fr::Data { .. }) = wire::parse(&b) {
                sent.push(now / MS);
                lost = now < burst_until || now > SEC && r.chance(loss);
                if lost && now >= burst_until && r.chance(burst) {
                    burst_until = now + (r.f64() * rtt as f64) as u64;
                }
            }
            if !lost {
                net.push_back((now + delay, b));
            }
        }
    }
    ctx.count("mixed_judged", judged);
    ctx.count("mixed_binding", binding);
    ctx.count("mixed_acks_out_of_order", late);
    ctx.count("mixed_loss_events", models[1].events);
    ctx.nontrivial = judged > 0;
    ctx.seen(sent.len() as u64);
    ctx.seen(now);
    drop_hc(hc);
}

pub fn c14() -> Property {
    Property {
        id: "C14",
        rule: "a case counts if the rate computation was given feedback or expired; cases are distinct if the rates seen differ",
        scenarios: vec![sc("unit", 600_000, 20_000_000, unit), sc("scripted", 2_000, 60_000, scripted), sc("steady", 150, 6_000, steady), sc("mixed", 300, 10_000, mixed)],
        floors: &[
            ("slow_start_feedbacks", 50_000),
            ("first_losses", 5_000),
            ("equation_feedbacks", 50_000),
            ("steps_without_feedback", 100_000),
            ("halvings", 20_000),
            ("silences", 1_000),
            ("rtt_samples_judged", 5_000),
            ("equation_judged_end_to_end", 10_000),
            ("mixed_judged", 200_000),
            ("mixed_binding", 100_000),
            ("mixed_acks_out_of_order", 20_000),
        ],
    }
}
