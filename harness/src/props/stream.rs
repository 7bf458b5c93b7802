//! Properties decided on two connected HalfConnections exchanging random traffic: C01, C02, C05, C13, C20.

use super::sc;
use crate::core::{Ctx, Property};
use crate::hc::*;
use crate::wire::FRAG;

pub fn max_len(s: &Setup, from: usize) -> usize {
    // A packet larger than the peer's receive limit is refused at connection time
    (s.alloc[1 - from]).min(60_000)
}

/// Long enough for frames in flight to arrive and for both applications to step afterwards, pauses included.
pub const POST: u64 = 40 * SEC;

pub fn settle(c: &mut Cadence, at: u64) {
    // Once faults are over, applications step regularly
    c.change = Some((at, c.interval.max(10 * MS)));
}

pub struct Run {
    pub setup: Setup,
    pub links: Vec<Link>,
    pub cadence: Vec<Cadence>,
    pub plans: Vec<Plan>,
    pub fault_end: u64,
    pub end: u64,
}

pub fn describe(ctx: &mut Ctx, r: &Run) {
    ctx.desc = format!(
        "windows f{:?} p{:?} bases f{:x?} p{:x?} ceil {:?} alloc {:?}; A->B {}ms+{}ms loss {} dup {} corrupt {} dark {}; tick {}us/{}us; packets {}/{} sizes {}/{}",
        r.setup.fwin, r.setup.pwin, r.setup.fbase, r.setup.pbase, r.setup.ceil, r.setup.alloc,
        r.links[0].delay / MS, r.links[0].jitter / MS, r.links[0].loss, r.links[0].dup, r.links[0].corrupt, r.links[0].dark.len(),
        r.cadence[0].interval / 1000, r.cadence[1].interval / 1000,
        r.plans[0].left, r.plans[1].left, r.plans[0].sizes, r.plans[1].sizes,
    );
    vlog!(ctx, "{}", ctx.desc);
}

/// Drives the traffic until everything has been submitted and the connection is idle, or until `end`.
pub fn drive(ctx: &mut Ctx, r: Run, on: u32, wait_idle: bool) -> Sim {
    let Run { setup, links, cadence, mut plans, fault_end, end } = r;
    let mut sim = Sim::new(ctx, &setup, on, links, cadence);
    let mut rng = ctx.rng.fork();
    let left = std::cell::Cell::new(1u64);
    sim.run(
        ctx,
        end,
        |sim, ctx, i| {
            plans[i].act(sim, ctx, i, &mut rng);
            left.set(plans[0].left + plans[1].left);
        },
        |sim| left.get() == 0 && wait_idle && sim.now > fault_end && sim.idle(),
    );
    sim
}

pub fn nontrivial(ctx: &mut Ctx, sim: &Sim) {
    let d = sim.dirs[0].delivered + sim.dirs[1].delivered;
    ctx.nontrivial = d >= 3;
    ctx.max("virtual_seconds", sim.now / SEC);
    ctx.max("packets_outstanding", sim.dirs.iter().map(|d| d.max_out_seen).max().unwrap() as u64);
    ctx.count("fragments_retransmitted", sim.dirs.iter().map(|d| d.retx).sum());
}

/// Thousands of tiny packets in flight at a time, so that the whole packet window is used, most of them on one
/// channel, few of them Reliable; a frame is lost now and then. Losses must be rare, as the rate would collapse.
pub fn wide(r: &mut crate::core::Rng, thorough: bool, lossy: bool) -> Run {
    let mut setup = Setup::random(r);
    setup.ceil = [r.pick(&[20_000_000, u32::MAX]); 2];
    setup.alloc = [r.pick(&[100_000, 1_000_000]); 2];
    setup.fwin = [4096; 2];
    setup.pwin = [4096; 2];
    // Down to round trips of less than a millisecond
    let delay = r.pick(&[0, 5 * MS, 50 * MS, 300 * MS]);
    let fault_end = (15 + r.below(20)) * (2 * delay + 20 * MS);
    let plans = (0..2)
        .map(|i| {
            let n = if i == 1 {
                r.pick(&[0, 300, 300])
            } else if thorough {
                r.pick(&[20_000, 60_000])
            } else {
                r.pick(&[10_000, 16_000, 25_000])
            };
            let mut p = Plan::random(r, 2000, n);
            if i == 0 {
                p.burst = r.pick(&[500, 3000, 5000, 20_000]);
                p.p = r.pick(&[0.1, 1.0]);
                p.sizes = r.pick(&[5, 5, 5, 7, 0]);
                p.chans = r.pick(&[2, 4, 64]);
                p.rare = r.pick(&[0.0, 0.0004, 0.002, 0.01]);
                p.weights = r.pick(&[[0, 500, 0, 1], [0, 2000, 20, 1], [5, 50, 5, 1], [0, 0, 0, 1], [0, 1, 1, 0], [1, 1, 1, 1]]);
                if p.sizes == 7 && r.chance(0.7) {
                    // As many datagrams as a frame may hold, all of which are awaiting acknowledgement
                    p.weights = r.pick(&[[0, 0, 0, 1], [0, 0, 1, 1]]);
                }
            }
            p
        })
        .collect();
    let cadence: Vec<Cadence> = (0..2)
        .map(|_| {
            let mut c = Cadence::fixed(if delay == 0 && r.chance(0.7) { MS / 5 } else { r.pick(&[MS, 5 * MS, 15 * MS]) });
            settle(&mut c, fault_end + 10 * SEC);
            c
        })
        .collect();
    let links = (0..2)
        .map(|_| {
            let mut l = Link::ideal(delay);
            l.until = fault_end;
            if lossy {
                l.fifo = r.chance(0.5);
                l.loss = r.pick(&[0.0, 0.0003, 0.001, 0.004]);
                l.dup = r.pick(&[0.0, 0.01]);
                for _ in 0..r.below(4) {
                    // A whole burst
                    let a = r.below(fault_end);
                    l.dark.push((a, a + r.pick(&[2 * MS, 20 * MS])));
                }
            }
            l
        })
        .collect();
    Run { setup, links, cadence, plans, fault_end: if lossy { fault_end } else { 0 }, end: 40_000 * SEC }
}

/// Packets of tens to hundreds of fragments, some of which are lost.
pub fn big(r: &mut crate::core::Rng, thorough: bool) -> Run {
    let mut setup = Setup::random(r);
    setup.ceil = [r.pick(&[2_000_000, 20_000_000, u32::MAX]); 2];
    setup.alloc = [r.pick(&[600_000, 1_000_000, 3_000_000]); 2];
    setup.fwin = [r.pick(&[256, 1024, 4096]); 2];
    setup.pwin = [r.pick(&[16, 256, 4096]); 2];
    let delay = r.pick(&[0, 5 * MS, 20 * MS, 50 * MS]);
    let fault_end = r.pick(&[5, 20, 60]) * SEC;
    let n = r.range(5, if thorough { 200 } else { 40 });
    let plans = (0..2)
        .map(|i| {
            let tiny = r.pick(&[0, 0, 5]);
            let mut p = Plan::random(r, 590_000, if i == 0 { n } else { tiny });
            p.sizes = r.pick(&[6, 6, 6, 2]);
            p.burst = r.pick(&[1, 3, 10]);
            p.weights = r.pick(&[[0, 0, 0, 1], [0, 1, 0, 1], [1, 2, 2, 4]]);
            p
        })
        .collect();
    let cadence: Vec<Cadence> = (0..2)
        .map(|_| {
            let mut c = Cadence::fixed(r.pick(&[MS, 5 * MS, 15 * MS]));
            settle(&mut c, fault_end);
            c
        })
        .collect();
    let links = (0..2)
        .map(|_| {
            let mut l = Link::ideal(delay);
            l.until = fault_end;
            l.fifo = r.chance(0.5);
            l.jitter = r.pick(&[0, 0, MS, 20 * MS]);
            l.loss = r.pick(&[0.003, 0.02, 0.06]);
            l.dup = r.pick(&[0.0, 0.0, 0.05]);
            l
        })
        .collect();
    Run { setup, links, cadence, plans, fault_end, end: 40_000 * SEC }
}

fn c02_big(ctx: &mut Ctx) {
    let run = big(&mut ctx.rng, ctx.thorough);
    fair(ctx, run);
}

fn c01_wide(ctx: &mut Ctx) {
    let mut run = wide(&mut ctx.rng, ctx.thorough, true);
    run.end = 60 * SEC;
    describe(ctx, &run);
    let sim = drive(ctx, run, ORDER, true);
    nontrivial(ctx, &sim);
    sim.finish();
}

// ---------------------------------------------------------------------------------------------------------------
// C01

fn c01_faulty(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let setup = Setup::random(r);
    let end = r.pick(&[5, 20, 60]) * SEC;
    let n = r.range(20, if ctx.thorough { 1500 } else { 400 });
    let plans = (0..2).map(|i| Plan::random(r, max_len(&setup, i), n)).collect();
    let run = Run { links: (0..2).map(|_| Link::faulty(r, end)).collect(), cadence: (0..2).map(|_| Cadence::random(r)).collect(), plans, setup, fault_end: 0, end };
    describe(ctx, &run);
    let sim = drive(ctx, run, ORDER, true);
    nontrivial(ctx, &sim);
    sim.finish();
}

/// Long histories which cycle the packet and frame windows several times, with frames replayed much later.
fn c01_cycle(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let mut setup = Setup::random(r);
    for i in 0..2 {
        setup.ceil[i] = 50_000_000;
        setup.alloc[i] = 1_000_000;
        setup.pwin[i] = 1 << r.pick(&[3, 5, 7, 10, 12]);
        setup.fwin[i] = 1 << r.pick(&[3, 5, 7, 10, 12]);
    }
    let end = 120 * SEC;
    let n = if ctx.thorough { 40_000 } else { 6_000 };
    let plans = (0..2)
        .map(|i| {
            let mut p = Plan::random(r, 3000, if i == 0 { n } else { n / 10 });
            p.burst = r.pick(&[40, 200]);
            p.p = 1.0;
            p.sizes = r.pick(&[0, 0, 1]);
            p
        })
        .collect();
    let links = (0..2)
        .map(|_| {
            let mut l = Link::ideal(r.pick(&[MS, 5 * MS, 20 * MS]));
            l.fifo = false;
            l.loss = r.pick(&[0.0, 0.001, 0.01]);
            l.dup = r.pick(&[0.05, 0.5]);
            l.jitter = r.pick(&[0, MS, 20 * MS]);
            l.replay = r.pick(&[0.0, 0.05, 0.3]);
            l
        })
        .collect();
    let cadence = (0..2).map(|_| Cadence::fixed(r.pick(&[MS, 5 * MS, 15 * MS]))).collect();
    let run = Run { setup, links, cadence, plans, fault_end: 0, end };
    describe(ctx, &run);
    let sim = drive(ctx, run, ORDER, true);
    nontrivial(ctx, &sim);
    ctx.max("frames_of_one_sender", sim.ends.iter().map(|e| e.frames_out).max().unwrap());
    sim.finish();
}

pub fn c01() -> Property {
    Property {
        id: "C01",
        rule: "a case counts if at least three packets were delivered; cases are distinct if the delivered (id, size) sequences differ",
        scenarios: vec![sc("faulty", 5_000, 150_000, c01_faulty), sc("cycle", 100, 2_000, c01_cycle), sc("wide", 300, 8_000, c01_wide), sc("endpoints", 600, 20_000, super::ends::c01)],
        floors: &[("packets_delivered", 10_000), ("frames_lost", 1_000), ("frames_duplicated", 1_000), ("frames_rejected", 200)],
    }
}

// ---------------------------------------------------------------------------------------------------------------
// C02

fn c02_fair(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let setup = Setup::random(r);
    let fault_end = r.pick(&[1, 5, 20, 60]) * SEC;
    let n = r.range(5, if ctx.thorough { 800 } else { 250 });
    let plans: Vec<Plan> = (0..2)
        .map(|i| {
            let n = if i == 0 || r.chance(0.5) { n } else { 0 };
            let mut p = Plan::random(r, max_len(&setup, i).min(20_000), n);
            p.weights = r.pick(&[[0, 0, 0, 1], [1, 1, 1, 3], [0, 3, 1, 1], [2, 4, 0, 1], [0, 1, 2, 2]]);
            p
        })
        .collect();
    let mut cadence: Vec<Cadence> = (0..2).map(|_| Cadence::random(r)).collect();
    for c in &mut cadence {
        settle(c, fault_end);
    }
    let run = Run { links: (0..2).map(|_| Link::faulty(r, fault_end)).collect(), cadence, plans, setup, fault_end, end: 40_000 * SEC };
    fair(ctx, run);
}

fn c02_wide(ctx: &mut Ctx) {
    let run = wide(&mut ctx.rng, ctx.thorough, true);
    fair(ctx, run);
}

/// A few Reliable packets are lost at full speed, and exactly about as many packets follow at once as the window holds.
fn c02_hol(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let mut run = wide(r, false, false);
    let delay = r.pick(&[20 * MS, 100 * MS, 300 * MS]);
    for l in &mut run.links {
        *l = Link::ideal(delay);
    }
    let tick = r.pick(&[5 * MS, 15 * MS]);
    run.cadence = (0..2).map(|_| Cadence::fixed(tick)).collect();
    for p in &mut run.plans {
        p.left = 0;
    }
    let rounds = r.range(1, 3);
    let rtt = 2 * delay + 2 * tick;
    let start = r.range(8, 11) * rtt;
    let period = r.range(6, 12) * rtt;
    // Lost packets, what follows, after how many steps
    let plan: Vec<(u64, u64, u64)> = (0..rounds)
        .map(|k| {
            let at = start + k * period;
            let lost = r.pick(&[1, 1, 2, 5]);
            let n = r.pick(&[4096, 4096, 4096, 2048, 1024, 8192]) - r.below(lost + 3);
            (at, lost, n)
        })
        .collect();
    for p in &plan {
        // Ends before the following step
        run.links[0].dark.push((p.0, p.0 + tick));
    }
    let fault_end = start + rounds * period;
    run.links[0].until = fault_end;
    run.fault_end = fault_end;
    describe(ctx, &run);
    let w = r.pick(&[[0, 1, 0, 0], [0, 20, 1, 0], [1, 5, 0, 0]]);
    let chans = r.pick(&[1, 3, 64]);
    let after = r.pick(&[[0, 0, 0, 1], [0, 1, 0, 1]]);
    let mut bulk = Plan::random(r, 2000, u64::MAX);
    bulk.burst = 2000;
    bulk.p = 1.0;
    bulk.sizes = 5;
    bulk.weights = [0, 1, 0, 0];
    let mut r2 = r.fork();
    let mut stage = 0usize;
    let mut step = 0;
    let mut sim = Sim::new(ctx, &run.setup, ORDER | RELIABLE, run.links, run.cadence);
    let done = std::cell::Cell::new(false);
    let mut widest = 0;
    sim.run(
        ctx,
        run.end,
        |sim, ctx, i| {
            if i != 0 {
                return;
            }
            widest = widest.max(sim.dirs[0].max_out_seen);
            if sim.now < start - 2 * rtt {
                // Keeps the sender busy, without queueing more than it can send
                if sim.ends[0].hc.buffer() < 200_000 {
                    bulk.act(sim, ctx, 0, &mut r2);
                }
                return;
            }
            if stage >= plan.len() {
                done.set(true);
                return;
            }
            let (at, lost, n) = plan[stage];
            if step == 0 {
                // Applications step at regular times: this one is flushed within the interval
                if sim.now + tick > at {
                    for _ in 0..lost {
                        sim.submit(ctx, 0, 5, r2.below(chans) as u8, uflow::SendMode::Reliable);
                    }
                    step = 1;
                }
            } else if step == 1 && sim.now >= at + tick {
                let mut p = Plan::random(&mut r2, 2000, n);
                p.sizes = 5;
                p.weights = w;
                p.chans = r2.pick(&[1, 3, 62]);
                p.burst = 1;
                p.p = 1.0;
                for _ in 0..n {
                    p.act(sim, ctx, 0, &mut r2);
                }
                for _ in 0..r2.below(20) {
                    p.left = 1;
                    p.weights = after;
                    p.act(sim, ctx, 0, &mut r2);
                }
                step = 0;
                stage += 1;
            }
        },
        |sim| done.get() && sim.now > fault_end && sim.idle(),
    );
    nontrivial(ctx, &sim);
    settled(ctx, sim, fault_end);
}

fn fair(ctx: &mut Ctx, run: Run) {
    describe(ctx, &run);
    let fault_end = run.fault_end;
    let sim = drive(ctx, run, ORDER | RELIABLE, true);
    nontrivial(ctx, &sim);
    settled(ctx, sim, fault_end);
}

fn settled(ctx: &mut Ctx, mut sim: Sim, fault_end: u64) {
    if !ctx.failed() {
        if !sim.idle() {
            let m: Vec<String> = (0..2)
                .map(|i| {
                    format!(
                        "{}: pending {} buffer {} missing {}",
                        sim.dirs[i].name,
                        sim.ends[i].hc.pending(),
                        sim.ends[i].hc.buffer(),
                        sim.dirs[i].reliable_missing()
                    )
                })
                .collect();
            ctx.fail(format!("not idle {} s after the last fault: {}", (sim.now - fault_end) / SEC, m.join("; ")));
        }
        // What has been acknowledged has been received; the peer delivers it at its next step at the latest
        let t = sim.now + POST;
        sim.run(ctx, t, |_, _, _| (), |_| false);
        for i in 0..2 {
            let miss = sim.dirs[i].undelivered(|p| p.mode == uflow::SendMode::Reliable);
            if !miss.is_empty() {
                ctx.fail(format!("{}: Reliable packets {:?} were acknowledged but never delivered", sim.dirs[i].name, &miss[..miss.len().min(5)]));
            }
            ctx.count("reliable_delivered", sim.dirs[i].pkts.iter().filter(|p| p.delivered && p.mode == uflow::SendMode::Reliable).count() as u64);
        }
        ctx.max("settling_ms", sim.now.saturating_sub(fault_end) / MS);
        ctx.count("sessions_settled", 1);
    }
    sim.finish();
}

pub fn c02() -> Property {
    Property {
        id: "C02",
        rule: "a case counts if at least three packets were delivered and the session settled; cases are distinct if the delivered sequences differ",
        scenarios: vec![sc("fair", 4_000, 100_000, c02_fair), sc("wide", 800, 20_000, c02_wide), sc("big", 400, 10_000, c02_big), sc("hol", 400, 10_000, c02_hol), sc("endpoints", 300, 10_000, super::ends::c02)],
        floors: &[("reliable_delivered", 5_000), ("frames_lost", 1_000), ("sessions_settled", 100)],
    }
}

// ---------------------------------------------------------------------------------------------------------------
// C05

fn c05_ideal(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let mut setup = Setup::random(r);
    // The windows of the library itself are fixed; smaller ones make their exhaustion likely
    for i in 0..2 {
        if setup.ceil[i] < 10_000 {
            setup.ceil[i] = 10_000;
        }
    }
    let n = r.range(10, if ctx.thorough { 2000 } else { 500 });
    let plans: Vec<Plan> = (0..2)
        .map(|i| {
            let mut p = Plan::random(r, max_len(&setup, i).min(if setup.ceil[i] < 1_000_000 { 2900 } else { 60_000 }), n);
            p.burst = r.pick(&[1, 3, 10, 40, 200]);
            p
        })
        .collect();
    let links = (0..2).map(|_| Link::ideal(r.pick(&[0, MS / 5, MS, 5 * MS, 25 * MS, 100 * MS, 500 * MS]))).collect();
    let mut cadence: Vec<Cadence> = (0..2).map(|_| Cadence::random(r)).collect();
    for c in &mut cadence {
        settle(c, 60 * SEC);
    }
    let run = Run { setup, links, cadence, plans, fault_end: 0, end: 40_000 * SEC };
    ideal(ctx, run);
}

fn c05_wide(ctx: &mut Ctx) {
    let run = wide(&mut ctx.rng, ctx.thorough, false);
    ideal(ctx, run);
}

fn ideal(ctx: &mut Ctx, run: Run) {
    describe(ctx, &run);
    let mut sim = drive(ctx, run, GLOBAL, true);
    nontrivial(ctx, &sim);
    if !ctx.failed() {
        if !sim.idle() {
            ctx.fail(format!(
                "sender not idle after {} s of an ideal network (buffers {} and {})",
                sim.now / SEC,
                sim.ends[0].hc.buffer(),
                sim.ends[1].hc.buffer()
            ));
        }
        let t = sim.now + POST;
        sim.run(ctx, t, |_, _, _| (), |_| false);
        for i in 0..2 {
            let miss = sim.dirs[i].undelivered(|p| p.mode != uflow::SendMode::TimeSensitive);
            if let Some(&u) = miss.first() {
                let p = &sim.dirs[i].pkts[u as usize];
                ctx.fail(format!("{}: packet {} ({:?}, {} bytes) was never delivered on an ideal network", sim.dirs[i].name, u, p.mode, p.len));
            }
            if sim.dirs[i].zero_missing() > 0 {
                ctx.fail(format!("{}: {} empty packets were never delivered on an ideal network", sim.dirs[i].name, sim.dirs[i].zero_missing()));
            }
        }
        ctx.count("sessions_complete", 1);
    }
    ctx.count("ts_discarded_by_sender", sim.dirs.iter().map(|d| d.undelivered(|_| true).len() as u64).sum());
    sim.finish();
}

pub fn c05() -> Property {
    Property {
        id: "C05",
        rule: "a case counts if at least three packets were delivered; cases are distinct if the delivered sequences differ",
        scenarios: vec![sc("ideal", 1_500, 40_000, c05_ideal), sc("wide", 400, 8_000, c05_wide), sc("endpoints", 300, 10_000, super::ends::c05), sc("closing", 400, 12_000, super::ends::c05_closing)],
        floors: &[("packets_delivered", 20_000), ("sessions_complete", 100), ("closed_after_a_burst", 200)],
    }
}

// ---------------------------------------------------------------------------------------------------------------
// C13

fn c13_rate(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let mut setup = Setup::random(r);
    for i in 0..2 {
        setup.ceil[i] = r.pick(&[1472, 1473, 2000, 5000, 20_000, 100_000, 1_000_000, 10_000_000]);
        setup.alloc[i] = 1_000_000;
        setup.fwin[i] = 4096;
        setup.pwin[i] = 4096;
    }
    let end = r.pick(&[10, 30, 120]) * SEC;
    let n = if ctx.thorough { 20_000 } else { 4_000 };
    let plans: Vec<Plan> = (0..2)
        .map(|i| {
            let mut p = Plan::random(r, max_len(&setup, i), n);
            p.burst = r.pick(&[3, 40, 200]);
            p.p = r.pick(&[0.01, 0.3, 1.0]);
            p.sizes = r.pick(&[0, 1, 3, 3]);
            p
        })
        .collect();
    let links = (0..2)
        .map(|_| {
            let mut l = if r.chance(0.6) { Link::faulty(r, end) } else { Link::ideal(r.pick(&[0, MS, 20 * MS, 200 * MS, 2 * SEC])) };
            l.corrupt = 0.0;
            l
        })
        .collect();
    let cadence: Vec<Cadence> = (0..2)
        .map(|_| {
            let mut c = Cadence::random(r);
            if r.chance(0.6) {
                c.flushes = r.range(1, 8) as u32;
            }
            if r.chance(0.4) {
                c.pause = (0.02, r.pick(&[300 * MS, 2 * SEC, 10 * SEC]));
            }
            c
        })
        .collect();
    let run = Run { setup, links, cadence, plans, fault_end: 0, end };
    describe(ctx, &run);
    let sim = drive(ctx, run, RATE, false);
    nontrivial(ctx, &sim);
    for d in &sim.dirs {
        ctx.count("bytes_emitted", d.rate.bytes);
        ctx.count("frames_judged", d.rate.frames);
        if d.rate.worst > -200.0 {
            ctx.count("senders_near_ceiling", 1);
        }
        ctx.seen(d.rate.bytes);
    }
    sim.finish();
}

/// One sender and a peer made by hand: every kind of frame next to every other, at one and the same instant, after
/// silences of any length and for minutes on end (acknowledgements and answers to sync frames alone can use up a low
/// ceiling; a sync frame, an acknowledgement and data can be due in one call).
fn c13_trickle(ctx: &mut Ctx) {
    use crate::wire::{self, Fr, Grp};
    use std::collections::VecDeque;
    use uflow::SendMode;
    let mut r = ctx.rng.fork();
    let mut setup = Setup::random(&mut r);
    setup.ceil[0] = r.pick(&[1472, 1472, 1473, 2000, 5000, 20_000, 100_000]);
    setup.alloc = [1_000_000; 2];
    setup.fwin = [4096; 2];
    setup.pwin = [4096; 2];
    setup.keepalive[0] = r.pick(&[None, Some(1), Some(2000), Some(5000)]);
    let delay = r.pick(&[0, 0, MS, 5 * MS, 100 * MS, SEC]);
    let loss = r.pick(&[0.0, 0.0, 0.01, 0.2]);
    let deaf = r.chance(0.1);
    let end = r.pick(&[60, 200, 600]) * SEC;
    ctx.desc = format!("ceiling {} B/s keepalive {:?} delay {} ms loss {} deaf {}", setup.ceil[0], setup.keepalive[0], delay / MS, loss, deaf);
    let mut now = 0u64;
    young();
    set_now(0);
    let mut hc = Hc::new(setup.config(0));
    if age(ctx) {
        hc.step();
    }
    let mut mon = RateMon::new(setup.ceil[0] as f64);
    let mut net: VecDeque<(u64, Vec<u8>)> = VecDeque::new();
    let mut back: VecDeque<(u64, Vec<u8>)> = VecDeque::new();
    let (mut fbase, mut pbase) = (setup.fbase[0], setup.pbase[0]);
    let mut peer = setup.fbase[1];
    let mut frames = Vec::new();
    let mut packets = Vec::new();
    let mut kinds = [0u64; 3];
    let (mut together, mut last) = (0u64, (u64::MAX, 9));
    let modes = [SendMode::TimeSensitive, SendMode::Unreliable, SendMode::Persistent, SendMode::Reliable];
    let mode = r.pick(&[0usize, 1, 2, 3, 4]);
    while now < end && !ctx.failed() {
        let kind = r.below(6);
        let until = now + match kind {
            0 => r.range(1000, 8000) * MS,
            1 => r.pick(&[0, MS, 20 * MS, 500 * MS]),
            _ => r.pick(&[100 * MS, 2 * SEC, 10 * SEC, 60 * SEC, 300 * SEC]),
        };
        let tick = match kind {
            0 => r.pick(&[10, 100, 400, 1990, 2000]) * MS,
            1 => r.pick(&[0, 1, 1, 7]) * MS,
            _ if until - now > 20 * SEC => r.pick(&[5, 20, 100]) * MS,
            _ => r.pick(&[1, 2, 5, 100]) * MS,
        };
        let p_send = if kind == 0 { 0.0 } else { r.pick(&[0.0, 0.01, 0.2, 1.0]) };
        let top = r.pick(&[1u64, 30, 1449, 1449, 4000]);
        let gap = if kind >= 2 { r.pick(&[0u32, 1, 33, 33]) } else { 0 };
        let per = r.range(1, 6);
        let p_sync = if kind >= 3 { r.pick(&[0.0, 0.05, 1.0]) } else { 0.0 };
        let max = if kind == 1 { r.range(1, 12) } else { 100_000 };
        let calls = r.pick(&[1u64, 1, 2, 6]);
        let mut n = 0;
        while (now < until || n == 0 || kind == 1) && n < max && !ctx.failed() {
            n += 1;
            now += if kind == 1 && r.chance(0.6) { 0 } else { tick };
            set_now(now);
            // The peer
            if gap > 0 {
                for _ in 0..per {
                    peer = peer.wrapping_add(gap);
                    hc.handle(&super::frag::seal_lib(wire::write(&Fr::Data { id: peer, nonce: r.chance(0.5), dgs: Vec::new() })));
                }
            }
            if p_sync > 0.0 && r.chance(p_sync) {
                hc.handle(&super::frag::seal_lib(wire::write(&Fr::Sync { frame: None, packet: None })));
            }
            let mut groups: Vec<Grp> = Vec::new();
            let mut sync = false;
            while net.front().is_some_and(|f| f.0 <= now) {
                match wire::parse(&net.pop_front().unwrap().1) {
                    Some(Fr::Data { id, nonce, dgs }) => {
                        fbase = id.wrapping_add(1);
                        pbase = dgs.last().map_or(pbase, |d| if d.frag == d.last { wire::padd(d.seq, 1) } else { d.seq });
                        groups.push(Grp { base: id, bits: 1, nonce });
                    }
                    Some(Fr::Sync { frame, packet }) => {
                        pbase = packet.unwrap_or(pbase);
                        fbase = frame.unwrap_or(fbase);
                        sync = true;
                    }
                    _ => (),
                }
            }
            if (sync || !groups.is_empty()) && !deaf {
                for g in groups.chunks(100) {
                    back.push_back((now + delay, super::frag::seal_lib(wire::write(&Fr::Ack { fbase, pbase, groups: g.to_vec() }))));
                }
                if groups.is_empty() {
                    back.push_back((now + delay, super::frag::seal_lib(wire::write(&Fr::Ack { fbase, pbase, groups }))));
                }
            }
            while back.front().is_some_and(|f| f.0 <= now) {
                hc.handle(&back.pop_front().unwrap().1);
            }
            // The endpoint
            for k in 0..calls {
                if hc.buffer() < 30_000 && r.chance(p_send) {
                    let len = r.range(0, top) as usize;
                    hc.send(&vec![7u8; len], r.below(64) as u8, modes[if mode == 4 { r.below(4) as usize } else { mode }]);
                }
                let step = k == 0 && (kind != 1 || r.chance(0.5));
                if step {
                    if r.chance(0.7) {
                        hc.flush(&mut frames);
                    }
                    // The order of Client::step() and Server::step()
                } else {
                    hc.flush(&mut frames);
                }
                let rtt = hc.rtt();
                if step {
                    hc.step();
                    hc.receive(&mut packets);
                    packets.clear();
                }
                for b in frames.drain(..) {
                    let what = match wire::parse(&b) {
                        Some(Fr::Data { .. }) => 0,
                        Some(Fr::Sync { .. }) => 1,
                        _ => 2,
                    };
                    kinds[what] += 1;
                    together += (last.0 == now && last.1 != what) as u64;
                    last = (now, what);
                    vlog!(ctx, "{:>12.6} emits {} bytes (kind {}), rate {} rtt {:?}", now as f64 / 1e9, b.len(), what, hc.rate(), rtt);
                    let excess = mon.emit(now, b.len(), rtt);
                    if excess > 1.0 + mon.bytes as f64 * 1e-12 {
                        ctx.fail(format!("emitted {:.1} bytes more than the ceiling of {} B/s allows (frame of {} bytes at {:.6} s, rtt {:?})", excess, mon.ceil, b.len(), now as f64 / 1e9, rtt));
                    }
                    if !r.chance(loss) {
                        net.push_back((now + delay, b));
                    }
                }
            }
        }
    }
    ctx.nontrivial = kinds.iter().sum::<u64>() > 20;
    ctx.count("bytes_emitted", mon.bytes);
    ctx.count("frames_judged", mon.frames);
    ctx.count("data_frames_judged", kinds[0]);
    ctx.count("sync_frames_judged", kinds[1]);
    ctx.count("ack_frames_judged", kinds[2]);
    ctx.count("different_frames_at_one_instant", together);
    if mon.worst > -200.0 {
        ctx.count("senders_near_ceiling", 1);
    }
    if mon.worst > -30.0 {
        ctx.count("senders_at_ceiling", 1);
    }
    ctx.seen(mon.bytes);
    drop_hc(hc);
}

pub fn c13() -> Property {
    Property {
        id: "C13",
        rule: "a case counts if at least three packets were delivered; cases are distinct if the delivered sequences and byte totals differ",
        scenarios: vec![sc("rate", 2_500, 60_000, c13_rate), sc("trickle", 2_000, 60_000, c13_trickle), sc("endpoints", 500, 15_000, super::ends::c13)],
        floors: &[("frames_judged", 20_000), ("senders_near_ceiling", 10)],
    }
}

// ---------------------------------------------------------------------------------------------------------------
// C20

fn c20_wide(ctx: &mut Ctx) {
    let run = wide(&mut ctx.rng, ctx.thorough, true);
    buffered(ctx, run);
}

fn c20_buffer(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let setup = Setup::random(r);
    let fault_end = r.pick(&[1, 5, 20]) * SEC;
    let n = r.range(20, if ctx.thorough { 1000 } else { 300 });
    let plans: Vec<Plan> = (0..2).map(|i| Plan::random(r, max_len(&setup, i), n)).collect();
    let mut cadence: Vec<Cadence> = (0..2).map(|_| Cadence::random(r)).collect();
    for c in &mut cadence {
        settle(c, fault_end);
    }
    let links = (0..2).map(|_| Link::faulty(r, fault_end)).collect();
    let run = Run { setup, links, cadence, plans, fault_end, end: 3_000 * SEC };
    buffered(ctx, run);
}

fn buffered(ctx: &mut Ctx, run: Run) {
    describe(ctx, &run);
    let sim = drive(ctx, run, BUFFER, true);
    nontrivial(ctx, &sim);
    if sim.dirs.iter().any(|d| d.blind > 0) {
        ctx.count("senders_not_modelled", 1);
    }
    if sim.idle() {
        ctx.count("sessions_ended_at_zero", 1);
    }
    ctx.count("ts_discarded", sim.dirs.iter().map(|d| d.ts_dropped).sum());
    let _ = FRAG;
    sim.finish();
}

pub fn c20() -> Property {
    Property {
        id: "C20",
        rule: "a case counts if at least three packets were delivered; cases are distinct if the delivered sequences differ",
        scenarios: vec![sc("buffer", 3_000, 100_000, c20_buffer), sc("wide", 200, 5_000, c20_wide), sc("scripted", 3_000, 80_000, super::peer::c20_scripted), sc("endpoints", 300, 10_000, super::ends::c20)],
        floors: &[("buffer_checks", 100_000), ("sessions_ended_at_zero", 50), ("ts_discarded", 100)],
    }
}
