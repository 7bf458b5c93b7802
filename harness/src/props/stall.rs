//! C11: whatever was lost or delayed, a connection moves again once frames flow.

use uflow::SendMode;

use super::conn::{configs, server_cfg, small_plan};
use super::sc;
use super::stream::max_len;
use crate::core::{Ctx, Property, Rng};
use crate::ep::*;
use crate::hc::*;
use crate::vlog;

/// How a link misbehaves until `until`, and its round trip afterwards.
fn torment(r: &mut Rng, until: u64) -> (Link, &'static str) {
    let base = r.pick(&[0, MS, 5 * MS, 20 * MS, 50 * MS, 150 * MS, 400 * MS]);
    let mut l = Link::ideal(base);
    l.until = until;
    let span = |r: &mut Rng| {
        let a = r.below(until);
        let d = r.pick(&[200 * MS, 700 * MS, 2 * SEC, 5 * SEC, 20 * SEC, 100 * SEC]);
        (a, (a + d).min(until))
    };
    let name = match r.below(9) {
        0 => {
            for _ in 0..r.range(1, 4) {
                let s = span(r);
                l.dark.push(s);
            }
            "dark"
        }
        1 => {
            // One kind of frame only
            for _ in 0..r.range(1, 3) {
                let (a, b) = span(r);
                l.only.push((a, b, 1 << r.below(3), r.pick(&[0.5, 0.9, 1.0])));
            }
            "kinds"
        }
        2 => {
            // All acknowledgements
            let (a, b) = span(r);
            l.only.push((a, b, 4, 1.0));
            "acks"
        }
        3 => {
            // Everything but the acknowledgements
            let (a, b) = span(r);
            l.only.push((a, b, 3, 1.0));
            "no data"
        }
        4 => {
            // The round trip time grows for good, or for a while
            let t = r.below(until);
            let d = base.max(10 * MS) * r.pick(&[3, 10, 30]);
            l.slow.push((t, if r.chance(0.7) { u64::MAX } else { until }, d.min(4 * SEC)));
            l.fifo = r.chance(0.5);
            "longer"
        }
        5 => {
            // ... or shrinks
            let t = r.below(until);
            l.slow.push((0, t, (base.max(10 * MS) * r.pick(&[10, 30, 100])).min(5 * SEC)));
            l.fifo = r.chance(0.5);
            "shorter"
        }
        6 => {
            // Delays swing around the timeouts
            let mut t = 0;
            while t < until {
                let d = r.range(1, 3000) * MS;
                let e = (t + r.range(1, 3000) * MS).min(until);
                l.slow.push((t, e, d));
                t = e;
            }
            l.fifo = r.chance(0.5);
            "swings"
        }
        7 => {
            l.dark.push((r.pick(&[0, 0, r.clone().below(until)]), until));
            "dark to the end"
        }
        _ => {
            l = Link::faulty(r, until);
            l.corrupt = 0.0;
            "faulty"
        }
    };
    if r.chance(0.3) {
        l.loss = r.pick(&[0.01, 0.05, 0.3]);
    }
    (l, name)
}

fn step_cadence(r: &mut Rng) -> Cadence {
    let mut c = Cadence::random(r);
    c.interval = r.pick(&[MS, 5 * MS, 15 * MS, 15 * MS, 33 * MS, 33 * MS, 100 * MS, 300 * MS, SEC, 2 * SEC]);
    c.jitter = c.jitter.min(c.interval / 2);
    c
}

fn heavy_plan(r: &mut Rng, max: usize) -> Plan {
    let n = r.range(50, 600);
    let mut p = Plan::random(r, max.min(60_000), n);
    match r.below(4) {
        0 => {
            // More packets than fit a window
            p.sizes = 0;
            p.max = r.pick(&[0, 1, 8, 60]).min(max);
            p.left = r.pick(&[5000, 9000]);
            p.burst = r.pick(&[200, 2000, 9000]);
            p.p = 0.3;
        }
        1 => {
            p.sizes = 3;
            p.burst = 40;
            p.p = 1.0;
        }
        _ => (),
    }
    if r.chance(0.4) {
        p.weights = r.pick(&[[0, 1, 0, 0], [1, 0, 0, 0], [0, 0, 1, 0], [1, 5, 0, 1]]);
    }
    p
}

struct Probe {
    dir: usize,
    uid: u32,
    mode: SendMode,
}

fn c11_stall(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let mut setup = Setup::random(r);
    for i in 0..2 {
        if r.chance(0.6) {
            setup.fwin[i] = 4096;
            setup.pwin[i] = 4096;
        }
        setup.ceil[i] = r.pick(&[10_000, 100_000, 2_000_000, 50_000_000, u32::MAX]);
        setup.alloc[i] = setup.alloc[i].max(1449);
    }
    let fault_end = r.pick(&[2, 8, 30, 120]) * SEC;
    let mut what = String::new();
    let links: Vec<Link> = (0..2)
        .map(|_| {
            let (l, n) = torment(r, fault_end);
            what += n;
            what += "/";
            l
        })
        .collect();
    // The plans end with the faults: what is judged afterwards are the probes
    let mut plans: Vec<Plan> = (0..2).map(|i| heavy_plan(r, max_len(&setup, i))).collect();
    for i in 0..2 {
        // A small window takes its time
        plans[i].left = plans[i].left.min(setup.pwin[i] as u64 * 30).min(setup.fwin[i] as u64 * 1000);
    }
    if r.chance(0.3) {
        plans[1].left = 0;
    }
    let cadence: Vec<Cadence> = (0..2)
        .map(|_| {
            let mut c = step_cadence(r);
            c.change = Some((fault_end, c.interval));
            c
        })
        .collect();
    ctx.desc = format!(
        "{} until {} s; windows f{:?} p{:?} ceil {:?} alloc {:?}; delays {}ms {}ms; ticks {}us {}us; packets {}/{} sizes {}/{} of {}/{}",
        what,
        fault_end / SEC,
        setup.fwin,
        setup.pwin,
        setup.ceil,
        setup.alloc,
        links[0].delay / MS,
        links[1].delay / MS,
        cadence[0].interval / 1000,
        cadence[1].interval / 1000,
        plans[0].left,
        plans[1].left,
        plans[0].sizes,
        plans[1].sizes,
        plans[0].max,
        plans[1].max
    );
    vlog!(ctx, "{}", ctx.desc);
    let late: u64 = links.iter().map(|l| l.delay + l.jitter + l.slow.iter().map(|s| s.2).max().unwrap_or(0)).max().unwrap();
    let rtt_end: u64 = links.iter().map(|l| l.delay + l.slow.iter().filter(|s| s.1 == u64::MAX).map(|s| s.2).sum::<u64>()).sum();
    let ticks: u64 = cadence.iter().map(|c| c.interval + c.jitter).sum();
    let mut pauses: u64 = 0;
    for c in &cadence {
        if c.pause.0 > 0.0 {
            pauses = pauses.max(c.pause.1);
        }
    }
    let mut sim = Sim::new(ctx, &setup, 0, links, cadence);
    let mut r2 = r.fork();
    sim.run(ctx, fault_end, |sim, ctx, i| plans[i].act(sim, ctx, i, &mut r2), |_| false);
    // Applications step evenly from now on
    for e in &mut sim.ends {
        e.cadence.pause.0 = 0.0;
    }
    let t0 = fault_end + late + pauses;
    sim.run(ctx, t0, |_, _, _| (), |_| false);
    let buffers: Vec<usize> = (0..2).map(|i| sim.ends[i].hc.buffer()).collect();
    // Probes behind whatever is left of the traffic
    let mut probes: Vec<Probe> = Vec::new();
    for _ in 0..3 {
        for dir in 0..2 {
            for mode in [SendMode::Unreliable, SendMode::Persistent, SendMode::Reliable] {
                let len = r.pick(&[4, 200, 1440, 3000]).min(setup.alloc[1 - dir]);
                probes.push(Probe { dir, uid: sim.dirs[dir].pkts.len() as u32, mode });
                sim.submit(ctx, dir, len, r.below(5) as u8, mode);
            }
        }
        let t = sim.now + r.pick(&[0, 20 * MS, 5 * SEC]);
        sim.run(ctx, t, |_, _, _| (), |_| false);
    }
    let arrived = |sim: &Sim, ps: &[Probe]| ps.iter().all(|p| sim.dirs[p.dir].pkts[p.uid as usize].delivered);
    sim.run(ctx, t0 + 40_000 * SEC, |_, _, _| (), |sim| sim.idle() && arrived(sim, &probes));
    let missing = |sim: &Sim, ps: &[Probe]| {
        ps.iter()
            .filter(|p| !sim.dirs[p.dir].pkts[p.uid as usize].delivered)
            .map(|p| format!("{} {:?}", sim.dirs[p.dir].name, p.mode))
            .collect::<Vec<_>>()
            .join(", ")
    };
    if !ctx.failed() && !arrived(&sim, &probes) {
        ctx.fail(format!(
            "{} s after the last fault, packets submitted since are not delivered: {} (rates {:.0} {:.0} B/s; buffers then {:?} now {} {})",
            (sim.now - t0) / SEC,
            missing(&sim, &probes),
            sim.ends[0].hc.rate(),
            sim.ends[1].hc.rate(),
            buffers,
            sim.ends[0].hc.buffer(),
            sim.ends[1].hc.buffer()
        ));
    }
    if !ctx.failed() && !sim.idle() {
        ctx.fail(format!("{} s after the last fault the senders are not idle: buffers {} {}", (sim.now - t0) / SEC, sim.ends[0].hc.buffer(), sim.ends[1].hc.buffer()));
    }
    ctx.max("recovery_ms", (sim.now - t0) / MS);
    ctx.count("probes_delivered", probes.iter().filter(|p| sim.dirs[p.dir].pkts[p.uid as usize].delivered).count() as u64);
    // TimeSensitive packets of an idle sender: some must get through. One direction at a time: an acknowledgement
    // to be sent may use up what a low rate allows at the very moment.
    let mut r3 = r.fork();
    let gap = (rtt_end + ticks).max(200 * MS);
    for dir in 0..2 {
        if ctx.failed() {
            break;
        }
        let mut ts: Vec<u32> = Vec::new();
        let mut next = sim.now;
        let end = sim.now + 4000 * SEC;
        let first = sim.dirs[dir].pkts.len();
        sim.run(
            ctx,
            end,
            |sim, ctx, d| {
                if d == dir && sim.now >= next {
                    next = sim.now + gap + r3.below(gap);
                    ts.push(sim.dirs[dir].pkts.len() as u32);
                    sim.submit(ctx, dir, 100, 3, SendMode::TimeSensitive);
                    ctx.count("ts_probes", 1);
                }
            },
            |sim| sim.dirs[dir].pkts[first..].iter().any(|p| p.delivered),
        );
        let got = ts.iter().filter(|u| sim.dirs[dir].pkts[**u as usize].delivered).count();
        if ts.len() >= 20 && got == 0 {
            ctx.fail(format!("{}: none of {} TimeSensitive packets submitted while idle was delivered", sim.dirs[dir].name, ts.len()));
        }
        ctx.count("ts_probes_delivered", got as u64);
        ctx.max("ts_probes_until_delivery", ts.len() as u64);
    }
    // The rate must leave its minimum when there is something to send
    if !ctx.failed() {
        speed(ctx, &mut sim, &setup, rtt_end, ticks);
    }
    ctx.seen(sim.now);
    ctx.nontrivial = ctx.obs.get("frames_lost").copied().unwrap_or(0) > 0 || ctx.obs.get("probes_delivered").copied().unwrap_or(0) > 0;
    sim.finish();
}

/// Keeps both senders busy until each has been seen to send at a decent rate. (A sender which only acknowledges gets
/// no feedback, hence its rate does not move: both must have something to send.)
fn speed(ctx: &mut Ctx, sim: &mut Sim, setup: &Setup, rtt: u64, ticks: u64) {
    let round = (rtt + 2 * ticks) as f64 / 1e9;
    let len: Vec<usize> = (0..2).map(|i| 1200usize.min(setup.alloc[1 - i])).collect();
    let want: Vec<f64> = (0..2)
        .map(|i| {
            let per_round = (setup.alloc[1 - i] / 1448).min(4).max(1) as f64;
            (setup.ceil[i] as f64 / 8.0).min(per_round * len[i] as f64 / round / 8.0).min(20_000.0).max(40.0)
        })
        .collect();
    let judged: Vec<bool> = (0..2).map(|i| setup.fwin[i] >= 16 && setup.pwin[i] >= 16).collect();
    let win = (10.0 * SEC as f64 + 10.0 * round * 1e9) as u64;
    let start = sim.now;
    let best = [std::cell::Cell::new(0f64), std::cell::Cell::new(0f64)];
    let mut mark = [(sim.now, sim.dirs[0].delivered_bytes), (sim.now, sim.dirs[1].delivered_bytes)];
    sim.run(
        ctx,
        start + 20_000 * SEC,
        |sim, ctx, i| {
            let b = (want[i] * 8.0 * ticks as f64 / 1e9) as usize + 8 * len[i];
            while sim.ends[i].hc.buffer() < b {
                sim.submit(ctx, i, len[i], 0, SendMode::Reliable);
            }
            if sim.now >= mark[i].0 + win {
                let d = (sim.dirs[i].delivered_bytes - mark[i].1) as f64 / ((sim.now - mark[i].0) as f64 / 1e9);
                best[i].set(best[i].get().max(d));
                mark[i] = (sim.now, sim.dirs[i].delivered_bytes);
            }
        },
        |_| (0..2).all(|i| !judged[i] || best[i].get() >= want[i]),
    );
    ctx.max("seconds_to_decent_rate", (sim.now - start) / SEC);
    for i in 0..2 {
        if !judged[i] {
            continue;
        }
        let best = best[i].get();
        ctx.count("rates_recovered", (best >= want[i]) as u64);
        if best < want[i] && !ctx.failed() {
            ctx.fail(format!(
                "{}: busy for {} s on a fault-free network (round trip {:.3} s), the best rate was {:.0} B/s, expected {:.0}; allowed rate {:.0} B/s",
                sim.dirs[i].name,
                (sim.now - start) / SEC,
                round,
                best,
                want[i],
                sim.ends[i].hc.rate()
            ));
        }
    }
}

/// A Client and a Server whose timeouts do not matter.
fn c11_endpoints(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let (mut s, mut c) = configs(r);
    for e in [&mut s, &mut c] {
        e.active_timeout_ms = r.pick(&[1_000_000_000, u64::MAX]);
        e.max_send_rate = e.max_send_rate.max(10_000);
        e.max_receive_rate = e.max_receive_rate.max(10_000);
    }
    let scfg = server_cfg(s);
    let fault_end = r.pick(&[5, 20, 60]) * SEC;
    // The handshake itself must succeed
    let (mut up, n1) = torment(r, fault_end);
    let (mut down, n2) = torment(r, fault_end);
    for l in [&mut up, &mut down] {
        for d in &mut l.dark {
            d.0 = d.0.max(4 * SEC);
        }
        l.loss = l.loss.min(0.3);
        l.dark.retain(|d| d.1 > d.0);
    }
    let cad = step_cadence(r);
    let mut w = World::new(ctx, 0, 0, scfg, Link::ideal(MS), cad, false);
    super::conn::describe(ctx, &w, &format!("{} / {} until {} s", n1, n2, fault_end / SEC));
    let late: u64 = [&up, &down].iter().map(|l| l.delay + l.jitter + l.slow.iter().map(|s| s.2).max().unwrap_or(0)).max().unwrap();
    let cad = step_cadence(r);
    let max = [c.max_packet_size, w.scfg.endpoint_config.max_packet_size];
    let i = w.connect(ctx, c, cad);
    let a = w.clis[i].addr;
    let sa = w.saddr;
    w.links.insert((a, sa), up);
    w.links.insert((sa, a), down);
    w.clis[i].plan = Some(small_plan(r, max[0], 400));
    w.plans = Some((small_plan(r, 1000, 1), small_plan(r, max[1], 400)));
    let mut r2 = r.fork();
    w.run(ctx, fault_end, |w, ctx, who| w.traffic(ctx, who, &mut r2), |_| false);
    w.scadence.pause.0 = 0.0;
    w.clis[i].cadence.pause.0 = 0.0;
    let t0 = fault_end + late + 6 * SEC;
    w.run(ctx, t0, |_, _, _| (), |_| false);
    let up = w.clis[i].w.live() && w.session(i).map_or(false, |s| s.w.live());
    if up && !ctx.failed() {
        ctx.count("connections_survived", 1);
        let mut probes: Vec<(bool, u32, SendMode)> = Vec::new();
        for _ in 0..3 {
            for mode in [SendMode::Unreliable, SendMode::Persistent, SendMode::Reliable] {
                let n = r.pick(&[4usize, 200, 1440, 3000]);
                probes.push((true, w.clis[i].tx.pkts.len() as u32, mode));
                w.send_client(ctx, i, n.min(max[0]), 1, mode);
                probes.push((false, w.session(i).unwrap().tx.pkts.len() as u32, mode));
                w.send_server(ctx, a, n.min(max[1]), 1, mode);
            }
            let t = w.now + r.pick(&[0, 20 * MS, 5 * SEC]);
            w.run(ctx, t, |_, _, _| (), |_| false);
        }
        let left = |w: &World| {
            probes
                .iter()
                .filter(|(up, uid, _)| {
                    let t = if *up { &w.clis[i].tx } else { &w.session(i).unwrap().tx };
                    !t.pkts[*uid as usize].delivered
                })
                .map(|(up, _, m)| format!("{} {:?}", if *up { "client" } else { "server" }, m))
                .collect::<Vec<_>>()
        };
        w.run(ctx, t0 + 40_000 * SEC, |_, _, _| (), |w| left(w).is_empty());
        let l = left(&w);
        if !l.is_empty() && !ctx.failed() {
            ctx.fail(format!("{} s after the last fault, packets submitted since are not delivered: {}", (w.now - t0) / SEC, l.join(", ")));
        }
        ctx.count("probes_delivered", (probes.len() - l.len()) as u64);
        ctx.max("recovery_ms_endpoints", (w.now - t0) / MS);
        ctx.nontrivial = true;
    }
    w.finish();
}

pub fn c11() -> Property {
    Property {
        id: "C11",
        rule: "a case counts if frames were lost or probes delivered after the faults; cases are distinct if the delivered sequences or the recovery times differ",
        scenarios: vec![sc("stall", 1_000, 30_000, c11_stall), sc("endpoints", 300, 8_000, c11_endpoints)],
        floors: &[("probes_delivered", 10_000), ("ts_probes_delivered", 1_000), ("rates_recovered", 1_000), ("frames_lost", 30_000), ("connections_survived", 150)],
    }
}
