//! C19: the allocator contract, and no memory left behind. The checking allocator judges every block; the scenarios
//! make sure that connections are torn down at every moment of their life.

use uflow::SendMode;

use super::conn::{configs, describe, mischief, lifecycle, raw_addr, server_cfg, small_plan, Forger};
use super::frag::{c19_scenarios, leak_check};
use super::sc;
use crate::alloc;
use crate::core::{Ctx, Property};
use crate::ep::*;
use crate::hc::*;

/// Clients and a server, torn down in the middle of whatever they are doing.
fn c19_endpoints(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let v6 = r.chance(0.1);
    let (s, mut c) = configs(r);
    let mut scfg = server_cfg(s);
    scfg.enable_handshake_errors = r.chance(0.5);
    scfg.endpoint_config.active_timeout_ms = r.pick(&[300, 3000, 20_000]);
    c.active_timeout_ms = r.pick(&[300, 3000, 20_000]);
    if r.chance(0.3) {
        scfg.max_active_connections = r.range(1, 4) as usize;
        scfg.max_total_connections = r.range(1, 6) as usize;
    }
    let end = match r.below(3) {
        0 => r.below(3 * SEC),
        1 => r.below(30 * SEC),
        _ => r.below(90 * SEC),
    };
    let link = if r.chance(0.6) { Link::faulty(r, end) } else { Link::ideal(r.pick(&[0, 20 * MS])) };
    let cad = Cadence::random(r);
    let mut w = World::new(ctx, 0, 0, scfg, link, cad, v6);
    w.plain = r.chance(0.3);
    w.keep_old = true;
    describe(ctx, &w, "teardown");
    let big = r.pick(&[500, 5000, 60_000]);
    w.plans = Some((small_plan(r, 1000, 1), small_plan(r, big, 300)));
    for _ in 0..r.range(1, 4) {
        let cad = Cadence::random(r);
        let i = w.connect(ctx, c.clone(), cad);
        w.clis[i].plan = Some(small_plan(r, c.max_packet_size.min(big), 300));
    }
    let mut peers: Vec<Forger> = (0..r.below(3)).map(|k| Forger::new(raw_addr(k, v6))).collect();
    for p in &peers {
        w.raws.insert(p.addr);
    }
    let act = r.pick(&[0.0, 0.005, 0.05]);
    let hostile = r.pick(&[0.0, 0.02]);
    let mut r2 = r.fork();
    w.run(
        ctx,
        end,
        |w, ctx, who| {
            w.traffic(ctx, who, &mut r2);
            if r2.chance(act) {
                lifecycle(w, ctx, who, &mut r2, &c);
            }
            if r2.chance(hostile) {
                mischief(w, ctx, &mut r2);
            }
            if who == Who::Server {
                for p in &mut peers {
                    p.act(w, ctx, &mut r2);
                }
            }
        },
        |_| false,
    );
    let o = |k| ctx.obs.get(k).copied().unwrap_or(0);
    ctx.nontrivial = o("client_connects") + o("server_connects") > 0;
    w.finish();
    leak_check(ctx, "endpoints");
}

/// A server outlives its connections: what they used must be returned when they are gone.
fn c19_churn(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let (s, mut c) = configs(r);
    let mut scfg = server_cfg(s);
    scfg.enable_handshake_errors = r.chance(0.5);
    scfg.endpoint_config.active_timeout_ms = r.pick(&[1000, 8000]);
    c.active_timeout_ms = 8000;
    let link = if r.chance(0.5) { Link::faulty(r, 15 * SEC) } else { Link::ideal(r.pick(&[0, 20 * MS])) };
    let cad = Cadence::fixed(15 * MS);
    let mut w = World::new(ctx, 0, 0, scfg, link, cad, false);
    describe(ctx, &w, "churn");
    w.plans = Some((small_plan(r, 1000, 1), small_plan(r, 5000, 200)));
    w.run(ctx, 100 * MS, |_, _, _| (), |_| false);
    let base = alloc::stats().lib_live;
    let n = r.range(4, 12) as usize;
    for _ in 0..n {
        let i = w.connect(ctx, c.clone(), Cadence::fixed(20 * MS));
        w.clis[i].plan = Some(small_plan(r, c.max_packet_size.min(5000), 200));
    }
    let how: Vec<u64> = (0..n).map(|_| r.below(6)).collect();
    let when: Vec<u64> = (0..n).map(|_| r.below(12 * SEC)).collect();
    let mut done = vec![false; n];
    let mut peak = 0;
    let mut r2 = r.fork();
    w.run(
        ctx,
        20 * SEC,
        |w, ctx, who| {
            w.traffic(ctx, who, &mut r2);
            peak = peak.max(alloc::stats().lib_live);
            if who != Who::Server {
                return;
            }
            for i in 0..n {
                if done[i] || w.now < when[i] {
                    continue;
                }
                done[i] = true;
                let a = w.clis[i].addr;
                match how[i] {
                    0 => w.disconnect_client(ctx, i, Req::Flush),
                    1 => w.disconnect_client(ctx, i, Req::Now),
                    2 => w.drop_client(i),
                    3 => w.disconnect_server(ctx, a, Req::Flush),
                    4 => w.disconnect_server(ctx, a, Req::Now),
                    _ => w.drop_session(ctx, a),
                }
            }
        },
        |_| false,
    );
    for i in 0..n {
        w.drop_client(i);
    }
    // Every timer of the library is over after this time
    let t = w.now + 120 * SEC;
    w.run(ctx, t, |_, _, _| (), |_| false);
    if !ctx.failed() {
        let tracked = (0..n).filter(|&i| w.is_tracked(&w.clis[i].addr)).count();
        if tracked == 0 {
            let left = alloc::stats().lib_live - base;
            // Tables of the server may have grown; a connection takes more than that
            let slack = 4096 + 256 * n as i64;
            ctx.count("servers_emptied", 1);
            ctx.max("bytes_kept_by_an_emptied_server", left.max(0) as u64);
            ctx.max("bytes_used_by_connections", (peak - base).max(0) as u64);
            if left > slack {
                ctx.fail(format!("{} bytes are still held by the server after its {} connections have ended (peak {})", left, n, peak - base));
            }
        }
    }
    ctx.nontrivial = ctx.obs.get("server_connects").copied().unwrap_or(0) > 0;
    w.finish();
    leak_check(ctx, "server");
}

/// A large packet of every mode dropped at each stage.
fn c19_stages(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let mut setup = Setup::plain();
    setup.ceil = [u32::MAX; 2];
    let len = 1 + r.below(40_000) as usize;
    let mode = r.pick(&MODES4);
    let stop = r.below(400);
    let loss = r.pick(&[0.0, 0.2, 1.0]);
    let links = (0..2)
        .map(|_| {
            let mut l = Link::ideal(5 * MS);
            l.loss = loss;
            l
        })
        .collect();
    let mut sim = Sim::new(ctx, &setup, 0, links, vec![Cadence::fixed(10 * MS); 2]);
    for k in 0..5 {
        let m = if k == 2 { SendMode::Reliable } else { mode };
        sim.submit(ctx, 0, len + k, (k % 3) as u8, m);
    }
    sim.run(ctx, stop * MS, |_, _, _| (), |_| false);
    ctx.desc = format!("{} bytes {:?} dropped after {} ms", len, mode, stop);
    ctx.nontrivial = true;
    ctx.seen(len as u64 ^ stop << 32);
    sim.finish();
    leak_check(ctx, "stages");
}

pub fn c19() -> Property {
    let mut scenarios = c19_scenarios();
    scenarios.push(sc("stages", 2_000, 60_000, c19_stages));
    scenarios.push(sc("endpoints", 1_200, 40_000, c19_endpoints));
    scenarios.push(sc("churn", 200, 6_000, c19_churn));
    Property {
        id: "C19",
        rule: "a case counts if memory was obtained and everything was torn down again (endpoints, churn: at least one connection was established); cases are distinct if the traffic or the connection events differ",
        scenarios,
        floors: &[
            ("teardowns", 5_000),
            ("blocks_released", 1_000_000),
            ("blocks_of_odd_size_released", 10_000),
            ("servers_emptied", 100),
            ("client_connects", 500),
            ("drop_calls", 20),
        ],
    }
}
