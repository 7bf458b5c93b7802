//! The traffic properties once more, through the public API: several Clients and a Server over a simulated network.
//! What is specific here: limits and rates as configured and negotiated, packets submitted while connecting, several
//! connections at the same server, flush() and step() of the endpoints.

use uflow::{EndpointConfig, SendMode};

use super::conn::{describe, server_cfg};
use crate::core::{Ctx, Rng};
use crate::ep::*;
use crate::hc::*;
use crate::vlog;

/// No timeouts, so that faults do not end connections.
fn patient(e: &mut EndpointConfig, r: &mut Rng) {
    e.active_timeout_ms = r.pick(&[1_000_000_000, u64::MAX]);
}

struct Shape {
    faulty: bool,
    /// Ceilings to choose from
    rates: &'static [usize],
    packets: u64,
    greedy: bool,
    /// Run until idle and require everything to be settled
    settle: bool,
}

const ANY: &[usize] = &[10_000, 100_000, 2_000_000, 2_000_000, 50_000_000, u32::MAX as usize, u32::MAX as usize + 5000, usize::MAX];
const TIGHT: &[usize] = &[1472, 1473, 2000, 5000, 20_000, 100_000, 1_000_000, 50_000_000, usize::MAX];

fn plan(r: &mut Rng, max: usize, s: &Shape) -> Plan {
    let n = r.range(5, s.packets);
    let mut p = Plan::random(r, max.min(60_000), n);
    if s.greedy {
        p.left = s.packets;
        p.burst = r.pick(&[3, 40, 200]);
        p.p = r.pick(&[0.05, 0.3, 1.0]);
        p.sizes = r.pick(&[0, 1, 3, 3]);
    }
    p
}

fn cadence(r: &mut Rng, s: &Shape, fault_end: u64) -> Cadence {
    let mut c = Cadence::random(r);
    c.interval = c.interval.max(MS);
    if s.greedy {
        if r.chance(0.6) {
            c.flushes = r.range(1, 8) as u32;
        }
        if r.chance(0.4) {
            c.pause = (0.02, r.pick(&[300 * MS, 2 * SEC, 10 * SEC]));
        }
    } else {
        c.change = Some((fault_end.max(20 * SEC), c.interval.max(10 * MS)));
    }
    c
}

fn link(r: &mut Rng, s: &Shape, fault_end: u64) -> Link {
    let mut l = if s.faulty {
        Link::faulty(r, fault_end)
    } else {
        Link::ideal(r.pick(&[0, MS / 5, MS, 5 * MS, 25 * MS, 100 * MS, 500 * MS]))
    };
    if s.faulty {
        // Let handshakes succeed as a rule
        l.loss = l.loss.min(0.3);
        l.dark.retain(|d| d.0 > 3 * SEC);
    }
    l
}

/// Returns the world once the traffic has ended, and the clients taking part.
fn session(ctx: &mut Ctx, on: u32, s: Shape) {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let mut se = endpoint(r);
    let mut tight = |e: &mut EndpointConfig, r: &mut Rng| {
        e.max_send_rate = r.pick(s.rates);
        e.max_receive_rate = r.pick(s.rates);
    };
    tight(&mut se, r);
    patient(&mut se, r);
    let n = r.pick(&[1, 1, 2, 3]);
    let mut cfgs: Vec<EndpointConfig> = (0..n)
        .map(|_| {
            let mut c = endpoint(r);
            tight(&mut c, r);
            patient(&mut c, r);
            c
        })
        .collect();
    // Everyone accepts what the others may send
    let small = r.chance(0.5);
    let cap = if small { 60_000 } else { 1_000_000 };
    se.max_packet_size = cfgs.iter().map(|c| c.max_receive_alloc).min().unwrap().min(cap);
    for c in &mut cfgs {
        c.max_packet_size = se.max_receive_alloc.min(cap);
    }
    let fault_end = if s.faulty { r.pick(&[5, 20, 40]) * SEC } else { 0 };
    let len_of = |max: usize, rate: usize| if rate < 1_000_000 { max.min(2900) } else { max };
    let slowest = s.rates.iter().copied().min().unwrap();
    let smax = len_of(se.max_packet_size, slowest.max(se.max_send_rate));
    let cad = cadence(r, &s, fault_end);
    let mut w = World::new(ctx, 0, on, server_cfg(se.clone()), link(r, &s, fault_end), cad, r.clone().chance(0.1));
    describe(ctx, &w, &format!("{} clients until {} s", n, fault_end / SEC));
    let mut ids = Vec::new();
    let saddr = w.saddr;
    for c in cfgs {
        let cad = cadence(r, &s, fault_end);
        let p = plan(r, len_of(c.max_packet_size, c.max_send_rate.min(se.max_receive_rate)), &s);
        vlog!(ctx, "client: send {} recv {} alloc {} packet {} keepalive {}", c.max_send_rate, c.max_receive_rate, c.max_receive_alloc, c.max_packet_size, c.keepalive);
        let i = w.connect(ctx, c, cad);
        let a = w.clis[i].addr;
        let (up, down) = (link(r, &s, fault_end), link(r, &s, fault_end));
        w.links.insert((a, saddr), up);
        w.links.insert((saddr, a), down);
        w.clis[i].plan = Some(p);
        ids.push(i);
    }
    let sp = plan(r, smax, &s);
    w.plans = Some((super::conn::small_plan(r, 1000, 1), sp));
    let mut r2 = r.fork();
    let end = if s.settle { 40_000 * SEC } else { r.pick(&[10, 30, 120]) * SEC };
    let settle = s.settle;
    let left = |w: &World, i: usize| {
        let c = &w.clis[i];
        if c.w.ended.is_some() {
            return 0;
        }
        let Some(s) = w.session(i) else { return 1 };
        if !s.w.active() {
            return 1;
        }
        c.plan.as_ref().map_or(0, |p| p.left) + s.plan.as_ref().map_or(0, |p| p.left)
    };
    let idle = |w: &mut World, i: usize| {
        if w.clis[i].w.ended.is_some() {
            return true;
        }
        let b = w.clis[i].c.as_ref().map_or(0, |c| c.send_buffer_size());
        let a = w.clis[i].addr;
        let sb = w.server.as_ref().and_then(|s| s.client(&a)).map_or(0, |c| c.borrow().send_buffer_size());
        b == 0 && sb == 0
    };
    // Empty packets do not show in the buffer size
    let all_in = |w: &World, i: usize| {
        let Some(s) = w.session(i) else { return true };
        w.clis[i].w.ended.is_some() || [&w.clis[i].tx, &s.tx].iter().all(|t| t.undelivered(|p| p.mode == SendMode::Reliable).is_empty())
    };
    {
        let ids = ids.clone();
        w.run(ctx, end, |w, ctx, who| w.traffic(ctx, who, &mut r2), |w| settle && w.now > fault_end && ids.iter().all(|&i| left(w, i) == 0 && all_in(w, i) && idle(w, i)));
    }
    ctx.max("virtual_seconds_endpoints", w.now / SEC);
    if settle && !ctx.failed() {
        for &i in &ids {
            if w.clis[i].w.ended.is_some() {
                continue;
            }
            if !(left(&w, i) == 0 && all_in(&w, i) && idle(&mut w, i)) {
                let a = w.clis[i].addr;
                let sb = w.server.as_ref().and_then(|s| s.client(&a)).map_or(0, |c| c.borrow().send_buffer_size());
                ctx.fail(format!(
                    "client {} and the server have not settled {} s after the last fault: {} packets to submit; buffer sizes {} and {}; Reliable packets missing {} and {}",
                    i,
                    (w.now - fault_end) / SEC,
                    left(&w, i),
                    w.clis[i].c.as_ref().map_or(0, |c| c.send_buffer_size()),
                    sb,
                    w.clis[i].tx.reliable_missing(),
                    w.session(i).map_or(0, |s| s.tx.reliable_missing())
                ));
            }
        }
        let t = w.now + super::stream::POST;
        w.run(ctx, t, |_, _, _| (), |_| false);
    }
    for &i in &ids {
        let up = w.clis[i].w.live() && w.session(i).map_or(false, |s| s.w.live());
        ctx.count("connections_up_at_the_end", up as u64);
        if !up || ctx.failed() {
            if settle && !s.faulty && !ctx.failed() {
                ctx.fail(format!("client {}: not connected on an ideal network", i));
            }
            continue;
        }
        let se = w.session(i).unwrap();
        let mut fails = Vec::new();
        for t in [&w.clis[i].tx, &se.tx] {
            let name = format!("{} (client {})", t.name, i);
            if settle {
                let must = |p: &Pkt| p.mode == SendMode::Reliable || (!s.faulty && p.mode != SendMode::TimeSensitive);
                let miss = t.undelivered(must);
                if let Some(&u) = miss.first() {
                    let p = &t.pkts[u as usize];
                    fails.push(format!("{}: packet {} ({:?}, {} bytes) was never delivered", name, u, p.mode, p.len));
                }
                if t.zero_missing() > 0 && !s.faulty {
                    fails.push(format!("{}: {} empty packets were never delivered", name, t.zero_missing()));
                }
            }
            ctx.nontrivial |= t.delivered >= 3;
            ctx.count("fragments_retransmitted", t.retx);
            ctx.count("ts_discarded", t.ts_dropped);
            ctx.count("packets_delivered_endpoints", t.delivered);
            ctx.max("packets_outstanding", t.max_out_seen as u64);
            if on & RATE != 0 {
                ctx.count("frames_judged", t.rate.frames);
                ctx.count("bytes_emitted", t.rate.bytes);
                ctx.count("senders_near_ceiling", (t.rate.worst > -200.0) as u64);
            }
            ctx.count("reliable_delivered", t.pkts.iter().filter(|p| p.delivered && p.mode == SendMode::Reliable).count() as u64);
        }
        for f in fails {
            ctx.fail(f);
        }
    }
    ctx.seen(w.now);
    w.finish();
}

pub fn c01(ctx: &mut Ctx) {
    session(ctx, ORDER, Shape { faulty: true, rates: ANY, packets: 300, greedy: false, settle: false });
}

pub fn c02(ctx: &mut Ctx) {
    session(ctx, ORDER | RELIABLE, Shape { faulty: true, rates: ANY, packets: 150, greedy: false, settle: true });
}

pub fn c04(ctx: &mut Ctx) {
    session(ctx, ORDER | FRAMES, Shape { faulty: false, rates: ANY, packets: 120, greedy: false, settle: true });
}

pub fn c05(ctx: &mut Ctx) {
    session(ctx, GLOBAL, Shape { faulty: false, rates: ANY, packets: 300, greedy: false, settle: true });
}

/// Packets submitted just before disconnect() on an ideal network: everything but TimeSensitive packets arrives, in
/// the order submitted, before the connection ends.
pub fn c05_closing(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let shape = Shape { faulty: false, rates: ANY, packets: 80, greedy: false, settle: true };
    let (mut se, mut c) = super::conn::configs(r);
    for e in [&mut se, &mut c] {
        patient(e, r);
    }
    let cad = cadence(r, &shape, 0);
    let mut w = World::new(ctx, 0, GLOBAL, server_cfg(se), link(r, &shape, 0), cad, false);
    let n = r.range(1, 3) as usize;
    describe(ctx, &w, &format!("{} clients, disconnect() after a burst", n));
    // When, who asks, packets submitted at that moment
    let mut acts = Vec::new();
    for _ in 0..n {
        let cad = cadence(r, &shape, 0);
        let i = w.connect(ctx, c.clone(), cad);
        if r.chance(0.7) {
            w.clis[i].plan = Some(plan(r, c.max_packet_size.min(2900), &shape));
        }
        let span = r.pick(&[2, 30]) * SEC;
        acts.push((r.below(span), r.chance(0.5), r.pick(&[1, 1, 2, 5, 40, 300]), false));
    }
    if r.chance(0.7) {
        let p = plan(r, w.scfg.endpoint_config.max_packet_size.min(2900), &shape);
        w.plans = Some((super::conn::small_plan(r, 1000, 1), p));
    }
    let mut r2 = r.fork();
    let over = |w: &World, i: usize| w.clis[i].w.ended.is_some() && w.session(i).map_or(true, |s| s.w.ended.is_some());
    w.run(
        ctx,
        40_000 * SEC,
        |w, ctx, who| {
            w.traffic(ctx, who, &mut r2);
            for i in 0..n {
                let (t, by_client, burst, done) = acts[i];
                let a = w.clis[i].addr;
                let both = w.clis[i].w.connected.is_some() && w.is_active(&a);
                if done || w.now < t || !both || who != (if by_client { Who::Client(i) } else { Who::Server }) {
                    continue;
                }
                acts[i].3 = true;
                let max = if by_client { w.client_max(i) } else { w.scfg.endpoint_config.max_packet_size };
                let (one, kind) = (r2.pick(&[1, 30, 700, 1448, 1449, 5000, 40_000]), r2.below(3));
                for _ in 0..burst {
                    let len = if kind == 0 { r2.pick(&[0, 3, 100, 1448, 5000]) } else { one }.min(max);
                    let mode = r2.pick(&[SendMode::Unreliable, SendMode::Unreliable, SendMode::Persistent, SendMode::Reliable, SendMode::TimeSensitive]);
                    let chan = r2.below(64) as u8;
                    if by_client {
                        w.send_client(ctx, i, len, chan, mode);
                    } else {
                        w.send_server(ctx, a, len, chan, mode);
                    }
                }
                if by_client {
                    w.clis[i].plan = None;
                    w.disconnect_client(ctx, i, Req::Flush);
                } else {
                    if let Some(s) = w.sess.get_mut(&a).and_then(|l| l.last_mut()) {
                        s.plan = None;
                    }
                    w.disconnect_server(ctx, a, Req::Flush);
                }
            }
        },
        |w| (0..n).all(|i| over(w, i)),
    );
    for i in 0..n {
        if ctx.failed() {
            break;
        }
        let (by_client, done) = (acts[i].1, acts[i].3);
        let Some(s) = w.session(i) else { continue };
        if !done {
            continue;
        }
        let (tx, peer) = if by_client { (&w.clis[i].tx, &s.w) } else { (&s.tx, &w.clis[i].w) };
        let miss = tx.undelivered(|p| p.mode != SendMode::TimeSensitive);
        if let Some(&u) = miss.first() {
            let p = &tx.pkts[u as usize];
            ctx.fail(format!(
                "{}: {} packets submitted before disconnect() were never delivered on an ideal network (packet {}, {:?}, {} bytes); the peer reports {:?}",
                tx.name,
                miss.len(),
                u,
                p.mode,
                p.len,
                peer.ended
            ));
        } else if tx.zero_missing() > 0 {
            ctx.fail(format!("{}: {} empty packets submitted before disconnect() were never delivered on an ideal network", tx.name, tx.zero_missing()));
        }
        ctx.count("closed_after_a_burst", peer.ended.is_some() as u64);
        ctx.nontrivial |= tx.delivered >= 3;
        ctx.seen(tx.delivered ^ w.now);
    }
    w.finish();
}

pub fn c06(ctx: &mut Ctx) {
    let faulty = ctx.rng.chance(0.5);
    session(ctx, LIMITS, Shape { faulty, rates: &[2_000_000, 50_000_000, usize::MAX], packets: 1500, greedy: true, settle: false });
}

pub fn c12(ctx: &mut Ctx) {
    session(ctx, MODES, Shape { faulty: true, rates: ANY, packets: 150, greedy: false, settle: false });
}

pub fn c13(ctx: &mut Ctx) {
    let faulty = ctx.rng.chance(0.5);
    session(ctx, RATE, Shape { faulty, rates: TIGHT, packets: 3000, greedy: true, settle: false });
}

pub fn c20(ctx: &mut Ctx) {
    let faulty = ctx.rng.chance(0.7);
    session(ctx, BUFFER, Shape { faulty, rates: ANY, packets: 200, greedy: false, settle: true });
}

/// A peer played by hand fills the receive memory of a real endpoint, as configured, with incomplete packets; after
/// the window has moved past them, packets filling the limit exactly must be delivered.
pub fn c06_config(ctx: &mut Ctx) {
    use crate::alloc;
    use crate::core::lib;
    use crate::wire::{padd, Dg, Fr, FRAG, PMASK};
    use std::collections::HashSet;
    use uflow::client::{self, Client};
    use uflow::server::{self, Server};
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    set_now(0);
    uflow::verif::net::reset();
    let frags = r.pick(&[1u64, 2, 3, 10, 50, 200, 700]) as usize;
    let limit = frags * FRAG - r.below(FRAG as u64) as usize;
    let mut e = endpoint(r);
    e.max_receive_alloc = limit;
    e.max_packet_size = r.pick(&[1usize, 1448, 5000, 1_000_000]);
    e.max_receive_rate = r.pick(&[2_000_000, 50_000_000, usize::MAX]);
    patient(&mut e, r);
    let as_server = r.chance(0.5);
    let me: Addr = "10.1.2.3:7777".parse().unwrap();
    let at: Addr = "127.0.0.1:9000".parse().unwrap();
    enum Side {
        S(Server),
        C(Client),
    }
    let own = r.u32();
    let mut events: Vec<Box<[u8]>> = Vec::new();
    let mut up = 0u64;
    let mut other = 0u64;
    let mut step = |side: &mut Side, now: u64, events: &mut Vec<Box<[u8]>>, up: &mut u64, other: &mut u64| -> Vec<Fr> {
        set_now(now);
        match side {
            Side::S(s) => {
                for ev in lib(|| s.step().collect::<Vec<_>>()) {
                    match ev {
                        server::Event::Connect(_) => *up += 1,
                        server::Event::Receive(_, d) => events.push(d),
                        _ => *other += 1,
                    }
                }
                lib(|| s.flush());
            }
            Side::C(c) => {
                for ev in lib(|| c.step().collect::<Vec<_>>()) {
                    match ev {
                        client::Event::Connect => *up += 1,
                        client::Event::Receive(d) => events.push(d),
                        _ => *other += 1,
                    }
                }
                lib(|| c.flush());
            }
        }
        uflow::verif::net::take_outbox().iter().filter_map(|d| accept(&d.data)).collect()
    };
    let mut now = 0;
    let (mut side, addr, peer) = if as_server {
        let c = server_cfg(e.clone());
        let mut side = Side::S(lib(|| Server::bind(at, c)).expect("bind"));
        let f = Fr::Syn { version: v_version(), nonce: own, rate: 1_000_000, packet: chunk32(limit).min(r.pick(&[1, u32::MAX])), alloc: chunk32(e.max_packet_size) };
        uflow::verif::net::inject(me, at, &sealed(&f));
        now += 10 * MS;
        let out = step(&mut side, now, &mut events, &mut up, &mut other);
        let Some(Fr::SynAck { nonce, alloc, .. }) = out.iter().find(|f| matches!(f, Fr::SynAck { .. })) else {
            ctx.fail(format!("no reply to a connection request; limit {}", limit));
            return;
        };
        if *alloc as usize != limit {
            ctx.fail(format!("server with max_receive_alloc {} announces {}", limit, alloc));
        }
        uflow::verif::net::inject(me, at, &sealed(&Fr::Ack3 { nonce_ack: *nonce }));
        now += 10 * MS;
        step(&mut side, now, &mut events, &mut up, &mut other);
        (side, at, *nonce)
    } else {
        let c = client::Config { endpoint_config: e.clone() };
        let c = lib(|| Client::connect(me, c)).expect("connect");
        let addr = lib(|| c.local_address());
        let mut side = Side::C(c);
        let out = step(&mut side, now, &mut events, &mut up, &mut other);
        let Some(Fr::Syn { nonce, alloc, .. }) = out.iter().find(|f| matches!(f, Fr::Syn { .. })) else {
            ctx.fail("no connection request");
            return;
        };
        if *alloc as usize != limit {
            ctx.fail(format!("client with max_receive_alloc {} announces {}", limit, alloc));
        }
        let f = Fr::SynAck { nonce_ack: *nonce, nonce: own, rate: 1_000_000, packet: chunk32(limit), alloc: chunk32(e.max_packet_size) };
        uflow::verif::net::inject(me, addr, &sealed(&f));
        now += 10 * MS;
        step(&mut side, now, &mut events, &mut up, &mut other);
        (side, addr, *nonce)
    };
    let _ = peer;
    if up != 1 {
        ctx.fail(format!("{} Connect events after a complete handshake", up));
    }
    let cap = (limit.div_ceil(FRAG) * FRAG) as i64;
    let slack = 128 << 10;
    let mut frame = own;
    let mut seq = 0u32;
    let pkt = |k: u32| padd(own & PMASK, k);
    let base = alloc::stats().lib_live;
    let salt = r.u64();
    let mut put = |dgs: Vec<Dg>, frame: &mut u32| {
        let b = sealed(&Fr::Data { id: *frame, nonce: false, dgs });
        *frame = frame.wrapping_add(1);
        uflow::verif::net::inject(me, addr, &b);
    };
    for round in 0..r.range(1, 4) {
        if ctx.failed() {
            break;
        }
        // Incomplete packets of three times the limit
        let mut claimed = 0;
        let mut n = 0;
        while claimed < 3 * frags && n < 900 {
            let k = r.range(2, (frags as u64 / 2).clamp(2, 40)) as usize;
            let f = super::frag::fragments(pkt(seq), 3, 0, 0, &super::frag::content(salt, n, k * FRAG));
            seq += 1;
            claimed += k;
            n += 1;
            let skip = r.below(f.len() as u64) as usize;
            for (i, d) in f.into_iter().enumerate() {
                if i != skip {
                    put(vec![d], &mut frame);
                }
            }
            if r.chance(0.2) {
                now += r.pick(&[MS, 20 * MS]);
                step(&mut side, now, &mut events, &mut up, &mut other);
            }
        }
        now += 20 * MS;
        step(&mut side, now, &mut events, &mut up, &mut other);
        let held = alloc::stats().lib_live - base;
        ctx.max("held_bytes_endpoints", held.max(0) as u64);
        if held > cap + slack {
            ctx.fail(format!("round {}: {} bytes are held for a connection, max_receive_alloc is {}", round, held, limit));
        }
        if held > cap / 2 {
            ctx.count("endpoints_half_filled", 1);
        }
        uflow::verif::net::inject(me, addr, &sealed(&Fr::Sync { frame: None, packet: Some(pkt(seq)) }));
        now += 20 * MS;
        step(&mut side, now, &mut events, &mut up, &mut other);
        if !events.is_empty() || other > 0 {
            ctx.fail(format!("round {}: {} packets delivered of which a fragment was never sent, {} other events", round, events.len(), other));
            break;
        }
        let mut want: Vec<Vec<u8>> = Vec::new();
        let mut all: Vec<Dg> = Vec::new();
        let mut left = frags;
        while left > 0 {
            let k = r.range(1, left as u64) as usize;
            left -= k;
            let data = super::frag::content(salt, 1 << 32 | seq as u64, if k == 1 { FRAG } else { k * FRAG - r.below(FRAG as u64) as usize });
            all.extend(super::frag::fragments(pkt(seq), 9, 0, 0, &data));
            want.push(data);
            seq += 1;
        }
        let mut seen = HashSet::new();
        for _ in 0..all.len() {
            let i = r.below(all.len() as u64) as usize;
            all.swap(0, i);
            seen.insert(i);
        }
        for d in all {
            put(vec![d], &mut frame);
        }
        now += 20 * MS;
        step(&mut side, now, &mut events, &mut up, &mut other);
        if events.len() != want.len() || events.iter().zip(&want).any(|(g, w)| g[..] != w[..]) {
            ctx.fail(format!("round {}: packets filling max_receive_alloc {} exactly were not all delivered ({} of {})", round, limit, events.len(), want.len()));
            break;
        }
        events.clear();
        ctx.count("limit_filled_exactly", 1);
        ctx.count("frames_judged", 1);
    }
    ctx.desc = format!("{} with max_receive_alloc {} ({} fragments), {} packets", if as_server { "server" } else { "client" }, limit, frags, seq);
    ctx.nontrivial = seq > 0;
    ctx.seen(salt);
    match side {
        Side::S(s) => lib(|| drop(s)),
        Side::C(c) => lib(|| drop(c)),
    }
    drop(uflow::verif::net::take_outbox());
    uflow::verif::net::reset();
}
