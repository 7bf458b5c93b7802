//! Properties of connection management, decided on real Client and Server objects: C07, C08, C09, C10, C17, C18.

use uflow::verif as v;
use uflow::{server, EndpointConfig, SendMode};

use super::sc;
use crate::core::{Ctx, Property, Rng};
use crate::ep::*;
use crate::hc::{set_now, Cadence, Link, Plan, LIMITS, MS, RATE, RELIABLE, ORDER, SEC};
use crate::wire::Fr;

pub fn server_cfg(ep: EndpointConfig) -> server::Config {
    server::Config { max_total_connections: 4096, max_active_connections: 32, enable_handshake_errors: false, endpoint_config: ep }
}

pub fn raw_addr(k: u64, v6: bool) -> Addr {
    let port = 20_000 + (k % 20_000) as u16;
    if v6 {
        Addr::new("::2".parse().unwrap(), port)
    } else {
        Addr::new(std::net::Ipv4Addr::new(10, 0, (k / 20_000) as u8, 1).into(), port)
    }
}

pub fn syn_for(r: &mut Rng, scfg: &server::Config, nonce: u32) -> Fr {
    let e = &scfg.endpoint_config;
    Fr::Syn {
        version: v_version(),
        nonce,
        rate: r.pick(&[10_000, 1_000_000, u32::MAX]),
        packet: chunk32(e.max_receive_alloc).min(r.pick(&[1, 1000, u32::MAX])),
        alloc: chunk32(e.max_packet_size).max(r.pick(&[1, 1_000_000, u32::MAX])),
    }
}

pub fn describe(ctx: &mut Ctx, w: &World, what: &str) {
    let e = &w.scfg.endpoint_config;
    ctx.desc = format!(
        "{}; server total {} active {} errors {} timeout {} keepalive {}/{} send {} recv {} alloc {} packet {}; link {}ms+{}ms loss {} dup {} corrupt {} dark {:?}; server tick {}us",
        what,
        w.scfg.max_total_connections,
        w.scfg.max_active_connections,
        w.scfg.enable_handshake_errors,
        e.active_timeout_ms,
        e.keepalive,
        e.keepalive_interval_ms,
        e.max_send_rate,
        e.max_receive_rate,
        e.max_receive_alloc,
        e.max_packet_size,
        w.link.delay / MS,
        w.link.jitter / MS,
        w.link.loss,
        w.link.dup,
        w.link.corrupt,
        w.link.dark.iter().map(|d| (d.0 / MS, d.1 / MS)).collect::<Vec<_>>(),
        w.scadence.interval / 1000
    );
    vlog!(ctx, "{}", ctx.desc);
}

fn cadence(r: &mut Rng) -> Cadence {
    let mut c = Cadence::random(r);
    c.interval = c.interval.max(5 * MS);
    c
}

pub fn small_plan(r: &mut Rng, max: usize, n: u64) -> Plan {
    let mut p = Plan::random(r, max.min(20_000), n);
    p.p = r.pick(&[0.02, 0.1, 0.5]);
    p
}

/// Endpoint configurations of a server and of clients which may connect to it.
pub fn configs(r: &mut Rng) -> (EndpointConfig, EndpointConfig) {
    let (mut a, mut b) = (endpoint(r), endpoint(r));
    agree(&mut a, &mut b, r);
    (a, b)
}

// ---------------------------------------------------------------------------------------------------------------
// C07

/// Clients and hand-made peers come and go over a bad network, on which old and forged handshake frames circulate.
fn c07_faulty(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let v6 = r.chance(0.1);
    let (mut s, mut c) = configs(r);
    if r.chance(0.15) {
        // Far larger than what is ever sent
        for e in [&mut s, &mut c] {
            e.max_receive_alloc = r.pick(&[3_000_000, 20_000_000, uflow::MAX_PACKET_SIZE, u32::MAX as usize, usize::MAX]);
            e.max_packet_size = r.pick(&[1, 2_500_000, 19_999_999, uflow::MAX_PACKET_SIZE]);
        }
    }
    let mut scfg = server_cfg(s);
    scfg.enable_handshake_errors = r.chance(0.5);
    scfg.endpoint_config.active_timeout_ms = r.pick(&[1000, 5000, 20_000]);
    c.active_timeout_ms = r.pick(&[5000, 20_000, 60_000]);
    let end = r.pick(&[20, 60, 120]) * SEC;
    let mut link = Link::faulty(r, end);
    if r.chance(0.3) {
        link.jitter = r.pick(&[2, 10, 30]) * SEC;
        link.dup = r.pick(&[0.1, 0.5]);
        link.fifo = false;
    }
    let cad = cadence(r);
    if r.chance(0.2) {
        // Nonces at the edges of the number spaces, all different
        let mut l = [0, 1, u32::MAX as u64, 0xFFFFF, 0x100000];
        let k = r.below(5) as usize;
        l.rotate_left(k);
        for n in &l[..4] {
            v::rand::force(*n);
        }
    }
    let mut w = World::new(ctx, HAND, 0, scfg, link, cad, v6);
    w.keep_old = true;
    describe(ctx, &w, "handshakes under faults");
    let n = r.range(1, 4);
    for _ in 0..n {
        let mut cfg = c.clone();
        if r.chance(0.2) {
            // Incompatible
            match r.below(2) {
                0 => cfg.max_packet_size = w.scfg.endpoint_config.max_receive_alloc.saturating_add(1),
                _ => cfg.max_receive_alloc = (w.scfg.endpoint_config.max_packet_size - 1).max(1),
            }
            cfg.max_packet_size = cfg.max_packet_size.min(uflow::MAX_PACKET_SIZE);
        }
        let cad = cadence(r);
        let max = cfg.max_packet_size;
        let i = w.connect(ctx, cfg, cad);
        w.clis[i].plan = Some(small_plan(r, max, 50));
    }
    w.plans = Some((small_plan(r, 1000, 50), small_plan(r, w.scfg.endpoint_config.max_packet_size, 50)));
    let mut peers: Vec<Forger> = (0..r.below(4)).map(|k| Forger::new(raw_addr(k, v6))).collect();
    for p in &peers {
        w.raws.insert(p.addr);
    }
    let act = r.pick(&[0.002, 0.01, 0.05]);
    let hostile = r.pick(&[0.0, 0.02, 0.2]);
    let mut r2 = r.fork();
    w.run(
        ctx,
        end,
        |w, ctx, who| {
            w.traffic(ctx, who, &mut r2);
            if r2.chance(act) {
                lifecycle(w, ctx, who, &mut r2, &c);
            }
            if r2.chance(hostile) {
                mischief(w, ctx, &mut r2);
            }
            if who == Who::Server {
                for p in &mut peers {
                    p.act(w, ctx, &mut r2);
                }
            }
        },
        |_| false,
    );
    ctx.nontrivial = ctx.obs.get("client_connects").copied().unwrap_or(0) + ctx.obs.get("server_connects").copied().unwrap_or(0) > 0;
    w.finish();
}

/// Something an application may do.
pub fn lifecycle(w: &mut World, ctx: &mut Ctx, who: Who, r: &mut Rng, c: &EndpointConfig) {
    match who {
        Who::Client(i) => match r.below(4) {
            0 => w.disconnect_client(ctx, i, Req::Flush),
            1 => w.disconnect_client(ctx, i, Req::Now),
            2 => w.drop_client(i),
            _ => {
                if w.clis.len() < 12 {
                    let cad = cadence(r);
                    w.connect(ctx, c.clone(), cad);
                }
            }
        },
        Who::Server => {
            let addrs = w.known_addrs();
            if addrs.is_empty() {
                return;
            }
            let a = r.pick(&addrs);
            match r.below(3) {
                0 => w.disconnect_server(ctx, a, Req::Flush),
                1 => w.disconnect_server(ctx, a, Req::Now),
                _ => w.drop_session(ctx, a),
            }
        }
    }
}

/// Forged, stale and duplicated handshake frames. Nonces are guessed, never known, unless the frame is a copy.
pub fn mischief(w: &mut World, ctx: &mut Ctx, r: &mut Rng) {
    let saddr = w.saddr;
    let cli = if w.clis.is_empty() { None } else { Some(r.below(w.clis.len() as u64) as usize) };
    let addr = match cli {
        Some(i) => w.clis[i].addr,
        None => return,
    };
    let handshake: Vec<usize> = (0..w.old.len()).filter(|&k| w.old[k].2[0] <= 3).collect();
    let up = w.clis.iter().filter(|c| c.w.live()).map(|c| (c.addr, c.nonce)).collect::<Vec<_>>();
    match r.below(10) {
        8 if !up.is_empty() => {
            // A refusal of an earlier transmission of the request, arriving late
            let (addr, n) = r.pick(&up);
            let f = Fr::Err { nonce_ack: n, code: r.below(3) as u8 };
            ctx.count("late_refusals", 1);
            w.forge(ctx, saddr, addr, &sealed(&f));
        }
        9 if !up.is_empty() => {
            // An answer to an earlier transmission of the request
            let (addr, n) = r.pick(&up);
            let f = Fr::SynAck { nonce_ack: n, nonce: guess(w, r), rate: r.u32(), packet: r.u32(), alloc: r.u32() };
            ctx.count("late_answers", 1);
            w.forge(ctx, saddr, addr, &sealed(&f));
        }
        0..=3 if !handshake.is_empty() => {
            // A copy of an old frame, possibly very old
            let k = if r.chance(0.7) { r.pick(&handshake) } else { handshake[handshake.len() - 1] };
            let (s, d, b) = w.old[k].clone();
            ctx.count("stale_handshake_frames", 1);
            w.forge(ctx, s, d, &b);
        }
        4 => {
            let n = r.u32();
            let f = syn_for(r, &w.scfg, n);
            w.forge(ctx, addr, saddr, &sealed(&f));
        }
        5 => {
            let f = Fr::Ack3 { nonce_ack: guess(w, r) };
            w.forge(ctx, addr, saddr, &sealed(&f));
        }
        6 => {
            let f = Fr::SynAck { nonce_ack: guess(w, r), nonce: r.u32(), rate: r.u32(), packet: r.u32(), alloc: r.u32() };
            w.forge(ctx, saddr, addr, &sealed(&f));
        }
        _ => {
            let f = Fr::Err { nonce_ack: guess(w, r), code: r.below(3) as u8 };
            w.forge(ctx, saddr, addr, &sealed(&f));
        }
    }
}

/// A nonce which no honest party would currently expect: off by little, zero, or of another connection.
fn guess(w: &World, r: &mut Rng) -> u32 {
    let known: Vec<u32> = w.clis.iter().flat_map(|c| [Some(c.nonce), c.accepted]).flatten().collect();
    let base = if known.is_empty() || r.chance(0.2) { r.u32() } else { r.pick(&known) };
    let g = match r.below(5) {
        0 => base.wrapping_add(1),
        1 => base ^ 1 << r.below(32),
        2 => base & 0xFFFFF,
        3 => 0,
        _ => r.u32(),
    };
    let expected = w.clis.iter().any(|c| c.nonce == g || c.accepted == Some(g)) || w.sess.values().flatten().any(|s| s.s == g || s.n == g);
    if expected {
        // Not for the forger to know
        r.u32()
    } else {
        g
    }
}

/// A peer made by hand: takes some of the steps of a handshake, in any order, with right and wrong nonces.
pub struct Forger {
    pub addr: Addr,
    nonce: u32,
    got: Vec<u32>,
    pub busy: f64,
}

impl Forger {
    pub fn new(addr: Addr) -> Self {
        Forger { addr, nonce: 0, got: Vec::new(), busy: 0.1 }
    }
    fn read(&mut self, w: &mut World) {
        for (_, d) in w.raw.remove(&self.addr).unwrap_or_default() {
            if let Some(Fr::SynAck { nonce, .. }) = accept(&d) {
                self.got.push(nonce);
            }
        }
    }
    pub fn act(&mut self, w: &mut World, ctx: &mut Ctx, r: &mut Rng) {
        self.read(w);
        if !r.chance(self.busy) {
            return;
        }
        let saddr = w.saddr;
        let a = self.addr;
        match r.below(10) {
            0 | 1 => {
                if r.chance(0.7) {
                    self.nonce = r.u32();
                }
                let n = self.nonce;
                let f = syn_for(r, &w.scfg, n);
                w.forge(ctx, a, saddr, &sealed(&f));
            }
            2 => {
                // Wrong version
                let n = r.u32();
                let mut f = syn_for(r, &w.scfg, n);
                if let Fr::Syn { version, .. } = &mut f {
                    *version = r.pick(&[0, v_version() - 1, v_version() + 1, 255]);
                }
                w.forge(ctx, a, saddr, &sealed(&f));
            }
            3 => {
                // Incompatible limits
                let n = r.u32();
                let mut f = syn_for(r, &w.scfg, n);
                let e = w.scfg.endpoint_config.clone();
                if let Fr::Syn { packet, alloc, .. } = &mut f {
                    if r.chance(0.5) {
                        *packet = chunk32(e.max_receive_alloc).saturating_add(1 + r.u32() / 2);
                    } else {
                        *alloc = chunk32(e.max_packet_size) - 1;
                    }
                }
                w.forge(ctx, a, saddr, &sealed(&f));
            }
            4 => {
                let n = match r.below(4) {
                    0 => self.nonce,
                    1 if !self.got.is_empty() => self.got[self.got.len() - 1].wrapping_add(r.pick(&[1, u32::MAX, 1 << 20, 1 << 31])),
                    2 => 0,
                    _ => r.u32(),
                };
                w.forge(ctx, a, saddr, &sealed(&Fr::Ack3 { nonce_ack: n }));
            }
            5 | 6 if !self.got.is_empty() => {
                // The right nonce, or an outdated one
                let n = if r.chance(0.6) { self.got[self.got.len() - 1] } else { r.pick(&self.got) };
                w.forge(ctx, a, saddr, &sealed(&Fr::Ack3 { nonce_ack: n }));
            }
            7 => w.forge(ctx, a, saddr, &sealed(&Fr::Disc)),
            8 => w.forge(ctx, a, saddr, &sealed(&Fr::DiscAck)),
            _ => {
                let f = Fr::Sync { frame: None, packet: None };
                w.forge(ctx, a, saddr, &sealed(&f));
            }
        }
    }
}

/// A network without faults: exactly one Connect on each side, and the limits exchanged are those honoured.
fn c07_honest(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let (s, c) = configs(r);
    let scfg = server_cfg(s);
    let v6 = r.chance(0.2);
    let link = Link::ideal(r.pick(&[0, MS, 20 * MS, 200 * MS, 1500 * MS]));
    let cad = cadence(r);
    let mut w = World::new(ctx, HAND, LIMITS | RATE | ORDER, scfg, link, cad, v6);
    describe(ctx, &w, "honest handshakes");
    let n = r.range(1, 4) as usize;
    let mut plans = Vec::new();
    for _ in 0..n {
        let cad = cadence(r);
        let i = w.connect(ctx, c.clone(), cad);
        let mut p = small_plan(r, c.max_packet_size, 200);
        p.burst = 20;
        plans.push((i, p));
    }
    for (i, p) in plans {
        w.clis[i].plan = Some(p);
    }
    let mut p = small_plan(r, 100_000, 200);
    p.burst = 20;
    w.plans = Some((small_plan(r, 1000, 1), p));
    let mut r2 = r.fork();
    w.run(ctx, 40 * SEC, |w, ctx, who| w.traffic(ctx, who, &mut r2), |_| false);
    if !ctx.failed() {
        for i in 0..n {
            let a = w.clis[i].addr;
            let l = w.sess.get(&a).map_or(0, |l| l.iter().filter(|s| s.w.connected.is_some()).count());
            if w.clis[i].w.connected.is_none() || l != 1 {
                ctx.fail(format!("client {} connected: {:?}, server sessions connected: {}", i, w.clis[i].w.connected, l));
            }
            ctx.count("pairs_connected_once", 1);
        }
    }
    ctx.nontrivial = ctx.obs.get("packets_delivered").copied().unwrap_or(0) > 0;
    w.finish();
}

/// The nonces chosen by either side: nothing but chance decides them, in all of their 32 bits.
fn c07_nonces(ctx: &mut Ctx) {
    use crate::core::lib;
    use uflow::{client, client::Client, server::Server};
    const N: u64 = 64;
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let at: Addr = "127.0.0.1:9000".parse().unwrap();
    let peers: Vec<Addr> = (0..3).map(|i| raw_addr(i + r.below(100) * 4, false)).collect();
    let cfg = EndpointConfig::default();
    let own = r.pick(&[0, 1, u32::MAX, 0x12345678]);
    let start = r.below(1 << 40);
    let mut syn = syn_for(r, &server_cfg(cfg.clone()), own);
    if let Fr::Syn { packet, alloc, .. } = &mut syn {
        *packet = 1000;
        *alloc = u32::MAX;
    }
    let seed = r.u64();
    ctx.desc = format!("nonces of {} handshakes, requests with nonce {:08x}", N, own);
    // (who, bits seen set, bits seen clear, all)
    let mut seen: Vec<(String, u32, u32, Vec<u32>)> = Vec::new();
    let mut note = |ctx: &mut Ctx, who: String, n: u32| {
        vlog!(ctx, "{}: {:08x}", who, n);
        ctx.count("nonces", 1);
        match seen.iter_mut().find(|s| s.0 == who) {
            Some(s) => {
                s.1 |= n;
                s.2 |= !n;
                s.3.push(n);
            }
            None => seen.push((who, n, !n, vec![n])),
        }
    };
    for i in 0..N {
        v::net::reset();
        v::rand::seed(seed.wrapping_add(i.wrapping_mul(0x9E37_79B9_7F4A_7C15)));
        let mut now = start;
        set_now(now);
        let mut c = lib(|| Client::connect(at, client::Config { endpoint_config: cfg.clone() })).expect("connect");
        lib(|| {
            let _ = c.step().count();
            c.flush();
        });
        for d in v::net::take_outbox() {
            if let Some(Fr::Syn { nonce, .. }) = accept(&d.data) {
                note(ctx, "client".into(), nonce);
            }
        }
        lib(move || drop(c));
        v::net::reset();
        let mut s = lib(|| Server::bind(at, server_cfg(cfg.clone()))).expect("bind");
        // The second round comes after the first handshakes have expired
        for round in 0..2 {
            for p in &peers {
                v::net::inject(*p, at, &sealed(&syn));
            }
            now += 10 * MS;
            set_now(now);
            lib(|| {
                let _ = s.step().count();
                s.flush();
            });
            for d in v::net::take_outbox() {
                let Some(k) = peers.iter().position(|p| *p == d.dst) else { continue };
                if let Some(Fr::SynAck { nonce, .. }) = accept(&d.data) {
                    note(ctx, format!("server, request {} of peer {}", round + 1, k), nonce);
                }
            }
            for _ in 0..15 {
                now += 2 * SEC;
                set_now(now);
                lib(|| {
                    let _ = s.step().count();
                });
            }
            v::net::take_outbox();
        }
        lib(move || drop(s));
    }
    v::net::reset();
    for (who, one, zero, all) in &seen {
        if all.len() as u64 != N {
            ctx.fail(format!("{}: {} nonces in {} handshakes", who, all.len(), N));
        } else if one & zero != u32::MAX {
            ctx.fail(format!("{}: {} nonces never differ in the bits {:08x}", who, N, !(one & zero)));
        }
    }
    // Each nonce is chosen on its own
    for (k, a) in seen.iter().enumerate() {
        for b in &seen[..k] {
            let same = a.3.iter().zip(&b.3).filter(|(x, y)| x.wrapping_sub(**y) == a.3[0].wrapping_sub(b.3[0])).count();
            let xors = a.3.iter().zip(&b.3).filter(|(x, y)| *x ^ *y == a.3[0] ^ b.3[0]).count();
            if same == a.3.len() || xors == a.3.len() {
                ctx.fail(format!("the nonce of {} follows from that of {}", a.0, b.0));
            }
        }
    }
    ctx.nontrivial = seen.len() == 7;
    ctx.seen(own as u64);
    ctx.seen(seed);
}

pub fn c07() -> Property {
    Property {
        id: "C07",
        rule: "a case counts if at least one endpoint reported Connect; cases are distinct if the sequences of connection events differ",
        scenarios: vec![sc("faulty", 2_000, 60_000, c07_faulty), sc("honest", 400, 8_000, c07_honest), sc("nonces", 60, 1_000, c07_nonces)],
        floors: &[
            ("client_connects", 500),
            ("server_connects", 500),
            ("frames_forged", 5_000),
            ("stale_handshake_frames", 1_000),
            ("late_refusals", 100),
            ("late_answers", 100),
            ("refusals_sent", 200),
            ("refusals_reported", 20),
            ("starting_ids_checked", 200),
            ("pairs_connected_once", 100),
            ("nonces", 10_000),
        ],
    }
}

// ---------------------------------------------------------------------------------------------------------------
// C08

/// Applications which call everything at any time, over a network which does anything.
fn c08_storm(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let v6 = r.chance(0.1);
    let (s, mut c) = configs(r);
    let mut scfg = server_cfg(s);
    scfg.enable_handshake_errors = r.chance(0.5);
    scfg.endpoint_config.active_timeout_ms = r.pick(&[0, 300, 3000, 20_000]);
    c.active_timeout_ms = r.pick(&[0, 300, 3000, 20_000]);
    if r.chance(0.3) {
        scfg.max_active_connections = r.range(1, 4) as usize;
        scfg.max_total_connections = r.range(1, 6) as usize;
    }
    let end = r.pick(&[10, 30, 90]) * SEC;
    let link = if r.chance(0.8) { Link::faulty(r, end) } else { Link::ideal(r.pick(&[0, 20 * MS])) };
    let cad = Cadence::random(r);
    let mut w = World::new(ctx, EVENTS, 0, scfg, link, cad, v6);
    w.keep_old = true;
    describe(ctx, &w, "application storm");
    w.plans = Some((small_plan(r, 1000, 1), small_plan(r, 5000, 300)));
    let n = r.range(1, 5);
    for _ in 0..n {
        let cad = Cadence::random(r);
        let i = w.connect(ctx, c.clone(), cad);
        w.clis[i].plan = Some(small_plan(r, c.max_packet_size, 300));
    }
    let mut peers: Vec<Forger> = (0..r.below(4)).map(|k| Forger::new(raw_addr(k, v6))).collect();
    for p in &peers {
        w.raws.insert(p.addr);
    }
    let act = r.pick(&[0.005, 0.02, 0.1]);
    let hostile = r.pick(&[0.0, 0.02, 0.1]);
    let stale = r.pick(&[0.0, 0.05]);
    let mut r2 = r.fork();
    w.run(
        ctx,
        end,
        |w, ctx, who| {
            w.traffic(ctx, who, &mut r2);
            if r2.chance(act) {
                for _ in 0..r2.range(1, 3) {
                    lifecycle(w, ctx, who, &mut r2, &c);
                }
            }
            if r2.chance(hostile) {
                mischief(w, ctx, &mut r2);
            }
            if r2.chance(stale) && !w.old.is_empty() {
                // Any handshake or disconnect frame once more
                let k = r2.below(w.old.len() as u64) as usize;
                let (s, d, b) = w.old[k].clone();
                w.forge(ctx, s, d, &b);
            }
            if let (Who::Client(i), true) = (who, r2.chance(0.002)) {
                // The application stops calling step() for a while
                w.clis[i].cadence.pause = (0.1, r2.pick(&[500 * MS, 5 * SEC, 30 * SEC]));
            }
            if who == Who::Server {
                for p in &mut peers {
                    p.act(w, ctx, &mut r2);
                }
            }
        },
        |_| false,
    );
    let o = |k| ctx.obs.get(k).copied().unwrap_or(0);
    ctx.nontrivial = o("disconnects") + o("errors") > 0;
    w.finish();
}

pub fn c08() -> Property {
    Property {
        id: "C08",
        rule: "a case counts if at least one terminal event was reported; cases are distinct if the sequences of connection events differ",
        scenarios: vec![sc("storm", 2_500, 80_000, c08_storm)],
        floors: &[("client_connects", 1_000), ("server_connects", 1_000), ("disconnects", 1_000), ("errors", 1_000), ("drop_calls", 200), ("packets_delivered", 10_000)],
    }
}

// ---------------------------------------------------------------------------------------------------------------
// C09

fn c09_close(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let (mut s, mut c) = configs(r);
    for e in [&mut s, &mut c] {
        e.active_timeout_ms = r.pick(&[2500, 10_000, 20_000]);
        e.keepalive = r.chance(0.8);
        e.keepalive_interval_ms = 2000;
    }
    let scfg = server_cfg(s);
    let fault_end = r.pick(&[5, 15, 40, 400]) * SEC;
    let mut link = if r.chance(0.85) { Link::faulty(r, fault_end) } else { Link::ideal(r.pick(&[0, 20 * MS, 200 * MS])) };
    if r.chance(0.3) {
        // The peer becomes unreachable at some time
        let t = r.below(20 * SEC);
        link.dark.push((t, t + r.pick(&[3, 20, 1000]) * SEC));
    }
    let cad = cadence(r);
    let mut w = World::new(ctx, CLOSE, RELIABLE | ORDER, scfg, link, cad, false);
    describe(ctx, &w, "disconnect");
    let n = r.range(1, 3);
    for _ in 0..n {
        let cad = cadence(r);
        let i = w.connect(ctx, c.clone(), cad);
        let mut p = small_plan(r, c.max_packet_size, 150);
        p.weights = r.pick(&[[0, 0, 0, 1], [1, 1, 1, 3]]);
        w.clis[i].plan = Some(p);
    }
    let mut p = small_plan(r, 20_000, 150);
    p.weights = r.pick(&[[0, 0, 0, 1], [1, 1, 1, 3]]);
    w.plans = Some((small_plan(r, 1000, 1), p));
    // When and how each connection is closed
    let mut acts: Vec<(u64, Who, Req)> = Vec::new();
    for i in 0..n as usize {
        let t = r.range(0, 15) * SEC + r.below(SEC);
        let how = |r: &mut Rng| if r.chance(0.7) { Req::Flush } else { Req::Now };
        let who = if r.chance(0.5) { Who::Client(i) } else { Who::Server };
        acts.push((t, who, how(r)));
        if r.chance(0.25) {
            // The other one as well, at about the same time
            let other = if who == Who::Server { Who::Client(i) } else { Who::Server };
            acts.push((t + r.below(300 * MS), other, how(r)));
        }
        if r.chance(0.2) {
            acts.push((t + r.below(3 * SEC), who, how(r)));
        }
    }
    let mut done = vec![false; acts.len()];
    let mut r2 = r.fork();
    let slow = fault_end + 100 * SEC;
    w.run(
        ctx,
        3000 * SEC,
        |w, ctx, who| {
            w.traffic(ctx, who, &mut r2);
            for (k, (t, who2, how)) in acts.iter().enumerate() {
                if done[k] || w.now < *t || *who2 != who {
                    continue;
                }
                match who {
                    Who::Client(i) => {
                        if w.clis[i].w.connected.is_some() {
                            done[k] = true;
                            let max = w.client_max(i);
                            for (len, chan, mode) in last_words(&mut r2, max) {
                                w.send_client(ctx, i, len, chan, mode);
                            }
                            w.disconnect_client(ctx, i, *how);
                        } else if w.now > *t + 40 * SEC {
                            done[k] = true;
                        }
                    }
                    Who::Server => {
                        let a: Vec<Addr> = w.known_addrs().into_iter().filter(|a| w.is_active(a)).collect();
                        if !a.is_empty() {
                            done[k] = true;
                            let a = r2.pick(&a);
                            let max = w.scfg.endpoint_config.max_packet_size;
                            for (len, chan, mode) in last_words(&mut r2, max) {
                                w.send_server(ctx, a, len, chan, mode);
                            }
                            w.disconnect_server(ctx, a, *how);
                        } else if w.now > *t + 40 * SEC {
                            done[k] = true;
                        }
                    }
                }
            }
            if w.now > slow {
                w.scadence.interval = w.scadence.interval.max(100 * MS);
                for c in &mut w.clis {
                    c.cadence.interval = c.cadence.interval.max(100 * MS);
                }
            }
            check_both_end(w, ctx);
        },
        |w| {
            let any = w.clis.iter().any(|c| c.w.ended.is_none()) || w.sess.values().flatten().any(|s| s.w.ended.is_none());
            // A connection nobody wishes to close remains
            let asked = w.clis.iter().any(|c| c.w.ended.is_none() && c.w.req.is_some())
                || w.sess.values().flatten().any(|s| s.w.ended.is_none() && s.w.req.is_some());
            w.now > 60 * SEC && (!any || (!asked && w.now > 200 * SEC && w.now > fault_end + 60 * SEC))
        },
    );
    if !ctx.failed() && fault_end < 400 * SEC {
        // Once frames flow, a requested disconnect goes through
        for c in &w.clis {
            if c.w.req.is_some() && c.w.ended.is_none() {
                ctx.fail(format!("{}: not closed {} s after disconnect() ({} bytes missing)", c.w.name, (w.now - c.w.req.unwrap().0) / SEC, c.tx.total));
            }
        }
        for s in w.sess.values().flatten() {
            if s.w.req.is_some() && s.w.ended.is_none() {
                ctx.fail(format!("{}: not closed {} s after disconnect()", s.w.name, (w.now - s.w.req.unwrap().0) / SEC));
            }
        }
    }
    let o = |k| ctx.obs.get(k).copied().unwrap_or(0);
    ctx.nontrivial = o("disconnect_requests") > 0;
    w.finish();
}

/// Packets submitted right before disconnect(): the amounts and kinds which may be all that is left to transmit.
fn last_words(r: &mut Rng, max: usize) -> Vec<(usize, u8, SendMode)> {
    let n = r.pick(&[0, 0, 1, 1, 2, 5, 40]);
    let one = r.pick(&[0, 0, 1, 700, 1448, 1449, 20_000]).min(max);
    let kind = r.below(3);
    (0..n)
        .map(|_| {
            let len = if kind == 0 { r.pick(&[0, 0, 3, 100, 1448, 5000]).min(max) } else { one };
            let mode = if kind < 2 || r.chance(0.5) { SendMode::Reliable } else { r.pick(&[SendMode::Unreliable, SendMode::Persistent, SendMode::TimeSensitive]) };
            (len, r.below(4) as u8, mode)
        })
        .collect()
}

/// From the first disconnect request on, both ends must have ended within the retry budget. (The active timeouts in
/// this exploration are shorter than that.)
fn check_both_end(w: &World, ctx: &mut Ctx) {
    for c in &w.clis {
        let Some(s) = w.sess.get(&c.addr).and_then(|l| l.iter().rev().find(|s| Some(s.s) == c.accepted)) else { continue };
        let t = match (c.w.disc.first(), s.w.disc.first()) {
            (Some(a), Some(b)) => *a.min(b),
            (Some(a), None) | (None, Some(a)) => *a,
            _ => continue,
        };
        let gap = c.w.max_gap.max(s.w.max_gap).max(w.sgap);
        let slack = 13 * gap + w.link.delay + w.link.jitter + 50 * MS;
        for x in [&c.w, &s.w] {
            // Whoever has sent a request itself counts from there
            let t = x.disc.first().copied().unwrap_or(t);
            if x.live() && x.last_step > t + BUDGET + slack {
                ctx.fail(format!(
                    "{}: no terminal event {} ms after a disconnect request was first transmitted (client {:?}, server {:?})",
                    x.name,
                    (x.last_step - t) / MS,
                    c.w.ended,
                    s.w.ended
                ));
            }
        }
    }
}

pub fn c09() -> Property {
    Property {
        id: "C09",
        rule: "a case counts if a disconnect request was transmitted; cases are distinct if the delivered sequences and connection events differ",
        scenarios: vec![sc("close", 2_500, 80_000, c09_close)],
        floors: &[("disconnect_requests", 2_000), ("graceful_ends_checked", 500), ("reliable_before_disconnect", 2_000), ("empty_before_disconnect", 200), ("requests_answered", 500), ("frames_lost", 5_000), ("errors", 100)],
    }
}

// ---------------------------------------------------------------------------------------------------------------
// C10

/// Random silences: nothing ends early, nothing ends late.
fn c10_silence(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let (mut s, mut c) = configs(r);
    for e in [&mut s, &mut c] {
        e.active_timeout_ms = r.pick(&[0, 1, 100, 1000, 2500, 5000, 20_000, 60_000, u64::MAX]);
        e.keepalive = r.chance(0.5);
        e.keepalive_interval_ms = r.pick(&[0, 500, 2000, 5000]);
    }
    let mut scfg = server_cfg(s);
    scfg.enable_handshake_errors = r.chance(0.5);
    let end = r.pick(&[40, 90, 200]) * SEC;
    let mut link = if r.chance(0.7) { Link::faulty(r, end) } else { Link::ideal(r.pick(&[0, 20 * MS, 200 * MS, 2500 * MS])) };
    for _ in 0..r.below(4) {
        let t = r.below(end);
        link.dark.push((t, t + r.pick(&[500 * MS, 2 * SEC, 6 * SEC, 25 * SEC, 100 * SEC])));
    }
    let cad = cadence(r);
    let mut w = World::new(ctx, TIMERS, 0, scfg, link, cad, false);
    describe(ctx, &w, "silences");
    let n = r.range(1, 4);
    for _ in 0..n {
        let cad = cadence(r);
        let i = w.connect(ctx, c.clone(), cad);
        let mut p = small_plan(r, c.max_packet_size, 100);
        p.p = r.pick(&[0.002, 0.05]);
        w.clis[i].plan = Some(p);
    }
    let mut p = small_plan(r, 2000, 100);
    p.p = r.pick(&[0.002, 0.05]);
    w.plans = Some((small_plan(r, 1000, 1), p));
    let mut peers: Vec<Forger> = (0..r.below(3)).map(|k| Forger::new(raw_addr(k, false))).collect();
    for p in &peers {
        w.raws.insert(p.addr);
    }
    let act = r.pick(&[0.0, 0.0005, 0.003]);
    let mut r2 = r.fork();
    w.run(
        ctx,
        end,
        |w, ctx, who| {
            w.traffic(ctx, who, &mut r2);
            if r2.chance(act) {
                match who {
                    Who::Client(_) => (),
                    Who::Server => (),
                }
                lifecycle(w, ctx, who, &mut r2, &c);
            }
            if who == Who::Server {
                for p in &mut peers {
                    p.act(w, ctx, &mut r2);
                }
            }
        },
        |_| false,
    );
    let o = |k| ctx.obs.get(k).copied().unwrap_or(0);
    ctx.nontrivial = o("silence_timeouts") + o("handshake_timeouts") + o("disconnect_timeouts") + o("client_connects") > 0;
    w.finish();
}

/// A peer made by hand which goes silent, or speaks just in time.
fn c10_scripted(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let (mut s, mut c) = configs(r);
    let t = r.pick(&[300, 1000, 3000, 20_000]);
    s.active_timeout_ms = t;
    c.active_timeout_ms = t;
    s.keepalive = r.chance(0.5);
    let mut scfg = server_cfg(s);
    scfg.enable_handshake_errors = r.chance(0.5);
    let mut cad = Cadence::fixed(r.pick(&[MS, 7 * MS, 50 * MS]));
    cad.jitter = r.pick(&[0, MS, 7 * MS]);
    let mut w = World::new(ctx, TIMERS, 0, scfg, Link::ideal(0), cad, false);
    describe(ctx, &w, "scripted silence");
    let a = raw_addr(1, false);
    w.raws.insert(a);
    let n = r.u32();
    let f = syn_for(r, &w.scfg, n);
    let saddr = w.saddr;
    w.forge(ctx, a, saddr, &sealed(&f));
    let complete = r.chance(0.8);
    let kinds = r.below(3);
    let mut next = 0u64;
    let mut stage = 0;
    let mut words = r.range(0, 6);
    let mut r2 = r.fork();
    let mut id = n;
    w.run(
        ctx,
        (30 + 8 * t / 1000) * SEC,
        |w, ctx, who| {
            if who != Who::Server {
                return;
            }
            let inbox = w.raw.remove(&a).unwrap_or_default();
            for (_, d) in inbox {
                if let (Some(Fr::SynAck { nonce, .. }), 0, true) = (accept(&d), stage, complete) {
                    stage = 1;
                    w.forge(ctx, a, saddr, &sealed(&Fr::Ack3 { nonce_ack: nonce }));
                    next = w.now + near(&mut r2, t);
                }
            }
            if stage == 1 && words > 0 && w.now + 50 * MS >= next {
                // Speaks close to the deadline, on either side of it
                let f = match kinds {
                    0 => Fr::Data { id, nonce: r2.chance(0.5), dgs: Vec::new() },
                    1 => Fr::Sync { frame: None, packet: None },
                    _ => Fr::Ack { fbase: r2.u32(), pbase: r2.u32() & 0xFFFFF, groups: Vec::new() },
                };
                id = id.wrapping_add(1);
                w.forge_at(next, a, saddr, &sealed(&f));
                words -= 1;
                next = next.max(w.now) + near(&mut r2, t);
            }
        },
        |_| false,
    );
    let o = |k| ctx.obs.get(k).copied().unwrap_or(0);
    ctx.nontrivial = o("silence_timeouts") + o("handshake_timeouts") > 0 || complete || o("handshakes_begun") > 0;
    w.finish();
}

fn near(r: &mut Rng, t_ms: u64) -> u64 {
    let t = t_ms * MS;
    match r.below(6) {
        0 => t - MS.min(t),
        1 => t - 60 * MS.min(t / 60),
        2 => t / 2,
        3 => t + r.below(20 * MS),
        4 => t - r.below(t / 10 + 1),
        _ => t - r.below(20 * MS).min(t),
    }
}

/// The same for a client whose server is made by hand.
fn c10_client(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let (s, mut c) = configs(r);
    let t = r.pick(&[300, 1000, 3000, 20_000]);
    c.active_timeout_ms = t;
    c.keepalive = r.chance(0.5);
    let scfg = server_cfg(s);
    let mut w = World::new(ctx, TIMERS, 0, scfg, Link::ideal(0), Cadence::fixed(SEC), false);
    // Nobody serves; the harness answers in the server's name
    w.drop_server();
    let saddr = w.saddr;
    w.raws.insert(saddr);
    describe(ctx, &w, "client facing a scripted server");
    let mut cad = Cadence::fixed(r.pick(&[MS, 7 * MS, 50 * MS]));
    cad.jitter = r.pick(&[0, MS, 7 * MS]);
    let i = w.connect(ctx, c.clone(), cad);
    let a = w.clis[i].addr;
    let answer_at = if r.chance(0.8) { r.below(21) * SEC + r.below(SEC) } else { u64::MAX };
    let kinds = r.below(4);
    let close = r.pick(&[0, 1, 2, 3]);
    let mut words = r.range(0, 6);
    let mut next = u64::MAX;
    let mut stage = 0;
    let s_nonce = r.u32();
    let mut id = s_nonce;
    let mut r2 = r.fork();
    w.run(
        ctx,
        (60 + 8 * t / 1000) * SEC,
        |w, ctx, _| {
            w.raw.clear();
            let n = w.clis[i].nonce;
            let synack = Fr::SynAck { nonce_ack: n, nonce: s_nonce, rate: 100_000, packet: 1000, alloc: 1_000_000 };
            if stage == 0 && w.now >= answer_at {
                stage = 1;
                w.forge(ctx, saddr, a, &sealed(&synack));
                next = w.now + near(&mut r2, t);
            }
            if stage == 1 && words > 0 && w.now + 50 * MS >= next {
                let f = match kinds {
                    0 => Fr::Data { id, nonce: r2.chance(0.5), dgs: Vec::new() },
                    1 => Fr::Sync { frame: None, packet: None },
                    2 => Fr::Ack { fbase: r2.u32(), pbase: r2.u32() & 0xFFFFF, groups: Vec::new() },
                    _ => synack.clone(),
                };
                id = id.wrapping_add(1);
                w.forge_at(next, saddr, a, &sealed(&f));
                words -= 1;
                next = next.max(w.now) + near(&mut r2, t);
                if words == 0 && close > 0 && r2.chance(0.5) {
                    w.disconnect_client(ctx, i, if close == 1 { Req::Flush } else { Req::Now });
                }
            }
        },
        |_| false,
    );
    if !ctx.failed() && w.clis[i].w.ended.is_none() {
        ctx.fail(format!("the client has not ended after {} s of silence", w.now / SEC));
    }
    ctx.nontrivial = true;
    w.finish();
}

/// Idle for a long time on a loss-free network.
fn c10_idle(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let (mut s, mut c) = configs(r);
    let ka: u64 = r.pick(&[2000, 2500, 5000, 10_000]);
    let one_sided = r.chance(0.3);
    let delay = r.pick(&[0, MS, 20 * MS, 100 * MS, 300 * MS]);
    let step = r.pick(&[5 * MS, 15 * MS, 100 * MS]);
    for e in [&mut s, &mut c] {
        e.keepalive = true;
        e.keepalive_interval_ms = ka;
        // What the keepalive interval is limited to, the way to the peer, and the steps of both sides
        let rtt = (2 * delay + 4 * step) / MS;
        e.active_timeout_ms = ka.max(2000).max(4 * rtt) + rtt + r.pick(&[50, 500, 5000, 20_000]);
        e.max_send_rate = e.max_send_rate.max(100_000);
        e.max_receive_rate = e.max_receive_rate.max(100_000);
    }
    if one_sided {
        if r.chance(0.5) {
            s.keepalive = false;
        } else {
            c.keepalive = false;
        }
    }
    let scfg = server_cfg(s);
    let mut w = World::new(ctx, TIMERS | IDLE_OK, 0, scfg, Link::ideal(delay), Cadence::fixed(step), false);
    describe(ctx, &w, if one_sided { "idle, keepalive on one side" } else { "idle" });
    let i = w.connect(ctx, c.clone(), Cadence::fixed(step));
    let warm = r.pick(&[0, 0, 3, 50]);
    let mut p = small_plan(r, c.max_packet_size, warm);
    p.p = 0.5;
    w.clis[i].plan = Some(p);
    let mut p = small_plan(r, 2000, warm);
    p.p = 0.5;
    w.plans = Some((small_plan(r, 1000, 1), p));
    let hours = if ctx.thorough { 4 } else { 1 };
    let mut r2 = r.fork();
    w.run(
        ctx,
        hours * 1200 * SEC,
        |w, ctx, who| {
            w.traffic(ctx, who, &mut r2);
            if r2.chance(0.00005) {
                w.send_client(ctx, i, 100, 0, uflow::SendMode::Reliable);
            }
        },
        |_| false,
    );
    if !ctx.failed() && !(w.clis[i].w.live() && w.session(i).map_or(false, |s| s.w.live())) {
        ctx.fail("the idle connection is not connected any more");
    }
    ctx.count("idle_seconds", w.now / SEC);
    ctx.nontrivial = true;
    w.finish();
}

/// Known: the keepalive interval is not honoured below two seconds (or the retransmission timeout), so that an idle
/// connection with a shorter timeout ends although its keepalive interval is shorter still.
fn c10_short(ctx: &mut Ctx) {
    let mut e = EndpointConfig::default();
    e.keepalive_interval_ms = 500;
    e.active_timeout_ms = 1500;
    let mut w = World::new(ctx, 0, 0, server_cfg(e.clone()), Link::ideal(10 * MS), Cadence::fixed(10 * MS), false);
    ctx.desc = "idle with keepalive interval 500 ms and timeout 1500 ms".into();
    let i = w.connect(ctx, e, Cadence::fixed(10 * MS));
    w.run(ctx, 30 * SEC, |_, _, _| (), |_| false);
    if w.clis[i].w.connected.is_some() && matches!(w.clis[i].w.ended, Some((_, End::Timeout))) {
        ctx.known.push("keepalive-below-2s".into());
    }
    ctx.nontrivial = true;
    w.finish();
}

pub fn c10() -> Property {
    Property {
        id: "C10",
        rule: "a case counts if a connection was established or timed out; cases are distinct if the sequences of connection events differ",
        scenarios: vec![
            sc("silence", 1_500, 50_000, c10_silence),
            sc("scripted", 1_000, 20_000, c10_scripted),
            sc("client", 1_000, 20_000, c10_client),
            sc("idle", 60, 1_000, c10_idle),
            sc("short", 1, 1, c10_short),
        ],
        floors: &[
            ("silence_timeouts", 500),
            ("handshake_timeouts", 100),
            ("disconnect_timeouts", 50),
            ("idle_seconds", 10_000),
            ("handshake_and_disconnect_transmissions", 5_000),
        ],
    }
}

// ---------------------------------------------------------------------------------------------------------------
// C17

fn c17_limits(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let (mut s, mut c) = configs(r);
    s.active_timeout_ms = r.pick(&[1000, 5000, 20_000]);
    c.active_timeout_ms = r.pick(&[1000, 5000, 20_000]);
    let mut scfg = server_cfg(s);
    scfg.max_total_connections = r.pick(&[1, 2, 3, 5, 10, 50]);
    scfg.max_active_connections = r.pick(&[1, 2, 3, 5, 10, 50]);
    scfg.enable_handshake_errors = r.chance(0.5);
    let end = r.pick(&[20, 60, 150]) * SEC;
    let link = if r.chance(0.6) { Link::faulty(r, end) } else { Link::ideal(r.pick(&[0, 20 * MS])) };
    let cad = cadence(r);
    let mut w = World::new(ctx, CAPS | HAND, 0, scfg, link, cad, false);
    describe(ctx, &w, "connection limits");
    w.plans = Some((small_plan(r, 1000, 1), small_plan(r, 1000, 20)));
    let n = r.range(0, 6);
    for _ in 0..n {
        let cad = cadence(r);
        w.connect(ctx, c.clone(), cad);
    }
    let count = r.pick(&[3, 10, 20, 60]);
    let busy = r.pick(&[0.02, 0.1]);
    let mut peers: Vec<Forger> = (0..count).map(|k| Forger::new(raw_addr(k, false))).collect();
    for p in &mut peers {
        p.busy = busy;
    }
    for p in &peers {
        w.raws.insert(p.addr);
    }
    let act = r.pick(&[0.0, 0.01, 0.1]);
    let mut r2 = r.fork();
    let calm = r.chance(0.3);
    w.run(
        ctx,
        end,
        |w, ctx, who| {
            if r2.chance(act) {
                lifecycle(w, ctx, who, &mut r2, &c);
                w.check_caps(ctx);
            }
            if who == Who::Server && !(calm && w.now > end / 2) {
                for p in &mut peers {
                    p.act(w, ctx, &mut r2);
                }
            }
        },
        |_| false,
    );
    let o = |k| ctx.obs.get(k).copied().unwrap_or(0);
    ctx.nontrivial = o("refused_full") > 0 || o("admitted") > 0;
    w.finish();
}

/// Fill the server up, let everything end, and fill it again.
fn c17_refill(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let (mut s, mut c) = configs(r);
    s.active_timeout_ms = r.pick(&[4000, 6000]);
    s.keepalive = false;
    c.keepalive = false;
    let mut scfg = server_cfg(s);
    let k = r.pick(&[1usize, 2, 4, 9]);
    scfg.max_total_connections = if r.chance(0.5) { k } else { k + r.range(1, 10) as usize };
    scfg.max_active_connections = if scfg.max_total_connections == k { k + r.below(3) as usize } else { k };
    let mut w = World::new(ctx, CAPS | HAND, 0, scfg, Link::ideal(10 * MS), Cadence::fixed(20 * MS), false);
    describe(ctx, &w, "refill");
    let rounds = 3;
    for round in 0..rounds {
        let first = w.clis.len();
        for _ in 0..k + 2 {
            w.connect(ctx, c.clone(), Cadence::fixed(20 * MS));
            let t = w.now + r.below(100 * MS);
            w.run(ctx, t, |_, _, _| (), |_| false);
        }
        let t = w.now + SEC;
        w.run(ctx, t, |_, _, _| (), |_| false);
        if ctx.failed() {
            break;
        }
        let up = (first..w.clis.len()).filter(|&i| w.clis[i].w.connected.is_some()).count();
        let full = (first..w.clis.len()).filter(|&i| matches!(w.clis[i].w.ended, Some((_, End::Full)))).count();
        // Connections of earlier rounds have ended long ago
        if up != k || full != 2 {
            ctx.fail(format!("round {}: of {} attempts on a server with room for {}, {} connected and {} were refused as ServerFull", round, k + 2, k, up, full));
            break;
        }
        ctx.count("rounds", 1);
        // End them all, each in its own way
        for i in first..w.clis.len() {
            if w.clis[i].w.connected.is_none() {
                continue;
            }
            let a = w.clis[i].addr;
            match r.below(6) {
                0 => w.disconnect_client(ctx, i, Req::Flush),
                1 => w.disconnect_client(ctx, i, Req::Now),
                2 => w.disconnect_server(ctx, a, Req::Flush),
                3 => w.disconnect_server(ctx, a, Req::Now),
                4 => w.drop_session(ctx, a),
                _ => w.drop_client(i),
            }
        }
        // Longer than any timeout and lingering
        let t = w.now + 90 * SEC;
        w.run(ctx, t, |_, _, _| (), |_| false);
    }
    ctx.nontrivial = true;
    w.finish();
}

pub fn c17() -> Property {
    Property {
        id: "C17",
        rule: "a case counts if at least one admission was decided; cases are distinct if the sequences of connection events differ",
        scenarios: vec![sc("limits", 700, 50_000, c17_limits), sc("refill", 200, 4_000, c17_refill)],
        floors: &[("refused_full", 1_000), ("admitted", 1_000), ("at_total_limit", 1_000), ("at_active_limit", 1_000), ("rounds", 200), ("capacity_released", 100)],
    }
}

// ---------------------------------------------------------------------------------------------------------------
// C18

fn c18_probe(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let v6 = r.chance(0.1);
    let (s, c) = configs(r);
    let mut scfg = server_cfg(s);
    scfg.enable_handshake_errors = r.chance(0.5);
    if r.chance(0.4) {
        scfg.max_total_connections = r.pick(&[1, 3, 20]);
    }
    if r.chance(0.3) {
        scfg.max_active_connections = r.pick(&[1, 3]);
    }
    let cad = Cadence::random(r);
    let mut w = World::new(ctx, AMP, 0, scfg, Link::ideal(r.clone().pick(&[0, 20 * MS])), cad, v6);
    describe(ctx, &w, "unverified peers");
    for _ in 0..r.below(3) {
        let cad = cadence(r);
        w.connect(ctx, c.clone(), cad);
    }
    let k = r.pick(&[1, 3, 20]);
    let addrs: Vec<Addr> = (0..k).map(|i| raw_addr(i, v6)).collect();
    for a in &addrs {
        w.raws.insert(*a);
    }
    let saddr = w.saddr;
    let rate = r.pick(&[0.02, 0.2, 1.0]);
    let style = r.below(5);
    let mut once: Vec<Addr> = addrs.clone();
    let mut r2 = r.fork();
    let mut small = 0u64;
    w.run(
        ctx,
        (if style == 0 { r.pick(&[30, 150, 500]) } else { r.pick(&[5, 30, 60]) }) * SEC,
        |w, ctx, who| {
            if who != Who::Server {
                return;
            }
            // Those who send a single request and never answer
            if style == 0 {
                if let Some(a) = once.pop() {
                    let n = r2.u32();
                    let mut f = syn_for(&mut r2, &w.scfg, n);
                    if let (Fr::Syn { version, .. }, true) = (&mut f, r2.chance(0.2)) {
                        *version ^= 1;
                    }
                    w.forge(ctx, a, saddr, &sealed(&f));
                }
                return;
            }
            if !r2.chance(rate) {
                return;
            }
            let a = r2.pick(&addrs);
            let n = r2.u32();
            let bytes = match r2.below(if style == 1 { 3 } else { 14 }) {
                0 => sealed(&syn_for(&mut r2, &w.scfg, n)),
                1 | 2 => {
                    // Undersized requests, with a valid checksum
                    let mut b = sealed(&syn_for(&mut r2, &w.scfg, n));
                    let keep = match r2.below(4) {
                        0 => 18,
                        1 => b.len() - 5,
                        2 => 18 + r2.below(40) as usize,
                        _ => r2.range(1, b.len() as u64 - 5) as usize,
                    };
                    b.truncate(keep);
                    let c = v::crc_compute(&b);
                    b.extend_from_slice(&c.to_be_bytes());
                    small += 1;
                    ctx.count("undersized_requests", 1);
                    b
                }
                3 => {
                    let mut f = syn_for(&mut r2, &w.scfg, n);
                    if let Fr::Syn { version, .. } = &mut f {
                        *version = version.wrapping_add(1);
                    }
                    sealed(&f)
                }
                4 => {
                    let mut f = syn_for(&mut r2, &w.scfg, n);
                    if let Fr::Syn { alloc, packet, .. } = &mut f {
                        *alloc = 0;
                        *packet = u32::MAX;
                    }
                    sealed(&f)
                }
                5 => sealed(&Fr::Ack3 { nonce_ack: r2.u32() }),
                6 => sealed(&Fr::Disc),
                7 => sealed(&Fr::DiscAck),
                8 => sealed(&Fr::Sync { frame: Some(r2.u32()), packet: Some(r2.u32() & 0xFFFFF) }),
                9 => sealed(&Fr::Data { id: r2.u32(), nonce: false, dgs: Vec::new() }),
                10 => sealed(&Fr::Ack { fbase: r2.u32(), pbase: 0, groups: Vec::new() }),
                11 => sealed(&Fr::SynAck { nonce_ack: r2.u32(), nonce: r2.u32(), rate: 1, packet: 1, alloc: 1 }),
                12 => sealed(&Fr::Err { nonce_ack: r2.u32(), code: 0 }),
                _ => {
                    let n = r2.range(0, 40);
                    (0..n).map(|_| r2.u64() as u8).collect()
                }
            };
            ctx.count("probes", 1);
            w.forge(ctx, a, saddr, &bytes);
        },
        |_| false,
    );
    let _ = small;
    ctx.nontrivial = ctx.obs.get("probes").copied().unwrap_or(0) > 0 || style == 0;
    let m: u64 = w.meters.values().map(|m| m.sent).sum();
    ctx.seen(m);
    w.finish();
}

/// A request of fewer than 1472 bytes, whatever it contains, gets no reply at all.
fn c18_undersized(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let (s, _) = configs(r);
    let mut w = World::new(ctx, AMP, 0, server_cfg(s), Link::ideal(0), Cadence::fixed(10 * MS), false);
    ctx.desc = "undersized requests".into();
    let saddr = w.saddr;
    for k in 0..40u64 {
        let a = raw_addr(k, false);
        w.raws.insert(a);
        let n = r.u32();
        let mut b = sealed(&syn_for(r, &w.scfg, n));
        let keep = match k {
            0..=9 => b.len() - 4 - 1 - k as usize,
            10..=19 => 18 + (k as usize - 10),
            _ => r.range(1, b.len() as u64 - 5) as usize,
        };
        if r.chance(0.2) {
            if let Some(x) = b.get_mut(1) {
                *x = r.u64() as u8;
            }
        }
        b.truncate(keep);
        let c = v::crc_compute(&b);
        b.extend_from_slice(&c.to_be_bytes());
        w.forge(ctx, a, saddr, &b);
        ctx.count("undersized_requests", 1);
    }
    w.run(ctx, 30 * SEC, |_, _, _| (), |_| false);
    if !ctx.failed() {
        for (a, m) in &w.meters {
            if m.sent > 0 || w.is_tracked(a) {
                ctx.fail(format!("an undersized request of {} bytes was answered with {} bytes (tracked: {})", m.got, m.sent, w.is_tracked(a)));
                break;
            }
        }
    }
    ctx.nontrivial = true;
    w.finish();
}

pub fn c18() -> Property {
    Property {
        id: "C18",
        rule: "a case counts if an unverified address sent something; cases are distinct if the byte totals differ",
        scenarios: vec![sc("probe", 1_500, 50_000, c18_probe), sc("undersized", 150, 3_000, c18_undersized)],
        floors: &[("replies_to_unverified", 5_000), ("undersized_requests", 3_000), ("probes", 5_000)],
    }
}
