//! Properties decided by feeding crafted data frames to a receiving HalfConnection: C04, C06 (receiver), C19.

use super::sc;
use super::stream::*;
use crate::alloc;
use crate::core::{Ctx, Property, Rng};
use crate::hc::*;
use crate::vlog;
use crate::wire::{self, padd, Dg, Fr, FRAG, PMASK};
use uflow::SendMode;

/// A receiving endpoint under a scripted sender.
pub struct Rx {
    pub hc: Hc,
    pub next_frame: u32,
    pub got: Vec<Box<[u8]>>,
    pub frames: Vec<Vec<u8>>,
    pub handled: u64,
}

impl Rx {
    pub fn new(setup: &Setup) -> Self {
        Rx { hc: Hc::new(setup.config(1)), next_frame: setup.fbase[0], got: Vec::new(), frames: Vec::new(), handled: 0 }
    }
    /// Passes datagrams in as many frames as necessary.
    pub fn put(&mut self, r: &mut Rng, dgs: &[Dg]) {
        let mut cur: Vec<Dg> = Vec::new();
        let mut len = 10;
        for d in dgs {
            let n = wire::dg_header(d) + d.data.len();
            if !cur.is_empty() && (len + n > wire::MAX_FRAME || cur.len() == 127) {
                self.put_frame(r, std::mem::take(&mut cur));
                len = 10;
            }
            len += n;
            cur.push(d.clone());
        }
        if !cur.is_empty() {
            self.put_frame(r, cur);
        }
    }
    pub fn put_frame(&mut self, r: &mut Rng, dgs: Vec<Dg>) {
        let b = seal_lib(wire::write(&Fr::Data { id: self.next_frame, nonce: r.chance(0.5), dgs }));
        self.next_frame = self.next_frame.wrapping_add(1);
        self.hc.handle(&b);
        self.handled += 1;
    }
    pub fn sync(&mut self, frame: Option<u32>, packet: Option<u32>) {
        let b = seal_lib(wire::write(&Fr::Sync { frame, packet }));
        self.hc.handle(&b);
    }
    pub fn receive(&mut self) {
        self.hc.receive(&mut self.got);
    }
    pub fn tick(&mut self, now: u64) {
        set_now(now);
        self.hc.flush(&mut self.frames);
        self.frames.clear();
        self.hc.step();
    }
}

/// Replaces the checksum by the library's own: only C16 judges checksums.
pub fn seal_lib(mut b: Vec<u8>) -> Vec<u8> {
    let n = b.len() - 4;
    let c = uflow::verif::crc_compute(&b[..n]);
    b[n..].copy_from_slice(&c.to_be_bytes());
    b
}

pub fn content(salt: u64, k: u64, len: usize) -> Vec<u8> {
    let mut r = Rng::new(salt ^ k << 40 ^ len as u64);
    let mut v = Vec::with_capacity(len + 8);
    while v.len() < len {
        v.extend_from_slice(&r.u64().to_le_bytes());
    }
    v.truncate(len);
    v
}

pub fn fragments(seq: u32, chan: u8, wlead: u16, clead: u16, data: &[u8]) -> Vec<Dg> {
    let n = data.len().div_ceil(FRAG).max(1);
    (0..n)
        .map(|i| Dg {
            seq,
            chan,
            wlead,
            clead,
            frag: i as u16,
            last: (n - 1) as u16,
            data: data[i * FRAG..((i + 1) * FRAG).min(data.len())].to_vec(),
        })
        .collect()
}

fn shuffle<T>(r: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = r.below(i as u64 + 1) as usize;
        v.swap(i, j);
    }
}

/// The k-th permutation of 0..n.
fn permutation(n: usize, mut k: u64) -> Vec<usize> {
    let mut pool: Vec<usize> = (0..n).collect();
    let mut out = Vec::new();
    for i in (1..=n as u64).rev() {
        out.push(pool.remove((k % i) as usize));
        k /= i;
    }
    out
}

fn recv_setup(r: &mut Rng, alloc: usize) -> Setup {
    let mut s = Setup::plain();
    s.pbase[0] = if r.chance(0.5) { 0u32.wrapping_sub(r.below(40) as u32) & PMASK } else { r.u32() & PMASK };
    s.fbase[0] = if r.chance(0.5) { 0u32.wrapping_sub(r.below(200) as u32) } else { r.u32() };
    s.alloc = [1_000_000, alloc];
    s
}

fn near_boundary(r: &mut Rng, max_frags: u64) -> usize {
    let k = r.range(0, max_frags) as i64 * FRAG as i64;
    match r.below(4) {
        0 => (k + r.range(0, 4) as i64 - 2).max(0) as usize,
        1 => r.below(max_frags * FRAG as u64 + 1) as usize,
        2 => (k + r.pick(&[-700i64, -1, 0, 1, 63, 64, 255, 256, 700])).max(0) as usize,
        _ => r.pick(&[0usize, 1, 2, 63, 64, 65, 255, 256, 257, 1447, 1448, 1449, 2895, 2896, 2897]),
    }
    .min(max_frags as usize * FRAG)
}

// ---------------------------------------------------------------------------------------------------------------
// C04

struct Crafted {
    chan: u8,
    data: Vec<u8>,
}

/// Reliable packets whose fragments arrive in any order, repeated, interleaved, and mixed with fragments whose header
/// disagrees with what has been seen of the packet.
fn c04_arrival(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let setup = recv_setup(r, 10_000_000);
    let mut rx = Rx::new(&setup);
    let single = ctx.index % 3 == 0;
    let n_packets = if single { 1 } else { r.range(2, 8) as usize };
    let chans = r.pick(&[1u64, 2, 5, 64]);
    let salt = r.u64();
    let mut last_on: [Option<u32>; 64] = [None; 64];
    let mut packets: Vec<Crafted> = Vec::new();
    let mut dgs: Vec<Vec<Dg>> = Vec::new();
    for k in 0..n_packets {
        let max = if single { r.range(2, 6) } else { r.pick(&[1, 2, 3, 5, 9, 70]) };
        let len = if single { ((max - 1) as usize * FRAG) + r.pick(&[1usize, 2, 700, 1447, 1448]) } else { near_boundary(r, max) };
        let chan = r.below(chans) as u8;
        // Contents are unique, so that a delivery identifies the packet
        let len = if len == 0 && packets.iter().any(|p| p.data.is_empty()) { 1 } else { len };
        let mut data = content(salt, k as u64, len);
        if len > 0 {
            data[0] = k as u8;
        }
        let wlead = if k == 0 { 0 } else { 1 };
        let clead = last_on[chan as usize].map(|p| k as u32 - p).unwrap_or(0);
        last_on[chan as usize] = Some(k as u32);
        dgs.push(fragments(padd(setup.pbase[0], k as u32), chan, wlead as u16, clead as u16, &data));
        packets.push(Crafted { chan, data });
    }
    // Arrival order
    let mut order: Vec<(usize, usize)> = Vec::new();
    if single {
        let n = dgs[0].len();
        for i in permutation(n, ctx.index / 3) {
            order.push((0, i));
        }
        ctx.count("single_packet_permutations", 1);
    } else {
        for (p, f) in dgs.iter().enumerate() {
            for i in 0..f.len() {
                order.push((p, i));
            }
        }
        match r.below(4) {
            0 => (),
            1 => order.reverse(),
            // Mild reordering
            2 => {
                for i in 0..order.len() {
                    let j = (i + r.below(6) as usize).min(order.len() - 1);
                    order.swap(i, j);
                }
            }
            _ => shuffle(r, &mut order),
        }
    }
    let dup = r.pick(&[0.0, 0.2, 1.0]);
    let bogus = r.pick(&[0.0, 0.3, 1.0]);
    let recv_often = r.chance(0.5);
    let mut sent: Vec<(usize, usize)> = Vec::new();
    let mut seen = vec![0usize; n_packets];
    let mut script = String::new();
    let mut at = 0u64;
    let mut batch: Vec<Dg> = Vec::new();
    let pack = r.chance(0.5);
    for (p, i) in order {
        let mut push = |rx: &mut Rx, r: &mut Rng, d: Dg| {
            if pack {
                batch.push(d);
                if r.chance(0.3) {
                    let b = std::mem::take(&mut batch);
                    rx.put(r, &b);
                }
            } else {
                rx.put(r, &[d]);
            }
        };
        push(&mut rx, r, dgs[p][i].clone());
        seen[p] += 1;
        script.push_str(&format!("{}.{} ", p, i));
        sent.push((p, i));
        if r.chance(dup) {
            let (q, j) = sent[r.below(sent.len() as u64) as usize];
            push(&mut rx, r, dgs[q][j].clone());
            script.push_str(&format!("={}.{} ", q, j));
            ctx.count("duplicate_fragments", 1);
        }
        if r.chance(bogus) {
            // Disagrees with a packet that is being assembled or has been completed
            let (q, _) = sent[r.below(sent.len() as u64) as usize];
            let n = dgs[q].len();
            let j = r.below(n as u64) as usize;
            let mut d = dgs[q][j].clone();
            d.data = content(!salt, r.u64(), d.data.len());
            let mut kind = r.below(6);
            if n == 1 && kind == 5 {
                kind = 0;
            }
            match kind {
                0 => d.chan = (d.chan + 1 + r.below(63) as u8) % 64,
                1 => d.wlead = d.wlead.wrapping_add(r.range(1, 30) as u16),
                2 => {
                    d.clead = if d.clead == 0 { r.range(1, 9) as u16 } else { 0 };
                    if d.clead != 0 {
                        d.wlead = 1;
                    }
                }
                3 => {
                    // More fragments than there are
                    d.last = d.last + r.range(1, 60) as u16;
                    d.data = content(!salt, r.u64(), FRAG);
                }
                4 => {
                    // A whole packet
                    d.frag = 0;
                    d.last = 0;
                    d.data = content(!salt, r.u64(), r.below(FRAG as u64 + 1) as usize);
                    if n == 1 {
                        d.chan = (d.chan + 1) % 64;
                    }
                }
                _ => {
                    // Fewer fragments
                    d.last = r.below(n as u64 - 1) as u16;
                    d.frag = d.frag.min(d.last);
                    if d.frag < d.last {
                        d.data = content(!salt, r.u64(), FRAG);
                    } else {
                        d.data = content(!salt, r.u64(), r.below(FRAG as u64 + 1) as usize);
                    }
                }
            }
            script.push_str(&format!("!{}.{}k{} ", q, d.frag, kind));
            push(&mut rx, r, d);
            ctx.count("disagreeing_fragments", 1);
        }
        if recv_often && r.chance(0.3) {
            rx.receive();
        }
        at += MS;
        if r.chance(0.1) {
            rx.tick(at);
        }
    }
    let b = std::mem::take(&mut batch);
    rx.put(r, &b);
    rx.receive();
    ctx.desc = format!("{} packets of sizes {:?} on channels {:?}; arrival {}", n_packets, packets.iter().map(|p| p.data.len()).collect::<Vec<_>>(), packets.iter().map(|p| p.chan).collect::<Vec<_>>(), script);
    vlog!(ctx, "{}", ctx.desc);
    // Packets of a channel come in order, and all of them come
    let got = std::mem::take(&mut rx.got);
    let mut used = vec![false; n_packets];
    for g in &got {
        let m = (0..n_packets).find(|&k| !used[k] && packets[k].data[..] == g[..]);
        match m {
            Some(k) => {
                if (0..k).any(|j| !used[j] && packets[j].chan == packets[k].chan && packets[j].data != packets[k].data) {
                    ctx.fail(format!("packet {} delivered before an earlier one of its channel", k));
                }
                used[k] = true;
            }
            None => {
                let like = packets.iter().position(|p| p.data.len() == g.len());
                ctx.fail(format!("received {} bytes which equal no submitted packet (sizes {:?}, same size as {:?})", g.len(), packets.iter().map(|p| p.data.len()).collect::<Vec<_>>(), like));
            }
        }
    }
    if !ctx.failed() && used.iter().any(|u| !u) {
        let k = used.iter().position(|u| !u).unwrap();
        ctx.fail(format!("all fragments of packet {} ({} bytes) arrived but it was not delivered", k, packets[k].data.len()));
    }
    ctx.count("packets_reassembled", got.len() as u64);
    ctx.count("fragments_passed", sent.len() as u64);
    ctx.max("fragments_of_a_packet", dgs.iter().map(|d| d.len()).max().unwrap() as u64);
    ctx.seen_bytes(ctx.desc.clone().as_bytes());
    ctx.nontrivial = dgs.iter().any(|d| d.len() > 1);
    drop_hc(rx.hc);
}

/// Every length in a range: one packet each through a pair of endpoints on a fast ideal link.
fn c04_lengths(ctx: &mut Ctx) {
    // Case index selects a block of lengths; blocks around every multiple of the fragment size come first
    let i = ctx.index;
    let k = i % 40;
    let base = (k as usize * FRAG).saturating_sub(8);
    let lens: Vec<usize> = if i < 40 { (base..base + 17).collect() } else { (0..40).map(|_| ctx.rng.below(60 * FRAG as u64) as usize).collect() };
    let mut setup = Setup::plain();
    setup.ceil = [200_000_000; 2];
    setup.alloc = [200_000; 2];
    setup.pbase[0] = ctx.rng.u32() & PMASK;
    let links = vec![Link::ideal(MS), Link::ideal(MS)];
    let cadence = vec![Cadence::fixed(MS), Cadence::fixed(MS)];
    let mut sim = Sim::new(ctx, &setup, FRAMES | ORDER | GLOBAL, links, cadence);
    let mut rng = ctx.rng.fork();
    let mut next = 0;
    let total = lens.len();
    ctx.desc = format!("lengths {:?}", lens);
    sim.run(
        ctx,
        600 * SEC,
        |sim, ctx, i| {
            if i == 0 && next < lens.len() {
                let m = rng.pick(&MODES4[1..]);
                sim.submit(ctx, 0, lens[next], rng.below(4) as u8, m);
                next += 1;
            }
        },
        |sim| sim.dirs[0].delivered as usize == total && sim.idle(),
    );
    if !ctx.failed() && sim.dirs[0].delivered as usize != total {
        let miss = sim.dirs[0].undelivered(|_| true);
        ctx.fail(format!("packets of lengths {:?} were not delivered on an ideal network", miss.iter().map(|&u| sim.dirs[0].pkts[u as usize].len).collect::<Vec<_>>()));
    }
    ctx.count("lengths_delivered", sim.dirs[0].delivered);
    ctx.count("packets_reassembled", sim.dirs[0].delivered);
    ctx.nontrivial = true;
    ctx.seen(ctx.index);
    sim.finish();
}

/// Large packets over faulty links with budgets that cut them across many flushes.
fn c04_flow(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let mut setup = Setup::random(r);
    for i in 0..2 {
        setup.alloc[i] = r.pick(&[3000, 10_000, 100_000, 400_000]);
        setup.ceil[i] = r.pick(&[1472, 3000, 20_000, 200_000, 50_000_000]);
        setup.pwin[i] = 1 << r.pick(&[2, 4, 12]);
        setup.fwin[i] = 1 << r.pick(&[2, 4, 8, 12]);
    }
    let fault_end = r.pick(&[2, 10, 30]) * SEC;
    let plans: Vec<Plan> = (0..2)
        .map(|i| {
            let cap = if setup.ceil[i] < 10_000 { 5 * FRAG } else { 60 * FRAG };
            let n = if i == 0 || r.chance(0.3) { r.range(5, 60) } else { 0 };
            let mut p = Plan::random(r, max_len(&setup, i).min(cap), n);
            p.sizes = r.pick(&[2, 2, 3, 4]);
            p.weights = r.pick(&[[0, 0, 0, 1], [0, 1, 1, 1], [1, 1, 1, 1]]);
            p
        })
        .collect();
    let mut cadence: Vec<Cadence> = (0..2).map(|_| Cadence::random(r)).collect();
    for c in &mut cadence {
        settle(c, fault_end);
        if r.chance(0.5) {
            c.flushes = r.range(1, 6) as u32;
        }
    }
    let links = (0..2).map(|_| Link::faulty(r, fault_end)).collect();
    let run = Run { setup, links, cadence, plans, fault_end, end: 20_000 * SEC };
    describe(ctx, &run);
    let mut sim = drive(ctx, run, FRAMES | ORDER, true);
    nontrivial(ctx, &sim);
    if !ctx.failed() && sim.idle() {
        let t = sim.now + POST;
        sim.run(ctx, t, |_, _, _| (), |_| false);
        for d in &sim.dirs {
            if let Some(&u) = d.undelivered(|p| p.mode == SendMode::Reliable).first() {
                ctx.fail(format!("{}: Reliable packet {} of {} bytes was acknowledged but never delivered", d.name, u, d.pkts[u as usize].len));
            }
        }
    }
    ctx.count("packets_reassembled", sim.dirs.iter().map(|d| d.delivered).sum());
    ctx.max("frame_bytes", sim.dirs.iter().map(|d| d.max_frame).max().unwrap() as u64);
    sim.finish();
}

/// Packets with thousands of fragments, up to the maximum of 65536, in random arrival order.
fn c04_huge(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let n = match ctx.index % 4 {
        0 => 65536,
        1 => r.range(60_000, 65_535) as usize,
        2 => r.pick(&[64, 65, 128, 4095, 4096, 4097, 32768, 32769]) as usize,
        _ => r.range(300, 9000) as usize,
    };
    let len = (n - 1) * FRAG + r.pick(&[1usize, 2, 1447, 1448, 1448]);
    let setup = recv_setup(r, len);
    let mut rx = Rx::new(&setup);
    let data = content(r.u64(), 1, len);
    let frs = fragments(setup.pbase[0], 3, 0, 0, &data);
    let mut order: Vec<usize> = (0..n).collect();
    match r.below(3) {
        0 => (),
        1 => order.reverse(),
        _ => shuffle(r, &mut order),
    }
    for (k, &i) in order.iter().enumerate() {
        rx.put(r, &frs[i..=i]);
        if r.chance(0.05) {
            let j = order[r.below(k as u64 + 1) as usize];
            rx.put(r, &frs[j..=j]);
        }
    }
    rx.receive();
    ctx.desc = format!("{} bytes in {} fragments", len, n);
    if rx.got.len() != 1 || rx.got[0][..] != data[..] {
        ctx.fail(format!("packet of {} bytes in {} fragments not delivered intact: got {:?}", len, n, rx.got.iter().map(|g| g.len()).collect::<Vec<_>>()));
    }
    ctx.count("packets_reassembled", 1);
    ctx.max("fragments_of_a_packet", n as u64);
    ctx.seen(len as u64);
    ctx.nontrivial = true;
    drop_hc(rx.hc);
}

/// A sender splitting a very large packet.
fn c04_split(ctx: &mut Ctx) {
    let n = match ctx.index % 3 {
        0 => 700,
        1 => ctx.rng.range(1000, 5000) as usize,
        _ if ctx.thorough => 65536,
        _ => 9000,
    };
    let len = n * FRAG - ctx.rng.pick(&[0, 1, 1446, 1447]);
    let mut setup = Setup::plain();
    setup.ceil = [u32::MAX; 2];
    setup.alloc = [len; 2];
    let mut sim = Sim::new(ctx, &setup, FRAMES | ORDER, vec![Link::ideal(MS), Link::ideal(MS)], vec![Cadence::fixed(MS), Cadence::fixed(MS)]);
    sim.submit(ctx, 0, len, 5, SendMode::Reliable);
    sim.run(ctx, 2_000 * SEC, |_, _, _| (), |sim| sim.dirs[0].delivered > 0 && sim.idle());
    ctx.desc = format!("{} bytes in {} fragments sent, {} retransmissions", len, n, sim.dirs[0].retx);
    if !ctx.failed() && sim.dirs[0].delivered != 1 {
        ctx.fail(format!("packet of {} bytes was not delivered within {} s", len, sim.now / SEC));
    }
    ctx.count("packets_reassembled", sim.dirs[0].delivered);
    ctx.max("frame_bytes", sim.dirs[0].max_frame as u64);
    ctx.max("fragments_of_a_packet", n as u64);
    ctx.seen(len as u64);
    ctx.nontrivial = true;
    sim.finish();
}

pub fn c04() -> Property {
    Property {
        id: "C04",
        rule: "a case counts if a packet of several fragments was involved; cases are distinct if the sizes and the arrival order (or the delivered sequence) differ",
        scenarios: vec![
            sc("arrival", 60_000, 1_500_000, c04_arrival),
            sc("lengths", 120, 4_000, c04_lengths),
            sc("flow", 1_500, 40_000, c04_flow),
            sc("huge", 4, 60, c04_huge),
            sc("split", 3, 30, c04_split),
            sc("endpoints", 300, 10_000, super::ends::c04),
        ],
        floors: &[("packets_reassembled", 20_000), ("duplicate_fragments", 10_000), ("disagreeing_fragments", 10_000), ("lengths_delivered", 500)],
    }
}

// ---------------------------------------------------------------------------------------------------------------
// C06: receiver half

fn cap(limit: usize) -> i64 {
    (limit.div_ceil(FRAG) * FRAG) as i64
}

/// Arbitrary datagram streams; the library's live heap is watched after every frame.
fn c06_hostile(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let limit = r.pick(&[0usize, 1, 100, 1447, 1448, 1449, 2896, 2897, 5000, 14_480, 20_000, 100_000, 1_000_000]);
    let mut setup = recv_setup(r, limit);
    setup.pwin[0] = if r.chance(0.5) { 4096 } else { 1 << r.below(13) };
    let tight = r.chance(0.6);
    // "tight": only packet data can make large blocks, so that they must fit the limit exactly
    let frames = if tight { r.range(20, 600) } else { r.range(100, if ctx.thorough { 20_000 } else { 3_000 }) };
    let read = r.pick(&[0.0, 0.0, 0.02, 0.3]);
    let tick = r.pick(&[0.0, 0.05, 0.5]);
    let max_last = if tight { 63 } else { 65_535 };
    let orderly = r.pick(&[0.0, 0.5, 0.9]);
    let mut rx = Rx::new(&setup);
    let base = alloc::stats();
    let cap = cap(limit);
    // Bookkeeping bounded by protocol constants: ack queue, window entries, fragment flags
    let slack: i64 = if tight { 64 << 10 } else { 256 << 10 };
    let salt = r.u64();
    let mut now = 0;
    let mut next = 0u32; // next packet id offset of the orderly part
    let mut open: Vec<Dg> = Vec::new();
    let (mut over_small, mut admitted) = (0i64, 0u64);
    for k in 0..frames {
        let d = if r.chance(orderly) {
            if !open.is_empty() && r.chance(0.7) {
                let i = r.below(open.len() as u64) as usize;
                let d = open.swap_remove(i);
                // Some fragments are simply never sent
                if r.chance(0.1) {
                    continue;
                }
                d
            } else {
                let max = (limit.max(1) * 2).min(20 * FRAG) as u64;
                let len = if r.chance(0.5) { near_boundary(r, 6) } else { r.below(max + 1) as usize };
                let wl = if next > 0 && r.chance(0.3) { 1 } else { 0 };
                let f = fragments(padd(setup.pbase[0], next), r.below(3) as u8, wl, 0, &content(salt, k, len));
                next += 1;
                open.extend(f);
                open.pop().unwrap()
            }
        } else {
            let last = match r.below(5) {
                0 => 0,
                1 => r.below(4) as u16,
                2 => r.below(64) as u16,
                3 => max_last as u16,
                _ => r.below(max_last + 1) as u16,
            };
            let frag = if r.chance(0.5) { 0 } else { r.below(last as u64 + 1) as u16 };
            let len = if frag < last { FRAG } else { r.pick(&[0usize, 1, 500, 599, 600, 1000, 1447, 1448]) };
            let wl = if r.chance(0.7) { 0 } else { r.below(200) as u16 };
            let seq = match r.below(4) {
                0 => r.u32() & PMASK,
                1 => padd(setup.pbase[0], next + r.below(4200) as u32),
                _ => padd(setup.pbase[0], next + r.below(20) as u32),
            };
            Dg { seq, chan: r.below(64) as u8, wlead: wl, clead: if wl > 0 && r.chance(0.5) { wl + r.below(9) as u16 } else { 0 }, frag, last, data: vec![k as u8; len] }
        };
        let before = alloc::stats();
        alloc::reset_peak();
        rx.put(r, &[d]);
        let after = alloc::stats();
        if after.lib_live > before.lib_live {
            admitted += 1;
        }
        over_small = over_small.max(after.lib_live - base.lib_live - cap);
        if after.lib_live - base.lib_live > cap + slack {
            ctx.fail(format!("{} bytes are held for received packets after frame {}, the limit is {} (max_receive_alloc {})", after.lib_live - base.lib_live, k, cap, limit));
            break;
        }
        if tight && after.lib_big - base.lib_big > cap {
            ctx.fail(format!("{} bytes in packet-sized blocks are held after frame {}, the limit is {} (max_receive_alloc {})", after.lib_big - base.lib_big, k, cap, limit));
            break;
        }
        if after.lib_peak - base.lib_live > 2 * cap + slack + (64 << 10) {
            ctx.fail(format!("up to {} bytes were held while handling frame {}, the limit is {} (max_receive_alloc {})", after.lib_peak - base.lib_live, k, cap, limit));
            break;
        }
        ctx.max("fill_of_the_limit_percent", ((after.lib_big - base.lib_big).max(0) * 100).checked_div(cap).unwrap_or(0) as u64);
        ctx.count("frames_judged", 1);
        if r.chance(read) {
            rx.receive();
            ctx.count("packets_delivered", rx.got.len() as u64);
            rx.got.clear();
        }
        if r.chance(0.02) {
            let p = padd(setup.pbase[0], next.wrapping_sub(r.below(5) as u32));
            rx.sync(None, if r.chance(0.7) { Some(p) } else { Some(r.u32()) });
            if r.chance(0.5) {
                open.clear();
            }
        }
        if r.chance(tick) {
            now += r.pick(&[0, MS, 20 * MS, SEC]);
            rx.tick(now);
        }
    }
    ctx.desc = format!("limit {} tight {} frames {} orderly {} read {} window {}; {} frames made memory grow, {} packets begun in order", limit, tight, frames, orderly, read, setup.pwin[0], admitted, next);
    ctx.max("bookkeeping_bytes", over_small.max(0) as u64);
    ctx.nontrivial = admitted > 0 || limit == 0;
    ctx.seen(salt);
    ctx.seen(admitted);
    drop_hc(rx.hc);
}

/// Complete packets which the application does not read, cycling through many windows, then a check that the full
/// limit is available again.
fn c06_reuse(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let frags = r.range(2, 20) as usize;
    let limit = frags * FRAG - r.below(FRAG as u64) as usize;
    let setup = recv_setup(r, limit);
    let mut rx = Rx::new(&setup);
    let salt = r.u64();
    let mut id = 0u32;
    let mut now = 0;
    let mut rounds = 0;
    let mut log = String::new();
    for round in 0..r.range(3, if ctx.thorough { 200 } else { 40 }) {
        let base = alloc::stats();
        // Abuse: incomplete packets, oversized claims, unread packets; then the window moves past all of them
        for _ in 0..r.range(0, 12) {
            let n = r.range(1, frags as u64 * 2) as usize;
            let len = if n == 1 { r.below(FRAG as u64 + 1) as usize } else { n * FRAG - r.below(FRAG as u64) as usize };
            let mut f = fragments(padd(setup.pbase[0], id), r.below(4) as u8, 0, 0, &content(salt, id as u64, len));
            id += 1;
            let keep = r.range(0, f.len() as u64) as usize;
            shuffle(r, &mut f);
            f.truncate(keep);
            for d in f {
                rx.put(r, &[d]);
            }
            if r.chance(0.3) {
                rx.receive();
            }
        }
        rx.receive();
        rx.sync(None, Some(padd(setup.pbase[0], id)));
        rx.receive();
        rx.got.clear();
        // Now everything must be free: packets adding up to exactly the limit are accepted
        let mut want = Vec::new();
        let mut left = frags;
        while left > 0 {
            let n = r.range(1, left as u64) as usize;
            left -= n;
            let data = content(salt, 1 << 32 | id as u64, if n == 1 { FRAG } else { n * FRAG - r.below(FRAG as u64) as usize });
            want.push((id, data));
            id += 1;
        }
        let mut all: Vec<Dg> = Vec::new();
        for (i, data) in &want {
            all.extend(fragments(padd(setup.pbase[0], *i), 9, 0, 0, data));
        }
        shuffle(r, &mut all);
        for d in all {
            rx.put(r, &[d]);
        }
        let held = alloc::stats().lib_live - base.lib_live;
        rx.receive();
        let got = std::mem::take(&mut rx.got);
        if got.len() != want.len() || got.iter().zip(&want).any(|(g, w)| g[..] != w.1[..]) {
            ctx.fail(format!("round {}: packets filling the limit of {} bytes exactly were not all delivered ({} of {}, sizes {:?})", round, limit, got.len(), want.len(), want.iter().map(|w| w.1.len()).collect::<Vec<_>>()));
            break;
        }
        ctx.count("limit_filled_exactly", 1);
        ctx.max("held_bytes", held.max(0) as u64);
        drop(got);
        rx.sync(None, Some(padd(setup.pbase[0], id)));
        now += r.pick(&[MS, 50 * MS]);
        rx.tick(now);
        rounds += 1;
        if log.len() < 200 {
            log.push_str(&format!("{:?} ", want.iter().map(|w| w.1.len()).collect::<Vec<_>>()));
        }
    }
    ctx.desc = format!("limit {} over {} rounds: {}", limit, rounds, log);
    ctx.nontrivial = rounds > 0;
    ctx.seen(salt);
    drop_hc(rx.hc);
}

/// Frames of every kind while the endpoint is never flushed: no receive state may grow with their number.
fn c06_flood(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let setup = recv_setup(r, r.clone().pick(&[1000, 100_000]));
    let mut rx = Rx::new(&setup);
    let n = if ctx.thorough { 200_000 } else { 30_000 };
    let stride = r.pick(&[1u32, 2, 31, 32, 33, 100, 4095]);
    let step = r.chance(0.3);
    let kind = r.below(4);
    let base = alloc::stats().lib_live;
    let mut bound = cap(setup.alloc[1]) + (512 << 10);
    let mut warm = 0;
    for k in 0..n {
        if k == n / 4 {
            // Whatever is bounded by a protocol constant has reached it
            bound = warm.max(cap(setup.alloc[1])) + (48 << 10);
        }
        match kind {
            0 => {
                rx.next_frame = rx.next_frame.wrapping_add(stride - 1);
                rx.put_frame(r, Vec::new());
            }
            1 => rx.sync(Some(rx.next_frame.wrapping_add(k as u32)), Some(r.u32() & PMASK)),
            2 => {
                let g = (0..r.below(140)).map(|_| wire::Grp { base: r.u32(), bits: r.u32(), nonce: r.chance(0.5) }).collect();
                rx.hc.handle(&seal_lib(wire::write(&Fr::Ack { fbase: r.u32(), pbase: r.u32(), groups: g })));
            }
            _ => {
                rx.next_frame = rx.next_frame.wrapping_add(r.below(40) as u32);
                let d = Dg { seq: padd(setup.pbase[0], k as u32), chan: r.below(64) as u8, wlead: 0, clead: 0, frag: 0, last: 0, data: vec![1; 10] };
                rx.put_frame(r, vec![d]);
                if step {
                    rx.receive();
                    rx.got.clear();
                }
            }
        }
        if step && k % 64 == 0 {
            // Steps without flushes
            set_now(k * MS);
            rx.hc.step();
        }
        let live = alloc::stats().lib_live - base;
        ctx.max("live_bytes_under_flood", live.max(0) as u64);
        warm = warm.max(live);
        if live > bound {
            ctx.fail(format!("receive state has grown to {} bytes after {} frames of kind {} (ids spaced by {})", live, k, kind, stride));
            break;
        }
        ctx.count("frames_judged", 1);
    }
    ctx.desc = format!("{} frames of kind {} spaced by {}", n, kind, stride);
    ctx.nontrivial = true;
    ctx.seen(kind * 10000 + stride as u64);
    drop_hc(rx.hc);
}

/// Two uflow endpoints whose receive limits are exhausted all the time.
fn c06_pair(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let mut setup = Setup::random(r);
    for i in 0..2 {
        setup.alloc[i] = r.pick(&[1, 1447, 1448, 1449, 2896, 2897, 4344, 5000, 20_000]);
        setup.pwin[i] = 1 << r.pick(&[0, 3, 12, 12]);
        setup.ceil[i] = setup.ceil[i].max(10_000);
    }
    let ideal = r.chance(0.4);
    let fault_end = if ideal { 0 } else { r.pick(&[2, 10]) * SEC };
    let n = r.range(20, if ctx.thorough { 600 } else { 200 });
    let plans = (0..2)
        .map(|i| {
            let mut p = Plan::random(r, max_len(&setup, i).min(9000), n);
            p.burst = r.pick(&[3, 40, 200]);
            p.sizes = r.pick(&[0, 1, 2, 2, 3, 4]);
            p
        })
        .collect();
    let links = (0..2).map(|_| if ideal { Link::ideal(r.pick(&[0, MS, 20 * MS])) } else { Link::faulty(r, fault_end) }).collect();
    let mut cadence: Vec<Cadence> = (0..2).map(|_| Cadence::random(r)).collect();
    for c in &mut cadence {
        settle(c, fault_end);
    }
    let run = Run { setup, links, cadence, plans, fault_end, end: 40_000 * SEC };
    limits(ctx, run, ideal);
}

fn c06_wide(ctx: &mut Ctx) {
    let ideal = ctx.rng.chance(0.4);
    let mut run = super::stream::wide(&mut ctx.rng, ctx.thorough, !ideal);
    if ctx.rng.chance(0.5) {
        run.setup.alloc = [ctx.rng.pick(&[1448, 5000, 20_000, 30_000]); 2];
        for (i, p) in run.plans.iter_mut().enumerate() {
            p.max = p.max.min(max_len(&run.setup, i));
        }
    }
    limits(ctx, run, ideal);
}

fn limits(ctx: &mut Ctx, run: Run, ideal: bool) {
    let fault_end = run.fault_end;
    describe(ctx, &run);
    let on = LIMITS | if ideal { GLOBAL } else { 0 };
    let mut sim = drive(ctx, run, on, true);
    nontrivial(ctx, &sim);
    if !ctx.failed() {
        if !sim.idle() {
            ctx.fail(format!("not idle {} s after the last fault: receive memory or windows lost", (sim.now - fault_end) / SEC));
        }
        let t = sim.now + POST;
        sim.run(ctx, t, |_, _, _| (), |_| false);
        for d in &sim.dirs {
            let miss = d.undelivered(|p| p.mode == SendMode::Reliable || (ideal && p.mode != SendMode::TimeSensitive));
            if let Some(&u) = miss.first() {
                ctx.fail(format!("{}: packet {} ({:?}, {} bytes) was discarded by the receiver", d.name, u, d.pkts[u as usize].mode, d.pkts[u as usize].len));
            }
        }
    }
    for (i, d) in sim.dirs.iter().enumerate() {
        ctx.max("sender_fill_percent", (d.max_alloc_seen * 100 / (cap(sim_alloc(&sim, i)) as usize).max(1)) as u64);
        if d.blind > 0 {
            ctx.count("senders_not_modelled", 1);
        }
    }
    ctx.count("senders_judged", 2);
    sim.finish();
}

fn sim_alloc(sim: &Sim, i: usize) -> usize {
    sim.dirs[i].alloc_limit
}

pub fn c06() -> Property {
    Property {
        id: "C06",
        rule: "a case counts if the stream made receive memory grow, or packets flowed; cases are distinct if streams or delivered sequences differ",
        scenarios: vec![
            sc("hostile", 4_000, 200_000, c06_hostile),
            sc("reuse", 1_500, 60_000, c06_reuse),
            sc("flood", 96, 600, c06_flood),
            sc("pair", 1_500, 40_000, c06_pair),
            sc("wide", 300, 8_000, c06_wide),
            sc("sender", 2_500, 80_000, super::peer::c06_sender),
            sc("endpoints", 300, 8_000, super::ends::c06),
            sc("config", 300, 8_000, super::ends::c06_config),
        ],
        floors: &[("frames_judged", 100_000), ("limit_filled_exactly", 1_000), ("senders_judged", 200), ("endpoints_half_filled", 50)],
    }
}

// ---------------------------------------------------------------------------------------------------------------
// C19

pub fn leak_check(ctx: &mut Ctx, what: &str) {
    let s = alloc::stats();
    if !ctx.failed() && (s.lib_live != 0 || s.lib_blocks != 0) {
        ctx.fail(format!("{}: {} bytes in {} blocks allocated by the library were never released", what, s.lib_live, s.lib_blocks));
    }
    if !ctx.failed() && s.payload_live != 0 {
        ctx.fail(format!("{}: {} bytes of payloads passed to send() were never released", what, s.payload_live));
    }
    ctx.count("blocks_released", s.frees);
    ctx.count("blocks_of_odd_size_released", s.odd_frees);
    ctx.count("teardowns", 1);
}

/// Every size: delivered, skipped, left incomplete, or dropped mid-way.
fn c19_receiver(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let setup = recv_setup(r, r.clone().pick(&[5000, 100_000, 1_000_000]));
    {
        let mut rx = Rx::new(&setup);
        let salt = r.u64();
        let n = r.range(1, 60);
        let mut now = 0;
        let mut keep: Vec<Box<[u8]>> = Vec::new();
        for k in 0..n as u32 {
            let len = if ctx.index < 400 && k == 0 { 1448 + (ctx.index as usize) * 29 } else { near_boundary(r, 9) };
            let mut f = fragments(padd(setup.pbase[0], k), r.below(4) as u8, 0, 0, &content(salt, k as u64, len));
            if r.chance(0.3) {
                shuffle(r, &mut f);
            }
            if r.chance(0.3) {
                let m = r.below(f.len() as u64 + 1) as usize;
                f.truncate(m);
            }
            rx.put(r, &f);
            if r.chance(0.1) {
                rx.put(r, &f);
            }
            if r.chance(0.4) {
                rx.receive();
                if r.chance(0.5) {
                    rx.got.clear();
                } else {
                    keep.append(&mut rx.got);
                }
            }
            if r.chance(0.1) {
                rx.sync(None, Some(padd(setup.pbase[0], k)));
            }
            if r.chance(0.2) {
                now += 10 * MS;
                rx.tick(now);
            }
        }
        ctx.desc = format!("{} packets, {} delivered and kept", n, keep.len() + rx.got.len());
        drop_hc(rx.hc);
        rx.got.clear();
    }
    leak_check(ctx, "receiver");
    ctx.nontrivial = true;
    ctx.seen(ctx.index);
}

/// Two endpoints dropped at an arbitrary moment of a transfer.
fn c19_pair(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let mut setup = Setup::random(r);
    for i in 0..2 {
        setup.alloc[i] = r.pick(&[3000, 20_000, 1_000_000]);
    }
    let end = r.pick(&[SEC / 10, SEC, 10 * SEC, 60 * SEC]);
    let plans = (0..2)
        .map(|i| {
            let mut p = Plan::random(r, max_len(&setup, i), r.clone().range(5, 300));
            p.sizes = r.pick(&[1, 2, 3, 4]);
            p
        })
        .collect();
    let links = (0..2).map(|_| if r.chance(0.3) { Link::ideal(5 * MS) } else { Link::faulty(r, end) }).collect();
    let cadence = (0..2).map(|_| Cadence::random(r)).collect();
    let run = Run { setup, links, cadence, plans, fault_end: 0, end };
    describe(ctx, &run);
    let sim = drive(ctx, run, 0, false);
    nontrivial(ctx, &sim);
    ctx.seen(sim.ends.iter().map(|e| e.hc.buffer() as u64).sum());
    sim.finish();
    leak_check(ctx, "pair");
    ctx.nontrivial = true;
}

pub fn c19_scenarios() -> Vec<crate::core::Scenario> {
    vec![sc("receiver", 8_000, 300_000, c19_receiver), sc("pair", 2_000, 60_000, c19_pair)]
}
