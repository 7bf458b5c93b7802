//! C16: the frame codec.

use super::sc;
use crate::core::{lib, Ctx, Property, Rng};
use crate::vlog;
use crate::wire::{self, Dg, Fr, Grp};
use uflow::verif::{self as v, Serialize};

fn to_lib(f: &Fr) -> v::Frame {
    match f.clone() {
        Fr::Syn { version, nonce, rate, packet, alloc } => v::Frame::HandshakeSynFrame(v::HandshakeSynFrame { version, nonce, max_receive_rate: rate, max_packet_size: packet, max_receive_alloc: alloc }),
        Fr::SynAck { nonce_ack, nonce, rate, packet, alloc } => v::Frame::HandshakeSynAckFrame(v::HandshakeSynAckFrame { nonce_ack, nonce, max_receive_rate: rate, max_packet_size: packet, max_receive_alloc: alloc }),
        Fr::Ack3 { nonce_ack } => v::Frame::HandshakeAckFrame(v::HandshakeAckFrame { nonce_ack }),
        Fr::Err { nonce_ack, code } => v::Frame::HandshakeErrorFrame(v::HandshakeErrorFrame {
            nonce_ack,
            error: match code {
                0 => v::HandshakeErrorType::Version,
                1 => v::HandshakeErrorType::Config,
                _ => v::HandshakeErrorType::ServerFull,
            },
        }),
        Fr::Disc => v::Frame::DisconnectFrame(v::DisconnectFrame {}),
        Fr::DiscAck => v::Frame::DisconnectAckFrame(v::DisconnectAckFrame {}),
        Fr::Data { id, nonce, dgs } => v::Frame::DataFrame(v::DataFrame {
            sequence_id: id,
            nonce,
            datagrams: dgs
                .into_iter()
                .map(|d| v::Datagram {
                    sequence_id: d.seq,
                    channel_id: d.chan,
                    window_parent_lead: d.wlead,
                    channel_parent_lead: d.clead,
                    fragment_id: d.frag,
                    fragment_id_last: d.last,
                    data: d.data.into(),
                })
                .collect(),
        }),
        Fr::Sync { frame, packet } => v::Frame::SyncFrame(v::SyncFrame { next_frame_id: frame, next_packet_id: packet }),
        Fr::Ack { fbase, pbase, groups } => v::Frame::AckFrame(v::AckFrame {
            frame_window_base_id: fbase,
            packet_window_base_id: pbase,
            frame_acks: groups.into_iter().map(|g| v::AckGroup { base_id: g.base, bitfield: g.bits, nonce: g.nonce }).collect(),
        }),
    }
}

/// A 32-bit value with the extremes and single bits overrepresented.
fn v32(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 => r.pick(&[0, 1, 0xFF, 0x100, 0xFFFF, 0x10000, 0xFFFFF, 0x100000, 0x7FFFFFFF, 0x80000000, u32::MAX]),
        1 => 1 << r.below(32),
        2 => !(1 << r.below(32)),
        3 => 0x01020304u32.rotate_left(8 * r.below(4) as u32),
        _ => r.u32(),
    }
}

fn v16(r: &mut Rng) -> u16 {
    match r.below(4) {
        0 => r.pick(&[0, 1, 127, 128, 255, 256, 257, 4095, 4096, 32767, 32768, 65535]),
        1 => 1 << r.below(16),
        2 => r.below(300) as u16,
        _ => r.u32() as u16,
    }
}

fn datagram(r: &mut Rng, room: usize) -> Dg {
    let last = if r.chance(0.5) { 0 } else { v16(r) };
    let frag = if last == 0 { 0 } else { r.below(last as u64 + 1) as u16 };
    let len = match r.below(4) {
        0 => r.pick(&[0, 1, 62, 63, 64, 65, 254, 255, 256, 257, 1447, 1448]),
        1 => r.below(70) as usize,
        2 => r.below(300) as usize,
        _ => r.below(1449) as usize,
    };
    let len = len.min(room.saturating_sub(14));
    let mut data = vec![0u8; len];
    for b in &mut data {
        *b = r.u32() as u8;
    }
    Dg { seq: if r.chance(0.3) { 1 << r.below(20) } else { v32(r) & 0xFFFFF }, chan: r.below(64) as u8, wlead: v16(r), clead: v16(r), frag, last, data }
}

fn frame(r: &mut Rng) -> Fr {
    match r.below(14) {
        0 => Fr::Syn { version: r.u32() as u8, nonce: v32(r), rate: v32(r), packet: v32(r), alloc: v32(r) },
        1 => Fr::SynAck { nonce_ack: v32(r), nonce: v32(r), rate: v32(r), packet: v32(r), alloc: v32(r) },
        2 => Fr::Ack3 { nonce_ack: v32(r) },
        3 => Fr::Err { nonce_ack: v32(r), code: r.below(3) as u8 },
        4 => r.pick(&[0, 1]).eq(&0).then_some(Fr::Disc).unwrap_or(Fr::DiscAck),
        5 => Fr::Sync { frame: r.chance(0.5).then(|| v32(r)), packet: r.chance(0.5).then(|| v32(r)) },
        6..=8 => {
            let n = r.pick(&[0, 1, 2, 3, 31, 32, 161]).min(r.below(170) as usize);
            Fr::Ack { fbase: v32(r), pbase: v32(r), groups: (0..n).map(|_| Grp { base: v32(r), bits: v32(r), nonce: r.chance(0.5) }).collect() }
        }
        _ => {
            let mut room = 1472 - 10;
            let n = r.pick(&[0, 1, 2, 5, 127]);
            let small = r.chance(0.3);
            let mut dgs = Vec::new();
            while dgs.len() < n && room >= 14 {
                let d = datagram(r, if small { room.min(14 + 3) } else { room });
                room -= 14 + d.data.len();
                dgs.push(d);
            }
            Fr::Data { id: v32(r), nonce: r.chance(0.5), dgs }
        }
    }
}

/// Some representable frames do not fit 1472 bytes.
fn oversize(r: &mut Rng) -> Fr {
    if r.chance(0.5) {
        let n = r.pick(&[200usize, 255, 256, 257, 1000, 7000]);
        Fr::Ack { fbase: v32(r), pbase: v32(r), groups: (0..n).map(|_| Grp { base: v32(r), bits: v32(r), nonce: r.chance(0.5) }).collect() }
    } else {
        let mut d = datagram(r, 2000);
        d.data = vec![5; r.pick(&[1449, 4000, 40000, 65535])];
        Fr::Data { id: v32(r), nonce: r.chance(0.5), dgs: vec![d] }
    }
}

fn read(b: &[u8]) -> Option<v::Frame> {
    lib(|| v::Frame::read(b))
}

fn kind(f: &Fr) -> &'static str {
    match f {
        Fr::Syn { .. } => "syn",
        Fr::SynAck { .. } => "synack",
        Fr::Ack3 { .. } => "ack3",
        Fr::Err { .. } => "error",
        Fr::Disc => "disconnect",
        Fr::DiscAck => "disconnectack",
        Fr::Data { .. } => "data",
        Fr::Sync { .. } => "sync",
        Fr::Ack { .. } => "ack",
    }
}

fn round(ctx: &mut Ctx) {
    let mut r = ctx.rng.fork();
    for _ in 0..50 {
        let f = if r.chance(0.01) { oversize(&mut r) } else { frame(&mut r) };
        let l = to_lib(&f);
        let bytes = lib(|| l.write());
        ctx.seen_bytes(&bytes);
        let got = read(&bytes);
        if got.as_ref() != Some(&l) {
            ctx.fail(format!("{} frame does not survive: wrote {:?}, read {:?}", kind(&f), short(&l), got.as_ref().map(short)));
            return;
        }
        // What the monitors of this harness read is what was meant
        if wire::parse(&bytes) != Some(f.clone()) {
            ctx.count("frames_in_another_format", 1);
        }
        // The builders used for transmission produce the same frame and announce its size
        match &f {
            Fr::Data { id, nonce, dgs } => {
                let mut b = lib(|| v::DataFrameBuilder::new(*id, *nonce));
                for d in dgs {
                    let d = v::DatagramRef { sequence_id: d.seq, channel_id: d.chan, window_parent_lead: d.wlead, channel_parent_lead: d.clead, fragment_id: d.frag, fragment_id_last: d.last, data: &d.data };
                    let (before, add) = lib(|| (b.size(), v::DataFrameBuilder::encoded_size(&d)));
                    lib(|| b.add(&d));
                    let after = lib(|| b.size());
                    if after != before + add {
                        ctx.fail(format!("data frame of {} bytes grew to {} by a datagram of {} bytes", before, after, add));
                    }
                }
                let size = lib(|| b.size());
                let built = lib(|| b.build());
                if built.len() != size || read(&built).as_ref() != Some(&l) {
                    ctx.fail(format!("data frame of {} bytes (announced {}) does not survive building: {}", built.len(), size, short(&l)));
                }
                ctx.count("datagrams_round_tripped", dgs.len() as u64);
                for d in dgs {
                    ctx.count(["datagrams_micro", "datagrams_small", "datagrams_large"][[6, 9, 14].iter().position(|&h| h == wire::dg_header(d)).unwrap()], 1);
                }
            }
            Fr::Ack { fbase, pbase, groups } => {
                let mut b = lib(|| v::AckFrameBuilder::new(*fbase, *pbase));
                for g in groups {
                    let g = v::AckGroup { base_id: g.base, bitfield: g.bits, nonce: g.nonce };
                    let before = lib(|| b.size() + v::AckFrameBuilder::encoded_size(&g));
                    lib(|| b.add(&g));
                    if lib(|| b.size()) != before {
                        ctx.fail("ack frame grew by another size than announced");
                    }
                }
                let size = lib(|| b.size());
                let built = lib(|| b.build());
                if built.len() != size || read(&built).as_ref() != Some(&l) {
                    ctx.fail(format!("ack frame of {} bytes (announced {}) does not survive building", built.len(), size));
                }
            }
            _ => (),
        }
        // Truncated or extended, with or without a matching checksum
        let body = &bytes[..bytes.len() - 4];
        let cut = r.below(bytes.len() as u64) as usize;
        let mut longer = bytes.to_vec();
        longer.push(r.u32() as u8);
        for b in [&bytes[..cut], &longer[..]] {
            if read(b).is_some() {
                ctx.fail(format!("{} frame accepted at {} instead of {} bytes", kind(&f), b.len(), bytes.len()));
            }
        }
        let mut cuts = vec![0, 1, body.len() - 1, r.below(body.len() as u64) as usize];
        cuts.retain(|c| *c < body.len());
        for c in cuts {
            let t = resealed(body[..c].to_vec());
            judge(ctx, &t, "truncated");
        }
        for n in [1usize, 2, 9, r.range(1, 40) as usize] {
            let mut b = body.to_vec();
            for _ in 0..n {
                b.push(if r.chance(0.5) { 0 } else { r.u32() as u8 });
            }
            judge(ctx, &resealed(b), "extended");
        }
        ctx.count(match kind(&f) {
            "syn" => "syn_frames",
            "synack" => "synack_frames",
            "ack3" => "handshake_ack_frames",
            "error" => "error_frames",
            "data" => "data_frames",
            "sync" => "sync_frames",
            "ack" => "ack_frames",
            _ => "disconnect_frames",
        }, 1);
        if ctx.failed() {
            vlog!(ctx, "{:?}", f);
            return;
        }
    }
    ctx.nontrivial = true;
}

fn short(f: &v::Frame) -> String {
    let s = format!("{:?}", f);
    if s.len() > 300 {
        format!("{} ...", &s[..300])
    } else {
        s
    }
}

/// With the checksum of the library, so that only the structure is judged.
fn resealed(body: Vec<u8>) -> Vec<u8> {
    let c = lib(|| v::crc_compute(&body));
    let mut b = body;
    b.extend_from_slice(&c.to_be_bytes());
    b
}

/// Whether acceptance of a well-sized frame is up to the implementation: padding, non-minimal headers, fragment ids
/// beyond the last.
fn unspecified(f: &Fr, bytes: &[u8]) -> bool {
    match f {
        Fr::Syn { .. } => bytes[18..bytes.len() - 4].iter().any(|b| *b != 0),
        Fr::Data { dgs, .. } => bytes.len() > 1472 || dgs.iter().any(|d| d.frag > d.last) || wire::write(f).len() != bytes.len(),
        Fr::Ack { .. } => bytes.len() > 1472,
        _ => false,
    }
}

/// Compares acceptance with the reference parser.
fn judge(ctx: &mut Ctx, bytes: &[u8], how: &'static str) {
    let got = read(bytes);
    let mut reserved = false;
    let want = if bytes.len() < 5 { None } else { wire::parse_body(&bytes[..bytes.len() - 4], &mut reserved) };
    match (&got, &want) {
        (Some(g), None) => ctx.fail(format!("{} bytes ({}) are not a frame but were accepted as {}: {:02x?}", bytes.len(), how, short(g), &bytes[..bytes.len().min(40)])),
        (Some(g), Some(w)) => {
            if *g != to_lib(w) {
                ctx.fail(format!("{} bytes ({}) were read as {} instead of {}", bytes.len(), how, short(g), short(&to_lib(w))));
            }
            ctx.count("malformed_candidates_accepted", 1);
        }
        (None, Some(w)) => {
            if !reserved && !unspecified(w, bytes) {
                ctx.fail(format!("{} bytes ({}) are a frame but were rejected: {}", bytes.len(), how, short(&to_lib(w))));
            }
        }
        (None, None) => ctx.count("malformed_rejected", 1),
    }
}

fn garbage(ctx: &mut Ctx) {
    let mut r = ctx.rng.fork();
    for _ in 0..100 {
        let body: Vec<u8> = match r.below(4) {
            0 => {
                // Nothing but noise, mostly with a known type
                let n = r.pick(&[0usize, 1, 2, 4, 5, 6, 9, 10, 14, 20, 21, 25, 100, 1467, 1468, 1469, 3000]);
                let n = if r.chance(0.5) { n } else { r.below(1600) as usize };
                let mut b: Vec<u8> = (0..n).map(|_| r.u32() as u8).collect();
                if n > 0 && r.chance(0.9) {
                    b[0] = r.pick(&[0, 1, 2, 3, 4, 5, 6, 9, 10, 10, 10, 11, 12, 12, 13, 255]);
                }
                if n > 5 && b[0] == 10 && r.chance(0.7) {
                    b[5] = b[5] & 0x80 | r.below(6) as u8;
                }
                b
            }
            1 | 2 => {
                // A frame with some bytes changed, inserted or removed
                let f = frame(&mut r);
                let mut b = wire::write(&f);
                b.truncate(b.len() - 4);
                for _ in 0..r.range(1, 3) {
                    if b.is_empty() {
                        break;
                    }
                    let head = b.len().min(30) as u64;
                    let i = if r.chance(0.7) { r.below(head) } else { r.below(b.len() as u64) } as usize;
                    match r.below(4) {
                        0 => b[i] ^= 1 << r.below(8),
                        1 => b[i] = r.u32() as u8,
                        2 => b.insert(i, r.u32() as u8),
                        _ => {
                            b.remove(i);
                        }
                    }
                }
                b
            }
            _ => {
                // Header lengths which disagree with the contents
                let mut b = vec![10];
                b.extend_from_slice(&v32(&mut r).to_be_bytes());
                let n = r.below(5) as u8;
                b.push(n | (r.below(2) as u8) << 7);
                for _ in 0..n {
                    let d = datagram(&mut r, 200);
                    let h = r.pick(&[6, 9, 14]);
                    let at = b.len();
                    wire::write_dg_as(&mut b, &d, h);
                    if r.chance(0.3) {
                        let k = if h == 14 { at + 1 + r.below(2) as usize } else if h == 9 { at + 1 } else { at };
                        b[k] = b[k].wrapping_add(r.pick(&[1, 255, 16, 128]));
                    }
                }
                b
            }
        };
        let b = resealed(body);
        judge(ctx, &b, "sealed garbage");
        ctx.seen_bytes(&b);
        // Arbitrary bytes without a checksum
        if r.chance(0.2) {
            let n = r.below(64) as usize;
            let raw: Vec<u8> = (0..n).map(|_| r.u32() as u8).collect();
            if read(&raw).is_some() && (n < 5 || lib(|| v::crc_compute(&raw[..n - 4])).to_be_bytes() != raw[n - 4..]) {
                ctx.fail(format!("{} arbitrary bytes were accepted: {:02x?}", n, raw));
            }
            ctx.count("arbitrary_bytes", 1);
        }
        ctx.count("garbage_frames", 1);
        if ctx.failed() {
            return;
        }
    }
    ctx.nontrivial = true;
}

fn flip(b: &mut [u8], bit: usize) {
    b[bit / 8] ^= 1 << (bit % 8);
}

/// Flips up to four bits of actual frames.
fn flips(ctx: &mut Ctx) {
    let mut r = ctx.rng.fork();
    let f = loop {
        let f = frame(&mut r);
        if r.chance(0.3) || !matches!(f, Fr::Disc | Fr::DiscAck | Fr::Ack3 { .. } | Fr::Err { .. } | Fr::Sync { .. } | Fr::SynAck { .. }) {
            break f;
        }
    };
    let mut b = lib(|| to_lib(&f).write()).to_vec();
    let n = b.len() * 8;
    ctx.desc = format!("{} frame of {} bytes", kind(&f), b.len());
    let try_bits = |ctx: &mut Ctx, b: &mut Vec<u8>, bits: &[usize]| {
        for &x in bits {
            flip(b, x);
        }
        let got = read(b);
        if got.is_some() {
            ctx.fail(format!("{} frame of {} bytes accepted with bits {:?} flipped", kind(&f), b.len(), bits));
        }
        for &x in bits {
            flip(b, x);
        }
    };
    for i in 0..n {
        try_bits(ctx, &mut b, &[i]);
    }
    ctx.count("single_flips", n as u64);
    // Short frames are done exhaustively for two flips
    if n <= 14 * 8 {
        for i in 0..n {
            for j in 0..i {
                try_bits(ctx, &mut b, &[i, j]);
            }
        }
        ctx.count("pairs_exhausted", (n * (n - 1) / 2) as u64);
    }
    for k in 0..3000u64 {
        let w = 2 + (k % 3) as usize;
        let mut bits = Vec::new();
        let near = r.chance(0.5);
        let start = r.below(n as u64) as usize;
        while bits.len() < w {
            let x = match r.below(6) {
                // The type byte, the checksum, or the vicinity
                0 => r.below(8) as usize,
                1 => n - 1 - r.below(32) as usize,
                _ if near => (start + r.below(40) as usize).min(n - 1),
                _ => r.below(n as u64) as usize,
            };
            if !bits.contains(&x) {
                bits.push(x);
            }
        }
        try_bits(ctx, &mut b, &bits);
    }
    ctx.count("multiple_flips", 3000);
    if read(&b).is_none() {
        ctx.fail("the unaltered frame was rejected");
    }
    ctx.seen_bytes(&b);
    ctx.nontrivial = true;
}

/// All patterns of up to four bits of a frame of maximum size: the checksum is affine, so that each bit contributes a
/// fixed syndrome, and a pattern goes unnoticed if its syndromes cancel out.
fn syndromes(ctx: &mut Ctx) {
    const N: usize = 1472;
    let mut r = ctx.rng.fork();
    let crc = |b: &[u8]| lib(|| v::crc_compute(b));
    let body = vec![0u8; N - 4];
    let zero = crc(&body);
    let mut s: Vec<u32> = Vec::with_capacity(N * 8);
    {
        let mut b = body.clone();
        for i in 0..(N - 4) * 8 {
            flip(&mut b, i);
            s.push(crc(&b) ^ zero);
            flip(&mut b, i);
        }
    }
    for i in 0..32 {
        let mut c = [0u8; 4];
        flip(&mut c, i);
        s.push(u32::from_be_bytes(c));
    }
    // The checksum is affine, for frames of any content and (counting from the end) of any size
    for _ in 0..5_000 {
        let len = r.range(1, (N - 4) as u64) as usize;
        let mut b: Vec<u8> = (0..len).map(|_| r.u32() as u8).collect();
        let before = crc(&b);
        let mut want = before;
        for _ in 0..r.range(1, 4) {
            let i = r.below(len as u64 * 8) as usize;
            flip(&mut b, i);
            want ^= s[(N - 4 - len) * 8 + i];
        }
        if crc(&b) != want {
            // Then the enumeration below says nothing, and sampling has to do
            ctx.count("checksum_not_affine", 1);
            ctx.nontrivial = true;
            return;
        }
    }
    ctx.count("checksums_found_affine", 5_000);
    let mut bits = vec![0u64; 1 << 26];
    let mut found: Option<u32> = None;
    let mut mark = |x: u32| -> bool {
        let (w, m) = ((x >> 6) as usize, 1u64 << (x & 63));
        let was = bits[w] & m != 0;
        bits[w] |= m;
        was
    };
    mark(0);
    for &x in &s {
        if mark(x) {
            found.get_or_insert(x);
        }
    }
    let mut pairs = 0u64;
    'all: for i in 0..s.len() {
        for j in 0..i {
            pairs += 1;
            if mark(s[i] ^ s[j]) {
                found = Some(s[i] ^ s[j]);
                break 'all;
            }
        }
    }
    ctx.count("syndrome_pairs", pairs);
    ctx.nontrivial = true;
    ctx.seen(pairs);
    let Some(x) = found else {
        ctx.count("patterns_excluded_to_weight_4", 1);
        return;
    };
    // Show a frame for which it goes unnoticed
    let mut sets: Vec<Vec<usize>> = Vec::new();
    if x == 0 {
        sets.push(Vec::new());
    }
    for i in 0..s.len() {
        if s[i] == x {
            sets.push(vec![i]);
        }
        for j in 0..i {
            if s[i] ^ s[j] == x {
                sets.push(vec![i, j]);
            }
        }
    }
    // Differences which are one pattern and contain no bit of the type byte
    for a in 0..sets.len() {
        for b in 0..a {
            let mut p = sets[a].clone();
            for &y in &sets[b] {
                if let Some(k) = p.iter().position(|&z| z == y) {
                    p.remove(k);
                } else {
                    p.push(y);
                }
            }
            if p.is_empty() || p.len() > 4 {
                continue;
            }
            let d = Fr::Data { id: 5, nonce: false, dgs: vec![Dg { seq: 1, chan: 2, wlead: 0, clead: 0, frag: 0, last: 1, data: vec![9; 1448] }] };
            let syn = Fr::Syn { version: 3, nonce: 1, rate: 2, packet: 3, alloc: 4 };
            for f in [d, syn] {
                let mut bytes = lib(|| to_lib(&f).write()).to_vec();
                for &i in &p {
                    flip(&mut bytes, i);
                }
                if read(&bytes).is_some() {
                    ctx.fail(format!("{} frame of {} bytes accepted with bits {:?} flipped", kind(&f), bytes.len(), p));
                    return;
                }
            }
        }
    }
    ctx.count("collisions_without_consequence", 1);
}

pub fn c16() -> Property {
    Property {
        id: "C16",
        rule: "a case is a batch of frames, damaged frames or garbage; cases are distinct if the bytes differ",
        scenarios: vec![
            sc("round", 20_000, 1_000_000, round),
            sc("garbage", 30_000, 1_500_000, garbage),
            sc("flips", 600, 20_000, flips),
            sc("syndromes", 1, 1, syndromes),
        ],
        floors: &[
            ("data_frames", 10_000),
            ("ack_frames", 5_000),
            ("syn_frames", 1_000),
            ("sync_frames", 1_000),
            ("error_frames", 1_000),
            ("datagrams_micro", 5_000),
            ("datagrams_small", 5_000),
            ("datagrams_large", 5_000),
            ("malformed_rejected", 100_000),
            ("malformed_candidates_accepted", 10_000),
            ("single_flips", 500_000),
            ("multiple_flips", 500_000),
        ],
    }
}
