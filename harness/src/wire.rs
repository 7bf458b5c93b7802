//! Independent reference codec for the uflow wire format, used to read what the library emits and to craft frames.

#[derive(Clone, Debug, PartialEq)]
pub struct Dg {
    pub seq: u32,
    pub chan: u8,
    pub wlead: u16,
    pub clead: u16,
    pub frag: u16,
    pub last: u16,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Grp {
    pub base: u32,
    pub bits: u32,
    pub nonce: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fr {
    Syn { version: u8, nonce: u32, rate: u32, packet: u32, alloc: u32 },
    SynAck { nonce_ack: u32, nonce: u32, rate: u32, packet: u32, alloc: u32 },
    Ack3 { nonce_ack: u32 },
    Err { nonce_ack: u32, code: u8 },
    Disc,
    DiscAck,
    Data { id: u32, nonce: bool, dgs: Vec<Dg> },
    Sync { frame: Option<u32>, packet: Option<u32> },
    Ack { fbase: u32, pbase: u32, groups: Vec<Grp> },
}

pub const MAX_FRAME: usize = 1472;
pub const FRAG: usize = 1448;

const fn make_table() -> [[u32; 256]; 1] {
    let mut t = [[0u32; 256]; 1];
    let mut i = 0;
    while i < 256 {
        let mut r = i as u32;
        let mut k = 0;
        while k < 8 {
            r = if r & 1 != 0 { (r >> 1) ^ 0x9960034C } else { r >> 1 };
            k += 1;
        }
        t[0][i] = r;
        i += 1;
    }
    t
}

static TABLE: [[u32; 256]; 1] = make_table();

/// The checksum used by the protocol: reflected CRC-32 with polynomial 0x132c00699, bytewise composed.
pub fn crc(data: &[u8]) -> u32 {
    // Each byte step of the protocol is reg = !step(!reg ^ byte), see the reference loop in crc.rs
    let mut reg = !0u32;
    for &b in data {
        reg = (reg >> 8) ^ TABLE[0][(reg as u8 ^ b) as usize];
    }
    !reg
}

pub fn seal(mut bytes: Vec<u8>) -> Vec<u8> {
    let c = crc(&bytes);
    bytes.extend_from_slice(&c.to_be_bytes());
    bytes
}

fn p32(v: &mut Vec<u8>, x: u32) {
    v.extend_from_slice(&x.to_be_bytes());
}

pub fn dg_header(d: &Dg) -> usize {
    if d.last == 0 && d.frag == 0 && d.data.len() < 64 && d.wlead < 128 && d.clead < 256 {
        6
    } else if d.last == 0 && d.frag == 0 && d.data.len() < 256 {
        9
    } else {
        14
    }
}

pub fn write_dg(v: &mut Vec<u8>, d: &Dg) {
    write_dg_as(v, d, dg_header(d));
}

/// Writes a datagram in the encoding with the given header size (fields are truncated as necessary).
pub fn write_dg_as(v: &mut Vec<u8>, d: &Dg, header: usize) {
    let n = d.data.len();
    match header {
        6 => {
            v.push((n as u8 & 0x3F) | ((d.chan >> 4) & 1) << 6);
            v.push((((d.seq >> 16) as u8) & 0xF) << 4 | (d.chan & 0xF));
            v.push((d.seq >> 8) as u8);
            v.push(d.seq as u8);
            v.push((d.wlead as u8 & 0x7F) | ((d.chan >> 5) & 1) << 7);
            v.push(d.clead as u8);
        }
        9 => {
            v.push(0x80 | (d.chan & 0x3F));
            v.push(n as u8);
            v.push((d.seq >> 16) as u8 & 0xF);
            v.push((d.seq >> 8) as u8);
            v.push(d.seq as u8);
            v.extend_from_slice(&d.wlead.to_be_bytes());
            v.extend_from_slice(&d.clead.to_be_bytes());
        }
        _ => {
            v.push(0xC0 | (d.chan & 0x3F));
            v.extend_from_slice(&(n as u16).to_be_bytes());
            v.push((d.seq >> 16) as u8 & 0xF);
            v.push((d.seq >> 8) as u8);
            v.push(d.seq as u8);
            v.extend_from_slice(&d.wlead.to_be_bytes());
            v.extend_from_slice(&d.clead.to_be_bytes());
            v.extend_from_slice(&d.frag.to_be_bytes());
            v.extend_from_slice(&d.last.to_be_bytes());
        }
    }
    v.extend_from_slice(&d.data);
}

pub fn write(f: &Fr) -> Vec<u8> {
    let mut v = Vec::with_capacity(64);
    match f {
        Fr::Syn { version, nonce, rate, packet, alloc } => {
            v.push(0);
            v.push(*version);
            for x in [nonce, rate, packet, alloc] {
                p32(&mut v, *x);
            }
            v.resize(MAX_FRAME - 4, 0);
        }
        Fr::SynAck { nonce_ack, nonce, rate, packet, alloc } => {
            v.push(1);
            for x in [nonce_ack, nonce, rate, packet, alloc] {
                p32(&mut v, *x);
            }
        }
        Fr::Ack3 { nonce_ack } => {
            v.push(2);
            p32(&mut v, *nonce_ack);
        }
        Fr::Err { nonce_ack, code } => {
            v.push(3);
            p32(&mut v, *nonce_ack);
            v.push(*code);
        }
        Fr::Disc => v.push(4),
        Fr::DiscAck => v.push(5),
        Fr::Data { id, nonce, dgs } => {
            v.push(10);
            p32(&mut v, *id);
            v.push((*nonce as u8) << 7 | dgs.len() as u8);
            for d in dgs {
                write_dg(&mut v, d);
            }
        }
        Fr::Sync { frame, packet } => {
            v.push(11);
            v.push(frame.is_some() as u8 | (packet.is_some() as u8) << 1);
            p32(&mut v, frame.unwrap_or(0));
            p32(&mut v, packet.unwrap_or(0));
        }
        Fr::Ack { fbase, pbase, groups } => {
            v.push(12);
            p32(&mut v, *fbase);
            p32(&mut v, *pbase);
            v.extend_from_slice(&(groups.len() as u16).to_be_bytes());
            for g in groups {
                p32(&mut v, g.base);
                p32(&mut v, g.bits);
                v.push(g.nonce as u8);
            }
        }
    }
    seal(v)
}

fn g32(b: &[u8], at: usize) -> u32 {
    u32::from_be_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]])
}

fn g16(b: &[u8], at: usize) -> u16 {
    u16::from_be_bytes([b[at], b[at + 1]])
}

fn read_dg(b: &[u8], reserved: &mut bool) -> Option<(Dg, usize)> {
    if b.len() < 6 {
        return None;
    }
    if b[0] < 0x80 {
        let n = (b[0] & 0x3F) as usize;
        if b.len() < 6 + n {
            return None;
        }
        let chan = (b[1] & 0xF) | ((b[0] >> 6) & 1) << 4 | (b[4] >> 7) << 5;
        let seq = ((b[1] >> 4) as u32) << 16 | (b[2] as u32) << 8 | b[3] as u32;
        let d = Dg {
            seq,
            chan,
            wlead: (b[4] & 0x7F) as u16,
            clead: b[5] as u16,
            frag: 0,
            last: 0,
            data: b[6..6 + n].to_vec(),
        };
        Some((d, 6 + n))
    } else if b[0] < 0xC0 {
        if b.len() < 9 {
            return None;
        }
        let n = b[1] as usize;
        if b.len() < 9 + n {
            return None;
        }
        if b[2] & 0xF0 != 0 {
            *reserved = true;
        }
        let seq = ((b[2] & 0xF) as u32) << 16 | (b[3] as u32) << 8 | b[4] as u32;
        let d = Dg {
            seq,
            chan: b[0] & 0x3F,
            wlead: g16(b, 5),
            clead: g16(b, 7),
            frag: 0,
            last: 0,
            data: b[9..9 + n].to_vec(),
        };
        Some((d, 9 + n))
    } else {
        if b.len() < 14 {
            return None;
        }
        let n = g16(b, 1) as usize;
        if b.len() < 14 + n {
            return None;
        }
        if b[3] & 0xF0 != 0 {
            *reserved = true;
        }
        let seq = ((b[3] & 0xF) as u32) << 16 | (b[4] as u32) << 8 | b[5] as u32;
        let d = Dg {
            seq,
            chan: b[0] & 0x3F,
            wlead: g16(b, 6),
            clead: g16(b, 8),
            frag: g16(b, 10),
            last: g16(b, 12),
            data: b[14..14 + n].to_vec(),
        };
        Some((d, 14 + n))
    }
}

/// Parses a frame body, i.e. everything but the trailing checksum. `reserved` is set if bits without a meaning are
/// set, in which case acceptance is not specified.
pub fn parse_body(b: &[u8], reserved: &mut bool) -> Option<Fr> {
    if b.is_empty() {
        return None;
    }
    let p = &b[1..];
    match b[0] {
        0 => {
            if b.len() != MAX_FRAME - 4 {
                return None;
            }
            Some(Fr::Syn { version: p[0], nonce: g32(p, 1), rate: g32(p, 5), packet: g32(p, 9), alloc: g32(p, 13) })
        }
        1 => {
            if p.len() != 20 {
                return None;
            }
            Some(Fr::SynAck { nonce_ack: g32(p, 0), nonce: g32(p, 4), rate: g32(p, 8), packet: g32(p, 12), alloc: g32(p, 16) })
        }
        2 => (p.len() == 4).then(|| Fr::Ack3 { nonce_ack: g32(p, 0) }),
        3 => (p.len() == 5 && p[4] < 3).then(|| Fr::Err { nonce_ack: g32(p, 0), code: p[4] }),
        4 => p.is_empty().then_some(Fr::Disc),
        5 => p.is_empty().then_some(Fr::DiscAck),
        10 => {
            if p.len() < 5 {
                return None;
            }
            let mut at = 5;
            let mut dgs = Vec::new();
            for _ in 0..p[4] & 0x7F {
                let (d, n) = read_dg(&p[at..], reserved)?;
                at += n;
                dgs.push(d);
            }
            (at == p.len()).then(|| Fr::Data { id: g32(p, 0), nonce: p[4] >> 7 != 0, dgs })
        }
        11 => {
            if p.len() != 9 {
                return None;
            }
            if p[0] > 3 || (p[0] & 1 == 0 && g32(p, 1) != 0) || (p[0] & 2 == 0 && g32(p, 5) != 0) {
                *reserved = true;
            }
            Some(Fr::Sync {
                frame: (p[0] & 1 != 0).then(|| g32(p, 1)),
                packet: (p[0] & 2 != 0).then(|| g32(p, 5)),
            })
        }
        12 => {
            if p.len() < 10 {
                return None;
            }
            let n = g16(p, 8) as usize;
            if p.len() != 10 + 9 * n {
                return None;
            }
            let groups = (0..n)
                .map(|i| {
                    let at = 10 + 9 * i;
                    if p[at + 8] > 1 {
                        *reserved = true;
                    }
                    Grp { base: g32(p, at), bits: g32(p, at + 4), nonce: p[at + 8] != 0 }
                })
                .collect();
            Some(Fr::Ack { fbase: g32(p, 0), pbase: g32(p, 4), groups })
        }
        _ => None,
    }
}

/// Parses a frame emitted by the library (the checksum is not looked at).
pub fn parse(b: &[u8]) -> Option<Fr> {
    if b.len() < 5 {
        return None;
    }
    parse_body(&b[..b.len() - 4], &mut false)
}

pub const PSPAN: u32 = 1 << 20;
pub const PMASK: u32 = PSPAN - 1;

pub fn psub(a: u32, b: u32) -> u32 {
    a.wrapping_sub(b) & PMASK
}

pub fn padd(a: u32, b: u32) -> u32 {
    a.wrapping_add(b) & PMASK
}

/// What a receiver accounts for a packet of the given size.
pub fn alloc_size(n: usize) -> usize {
    if n <= FRAG {
        n
    } else {
        n.div_ceil(FRAG) * FRAG
    }
}
