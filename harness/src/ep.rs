//! Real `Client` and `Server` objects on a virtual network, with monitors of what both applications and the wire see.

use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap, HashMap, HashSet};
use std::net::SocketAddr;

use uflow::client::{self, Client};
use uflow::server::{self, Server};
use uflow::verif as v;
use uflow::{EndpointConfig, SendMode};

use crate::alloc;
use crate::core::{lib, Ctx, Rng};
use crate::hc::{age, brief, set_now, young, Cadence, Dir, Link, Plan, LIMITS, MS, RATE, SEC};
use crate::vlog;
use crate::wire::{self, psub, Fr, PMASK};

pub type Addr = SocketAddr;

// What is judged at this level; the Dir flags of hc.rs select the monitors of packet traffic
pub const HAND: u32 = 1; // C07
pub const EVENTS: u32 = 2; // C08
pub const CLOSE: u32 = 4; // C09
pub const TIMERS: u32 = 8; // C10
pub const CAPS: u32 = 16; // C17
pub const AMP: u32 = 32; // C18
pub const IDLE_OK: u32 = 64; // C10: the network is loss-free and keepalive is on, so nothing may time out

pub const BUDGET: u64 = 22 * SEC;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum End {
    Disconnect,
    Timeout,
    Version,
    Config,
    Full,
    /// Ended by the application without an event
    Silent,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Req {
    Flush,
    Now,
    /// disconnect() after disconnect_now(): which of the two prevails is not specified
    Mixed,
}

/// One connection (or connection attempt) as one of its two endpoints sees it.
pub struct Watch {
    pub name: String,
    pub timeout: u64,
    pub born: u64,
    pub connected: Option<u64>,
    pub ended: Option<(u64, End)>,
    pub req: Option<(u64, Req)>,
    /// Reliable packets submitted before disconnect()
    pub need: Vec<u32>,
    /// Empty Reliable packets submitted before disconnect()
    pub need_empty: u64,
    /// When the endpoint last transmitted an answer to a disconnect request
    pub answered: Option<u64>,
    /// Disconnect requests of the peer which were read and not answered
    pub deaf: u64,
    pub disc: Vec<u64>,
    /// Transmissions of the SYN (client) or SYN-ACK (server)
    pub opens: Vec<u64>,
    /// Arrival of the newest data, sync or ack frame the endpoint has read
    pub last_in: u64,
    /// When the endpoint last read any frame from the peer
    pub last_any: u64,
    pub last_step: u64,
    pub max_gap: u64,
    pub received: u64,
    pub acks_seen: HashSet<u32>,
    pub first_data: bool,
    pub first_ack: bool,
    /// The buffer was seen empty at this time and has been since
    pub empty_since: Option<u64>,
    /// Following the frames and packets transmitted so far
    pub frame_next: Option<u32>,
    pub pkt_next: Option<u32>,
}

impl Watch {
    fn new(name: String, timeout_ms: u64, now: u64) -> Self {
        Watch {
            name,
            timeout: timeout_ms.saturating_mul(MS),
            born: now,
            connected: None,
            ended: None,
            req: None,
            need: Vec::new(),
            need_empty: 0,
            answered: None,
            deaf: 0,
            disc: Vec::new(),
            opens: Vec::new(),
            last_in: now,
            last_any: now,
            last_step: now,
            max_gap: 0,
            received: 0,
            acks_seen: HashSet::new(),
            first_data: false,
            first_ack: false,
            empty_since: None,
            frame_next: None,
            pkt_next: None,
        }
    }

    fn packets_up_to(&mut self, own: u32, next: u32) {
        let cur = self.pkt_next.unwrap_or(own & PMASK);
        if psub(next, cur) < 1 << 19 {
            self.pkt_next = Some(next);
        }
    }

    pub fn active(&self) -> bool {
        self.connected.is_some() && self.ended.is_none() && self.disc.is_empty()
    }

    pub fn live(&self) -> bool {
        self.connected.is_some() && self.ended.is_none()
    }

    fn stepped(&mut self, now: u64) {
        self.max_gap = self.max_gap.max(now - self.last_step);
        self.last_step = now;
    }

    /// A disconnect request of the peer was read in a step whose output has been looked at.
    fn on_request(&mut self, ctx: &mut Ctx, now: u64) {
        let known = match self.ended {
            None => self.connected.is_some(),
            // A connection closed by the peer is remembered for as long as the peer may ask again
            Some((t, End::Disconnect)) => self.disc.is_empty() && now < t + 15 * SEC,
            _ => false,
        };
        if known {
            if self.answered == Some(now) {
                ctx.count("requests_answered", 1);
            } else {
                self.deaf += 1;
            }
        }
    }

    fn slack(&self) -> u64 {
        12 * self.max_gap + 10 * MS
    }

    /// The endpoint has transmitted a frame which is resent on a timer.
    fn on_timer_frame(ctx: &mut Ctx, on: u32, name: &str, what: &str, times: &mut Vec<u64>, now: u64) {
        if on & TIMERS != 0 {
            if let Some(&t) = times.last() {
                if now - t + 2 * MS < 2 * SEC {
                    ctx.fail(format!("{}: {} resent after {} ms", name, what, (now - t) / MS));
                }
            }
            if times.len() >= 11 {
                ctx.fail(format!("{}: {} transmitted more than 11 times", name, what));
            }
            ctx.count("handshake_and_disconnect_transmissions", 1);
        }
        times.push(now);
    }

    /// A terminal event caused by a timer.
    fn judge_timeout(&self, ctx: &mut Ctx, on: u32, now: u64) {
        if on & TIMERS == 0 {
            return;
        }
        if self.connected.is_none() {
            if now + 2 * MS < self.born + BUDGET || self.opens.len() != 11 {
                ctx.fail(format!("{}: handshake timed out after {} ms and {} transmissions", self.name, (now - self.born) / MS, self.opens.len()));
            }
            ctx.count("handshake_timeouts", 1);
        } else if let Some(&t) = self.disc.first() {
            if now + 2 * MS < t + BUDGET || self.disc.len() != 11 {
                ctx.fail(format!("{}: disconnect timed out after {} ms and {} transmissions", self.name, (now - t) / MS, self.disc.len()));
            }
            ctx.count("disconnect_timeouts", 1);
        } else {
            let silence = now - self.last_in;
            if silence.saturating_add(2 * MS) < self.timeout {
                ctx.fail(format!("{}: timed out although a frame from the peer arrived {} ms earlier (timeout {} ms)", self.name, silence / MS, self.timeout / MS));
            }
            ctx.count("silence_timeouts", 1);
            if on & IDLE_OK != 0 {
                ctx.fail(format!("{}: timed out after {} s on a loss-free network with keepalive", self.name, now / SEC));
            }
        }
    }

    /// Called after each step of the endpoint.
    fn overdue(&mut self, ctx: &mut Ctx, on: u32, now: u64, reports_handshake: bool) {
        if self.ended.is_some() {
            return;
        }
        if on & TIMERS != 0 {
            if self.connected.is_none() {
                if reports_handshake && now > self.born + BUDGET + self.slack() {
                    ctx.fail(format!("{}: handshake still pending after {} ms", self.name, (now - self.born) / MS));
                }
            } else if self.disc.is_empty() && now - self.last_any >= self.timeout.saturating_add(2 * MS) {
                ctx.fail(format!("{}: not timed out after {} ms of silence (timeout {} ms)", self.name, (now - self.last_any) / MS, self.timeout / MS));
            }
        }
        if on & (TIMERS | CLOSE) != 0 {
            if let Some(&t) = self.disc.first() {
                if now > t + BUDGET + self.slack() {
                    ctx.fail(format!("{}: no terminal event {} ms after the disconnect request was first transmitted", self.name, (now - t) / MS));
                }
            }
        }
    }
}

pub struct Cli {
    pub c: Option<Client>,
    pub addr: Addr,
    pub cfg: EndpointConfig,
    pub nonce: u32,
    /// Nonce of the SYN-ACK the client acted upon
    pub accepted: Option<u32>,
    pub w: Watch,
    pub tx: Dir,
    pub cadence: Cadence,
    pub stepping: bool,
    pub plan: Option<Plan>,
}

pub struct Sess {
    pub n: u32,
    pub s: u32,
    pub w: Watch,
    pub tx: Dir,
    pub plan: Option<Plan>,
    /// Whether the server's application will learn about the failure of the handshake
    pub reported: bool,
}

#[derive(PartialEq, Eq, PartialOrd, Ord)]
enum Ev {
    Arrive(Addr, Addr, Vec<u8>),
    FlushC(usize),
    FlushS,
    TickC(usize),
    TickS,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Who {
    Client(usize),
    Server,
}

#[derive(Default, Clone)]
pub struct Meter {
    pub sent: u64,
    pub got: u64,
    pub verified: bool,
}

pub struct Shadow {
    pub src: Addr,
    pub at: u64,
    pub data: Vec<u8>,
}

pub struct World {
    pub now: u64,
    pub on: u32,
    pub dirs_on: u32,
    pub server: Option<Server>,
    pub saddr: Addr,
    pub scfg: server::Config,
    pub scadence: Cadence,
    pub sgap: u64,
    slast: u64,
    pub sess: BTreeMap<Addr, Vec<Sess>>,
    pub clis: Vec<Cli>,
    pub by_addr: HashMap<Addr, usize>,
    pub links: HashMap<(Addr, Addr), Link>,
    pub link: Link,
    /// Datagrams which arrived at addresses played by the harness
    pub raw: BTreeMap<Addr, Vec<(u64, Vec<u8>)>>,
    pub raws: HashSet<Addr>,
    shadow: HashMap<Addr, Vec<Shadow>>,
    pub meters: BTreeMap<Addr, Meter>,
    /// When an address which is no longer tracked ended for the application
    pub gone: HashMap<Addr, u64>,
    pub plans: Option<(Plan, Plan)>,
    /// Recent handshake and disconnect frames, for replay
    pub old: Vec<(Addr, Addr, Vec<u8>)>,
    pub keep_old: bool,
    /// Packets are submitted as they are, without marks by which to recognise them
    pub plain: bool,
    q: BinaryHeap<Reverse<(u64, u64, Ev)>>,
    restarts: Vec<(Addr, usize)>,
    serial: u64,
    pub rng: Rng,
    salt: u64,
    stopped: bool,
}

pub fn endpoint(r: &mut Rng) -> EndpointConfig {
    let alloc = r.pick(&[1449usize, 10_000, 100_000, 1_000_000, 1_000_000]);
    EndpointConfig {
        max_send_rate: r.pick(&[10_000usize, 100_000, 2_000_000, 2_000_000, 50_000_000, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX]),
        max_receive_rate: r.pick(&[10_000usize, 100_000, 2_000_000, 2_000_000, 50_000_000, u32::MAX as usize, u32::MAX as usize + 5000, usize::MAX]),
        max_packet_size: 0,
        max_receive_alloc: alloc,
        keepalive: r.chance(0.6),
        keepalive_interval_ms: r.pick(&[2000, 5000]),
        active_timeout_ms: 20_000,
    }
}

/// Makes the packet size limits of two endpoints acceptable to each other.
pub fn agree(a: &mut EndpointConfig, b: &mut EndpointConfig, r: &mut Rng) {
    a.max_packet_size = b.max_receive_alloc.min(if r.chance(0.5) { 60_000 } else { 1_000_000 });
    b.max_packet_size = a.max_receive_alloc.min(if r.chance(0.5) { 60_000 } else { 1_000_000 });
}

fn ceil_of(send: usize, recv: u32) -> f64 {
    (send as f64).min(recv as f64)
}

pub fn chunk32(x: usize) -> u32 {
    x.min(u32::MAX as usize) as u32
}

/// What the library makes of a datagram it reads.
pub fn accept(bytes: &[u8]) -> Option<Fr> {
    let b = &bytes[..bytes.len().min(wire::MAX_FRAME)];
    if b.len() < 5 {
        return None;
    }
    let (body, sum) = b.split_at(b.len() - 4);
    if v::crc_compute(body) != u32::from_be_bytes([sum[0], sum[1], sum[2], sum[3]]) {
        return None;
    }
    let mut doubt = false;
    wire::parse_body(body, &mut doubt)
}

/// Adjusts the checksum of a crafted frame to the library's own, so that only C16 judges the checksum.
pub fn sealed(f: &Fr) -> Vec<u8> {
    let mut b = wire::write(f);
    let n = b.len() - 4;
    let c = v::crc_compute(&b[..n]);
    b[n..].copy_from_slice(&c.to_be_bytes());
    b
}

impl World {
    pub fn new(ctx: &mut Ctx, on: u32, dirs_on: u32, scfg: server::Config, link: Link, cadence: Cadence, v6: bool) -> Self {
        young();
        set_now(0);
        let want: Addr = if v6 { "[::1]:9000".parse().unwrap() } else { "127.0.0.1:9000".parse().unwrap() };
        let c = server::Config {
            max_total_connections: scfg.max_total_connections,
            max_active_connections: scfg.max_active_connections,
            enable_handshake_errors: scfg.enable_handshake_errors,
            endpoint_config: scfg.endpoint_config.clone(),
        };
        let server = lib(|| Server::bind(want, c)).expect("bind");
        age(ctx);
        let saddr = lib(|| server.address());
        let salt = ctx.rng.u64();
        let mut w = World {
            now: 0,
            on,
            dirs_on,
            server: Some(server),
            saddr,
            scfg,
            scadence: cadence,
            sgap: 0,
            slast: 0,
            sess: BTreeMap::new(),
            clis: Vec::new(),
            by_addr: HashMap::new(),
            links: HashMap::new(),
            link,
            raw: BTreeMap::new(),
            raws: HashSet::new(),
            shadow: HashMap::new(),
            meters: BTreeMap::new(),
            gone: HashMap::new(),
            plans: None,
            old: Vec::new(),
            keep_old: false,
            plain: false,
            q: BinaryHeap::new(),
            restarts: Vec::new(),
            serial: 0,
            rng: ctx.rng.fork(),
            salt,
            stopped: false,
        };
        let off = w.rng.below(10 * MS);
        w.push(off, Ev::TickS);
        w
    }

    fn push(&mut self, at: u64, e: Ev) {
        self.serial += 1;
        self.q.push(Reverse((at, self.serial, e)));
    }

    // ---- clients ------------------------------------------------------------------------------------------------

    pub fn connect(&mut self, ctx: &mut Ctx, cfg: EndpointConfig, cadence: Cadence) -> usize {
        set_now(self.now);
        let saddr = self.saddr;
        let c = client::Config { endpoint_config: cfg.clone() };
        let c = lib(|| Client::connect(saddr, c)).expect("connect");
        let addr = lib(|| c.local_address());
        let i = self.clis.len();
        let name = format!("client {}", i);
        let timeout = cfg.active_timeout_ms;
        self.clis.push(Cli {
            c: Some(c),
            addr,
            cfg,
            nonce: 0,
            accepted: None,
            w: Watch::new(name, timeout, self.now),
            tx: Dir::new("client->server", self.dirs_on, self.salt ^ (i as u64) << 8, 0, 0, 4096, usize::MAX >> 1, f64::INFINITY),
            cadence,
            stepping: true,
            plan: None,
        });
        self.clis[i].tx.tail = 4096;
        self.by_addr.insert(addr, i);
        ctx.count("connection_attempts", 1);
        self.outbox(ctx);
        let d = self.rng.below(20 * MS);
        self.push(self.now + d, Ev::TickC(i));
        i
    }

    /// Starts the ticks of a client again.
    pub fn resume(&mut self, i: usize) {
        if !self.clis[i].stepping {
            self.clis[i].stepping = true;
            self.push(self.now, Ev::TickC(i));
        }
    }

    pub fn step_client(&mut self, ctx: &mut Ctx, i: usize) {
        set_now(self.now);
        let now = self.now;
        let Some(c) = self.clis[i].c.as_mut() else { return };
        let (rtt, _) = lib(|| (c.rtt_s(), 0));
        let was_active = lib(|| c.is_active());
        let events: Vec<client::Event> = lib(|| c.step().collect());
        ctx.count("steps", 1);
        let had_req = self.clis[i].w.req;
        let live_before = self.clis[i].w.active();
        self.clis[i].w.stepped(now);
        self.outbox_of(ctx, Some((i, rtt)));
        let addr = self.clis[i].addr;
        let inbox = self.shadow.remove(&addr).unwrap_or_default();
        let mut matched = None;
        let mut refused = None;
        let pending = self.clis[i].w.connected.is_none() && self.clis[i].w.ended.is_none();
        for d in &inbox {
            let Some(f) = accept(&d.data) else { continue };
            let cli = &mut self.clis[i];
            vlog!(ctx, "{:>12.6} client {} reads {}", now as f64 / 1e9, i, brief(&Some(f.clone())));
            ctx.count("frames_handled", 1);
            if cli.w.connected.is_some() {
                cli.w.last_any = now;
            }
            match &f {
                Fr::SynAck { nonce_ack, nonce, rate, alloc, .. } if *nonce_ack == cli.nonce => {
                    if pending && matched.is_none() && refused.is_none() {
                        matched = Some((*nonce, *rate, *alloc));
                        cli.w.last_in = d.at;
                        cli.w.last_any = now;
                    } else if cli.accepted == Some(*nonce) {
                        cli.w.last_in = d.at;
                    }
                }
                Fr::Err { nonce_ack, code } if *nonce_ack == cli.nonce => {
                    if pending && matched.is_none() && refused.is_none() {
                        refused = Some(*code);
                    }
                }
                Fr::Disc => cli.w.on_request(ctx, now),
                Fr::Data { .. } | Fr::Sync { .. } => {
                    if cli.w.connected.is_some() || matched.is_some() {
                        cli.w.last_in = d.at;
                        cli.w.last_any = now;
                    }
                }
                Fr::Ack { fbase, pbase, groups } => {
                    if cli.w.connected.is_some() || matched.is_some() {
                        cli.w.last_in = d.at;
                        cli.w.last_any = now;
                    }
                    if was_active {
                        cli.tx.on_ack(*fbase, *pbase, groups);
                    }
                }
                _ => (),
            }
        }
        if let Some((s, rate, alloc)) = matched {
            let cli = &mut self.clis[i];
            cli.accepted = Some(s);
            cli.tx.rate.ceil = ceil_of(cli.cfg.max_send_rate, rate);
            cli.tx.alloc_limit = alloc as usize;
        }
        let is_active = lib(|| self.clis[i].c.as_ref().unwrap().is_active());
        if was_active || is_active {
            self.clis[i].tx.on_step(now, rtt);
        }
        let mut got_connect = false;
        let mut got_error = None;
        for e in events {
            match e {
                client::Event::Connect => {
                    got_connect = true;
                    self.client_connect(ctx, i, matched.is_some());
                }
                client::Event::Receive(b) => self.client_receive(ctx, i, &b),
                client::Event::Disconnect => self.client_end(ctx, i, End::Disconnect),
                client::Event::Error(e) => {
                    let k = match e {
                        client::ErrorType::Timeout => End::Timeout,
                        client::ErrorType::Version => End::Version,
                        client::ErrorType::Config => End::Config,
                        client::ErrorType::ServerFull => End::Full,
                    };
                    got_error = Some(k);
                    self.client_end(ctx, i, k)
                }
            }
        }
        if self.on & HAND != 0 && pending {
            if matched.is_some() && !got_connect {
                ctx.fail(format!("client {}: a matching SYN-ACK was read, but Connect was not reported", i));
            }
            if let Some(code) = refused {
                let want = [End::Version, End::Config, End::Full][code as usize];
                if got_error != Some(want) {
                    ctx.fail(format!("client {}: refused with error {:?}, reported {:?}", i, want, got_error));
                }
                ctx.count("refusals_reported", 1);
            } else if matches!(got_error, Some(End::Version | End::Config | End::Full)) {
                ctx.fail(format!("client {}: {:?} reported without a matching refusal", i, got_error));
            }
        }
        self.after_client(ctx, i, live_before, had_req);
    }

    fn after_client(&mut self, ctx: &mut Ctx, i: usize, live_before: bool, had_req: Option<(u64, Req)>) {
        let (on, now) = (self.on, self.now);
        let cli = &mut self.clis[i];
        cli.w.overdue(ctx, on, now, true);
        if on & CLOSE != 0 && live_before && cli.w.active() && matches!(had_req, Some((_, Req::Now))) {
            ctx.fail(format!("client {}: the step after disconnect_now() did not transmit a disconnect request", i));
        }
        let Some(c) = cli.c.as_ref() else { return };
        if lib(|| c.is_active()) || (cli.w.connected.is_none() && cli.w.ended.is_none()) {
            let b = lib(|| c.send_buffer_size());
            if cli.tx.on & crate::hc::BUFFER != 0 {
                ctx.count("buffer_checks", 1);
                cli.tx.check_buffer(ctx, b);
            }
        }
    }

    pub fn flush_client(&mut self, ctx: &mut Ctx, i: usize) {
        set_now(self.now);
        let Some(c) = self.clis[i].c.as_mut() else { return };
        let rtt = lib(|| {
            c.flush();
            c.rtt_s()
        });
        self.outbox_of(ctx, Some((i, rtt)));
    }

    pub fn client_max(&self, i: usize) -> usize {
        self.clis[i].cfg.max_packet_size
    }

    /// Submits a packet unless the library would discard it silently.
    pub fn send_client(&mut self, ctx: &mut Ctx, i: usize, len: usize, chan: u8, mode: SendMode) {
        set_now(self.now);
        let now = self.now;
        let plain = self.plain;
        let cli = &mut self.clis[i];
        let Some(c) = cli.c.as_mut() else { return };
        let open = !plain && cli.w.ended.is_none() && (cli.w.connected.is_none() || lib(|| c.is_active()));
        let (data, chan, mode) = if open { cli.tx.make(len, chan, mode, now) } else { (vec![0x5A; len], chan, mode) };
        let b = alloc::payload(&data);
        lib(|| c.send(b, chan as usize, mode));
        ctx.count("packets_submitted", (open || plain) as u64);
        if open && cli.tx.on & crate::hc::BUFFER != 0 {
            let b = lib(|| c.send_buffer_size());
            cli.tx.check_buffer(ctx, b);
        }
    }

    pub fn disconnect_client(&mut self, ctx: &mut Ctx, i: usize, how: Req) {
        set_now(self.now);
        let now = self.now;
        let cli = &mut self.clis[i];
        let Some(c) = cli.c.as_mut() else { return };
        vlog!(ctx, "{:>12.6} client {} disconnect {:?}", now as f64 / 1e9, i, how);
        let active = lib(|| c.is_active());
        lib(|| match how {
            Req::Flush => c.disconnect(),
            _ => c.disconnect_now(),
        });
        ctx.count("disconnect_calls", 1);
        if cli.w.ended.is_none() {
            if cli.w.connected.is_none() {
                // Ended without an event
                cli.w.ended = Some((now, End::Silent));
            } else if active {
                request(&mut cli.w, &cli.tx, now, how);
            }
        }
    }

    pub fn drop_client(&mut self, i: usize) {
        if let Some(c) = self.clis[i].c.take() {
            lib(move || drop(c));
            if self.clis[i].w.ended.is_none() {
                self.clis[i].w.ended = Some((self.now, End::Silent));
            }
        }
    }

    fn client_connect(&mut self, ctx: &mut Ctx, i: usize, matched: bool) {
        let now = self.now;
        vlog!(ctx, "{:>12.6} client {} CONNECT", now as f64 / 1e9, i);
        ctx.count("client_connects", 1);
        let w = &mut self.clis[i].w;
        if self.on & EVENTS != 0 && (w.connected.is_some() || w.ended.is_some()) {
            ctx.fail(format!("{}: Connect reported {}", w.name, if w.ended.is_some() { "after the end" } else { "twice" }));
        }
        if self.on & HAND != 0 {
            if w.connected.is_some() {
                ctx.fail(format!("{}: Connect reported twice", w.name));
            }
            if !matched {
                ctx.fail(format!("{}: Connect reported without a SYN-ACK echoing its nonce", w.name));
            }
        }
        w.connected = Some(now);
        w.last_any = now;
        w.last_in = w.last_in.max(w.born);
        ctx.seen(0xC0 ^ (i as u64) << 16);
    }

    fn client_receive(&mut self, ctx: &mut Ctx, i: usize, data: &[u8]) {
        let now = self.now;
        let cli = &mut self.clis[i];
        cli.w.received += 1;
        ctx.count("packets_delivered", 1);
        if self.on & EVENTS != 0 && !cli.w.live() {
            ctx.fail(format!("{}: Receive {}", cli.w.name, if cli.w.ended.is_some() { "after the end" } else { "before Connect" }));
        }
        if self.on & CLOSE != 0 && cli.w.ended.is_some() {
            ctx.fail(format!("{}: Receive after the terminal event", cli.w.name));
        }
        // Which session of the server it belongs to
        let key = cli.accepted;
        if let Some(s) = self.sess.get_mut(&cli.addr).and_then(|l| l.iter_mut().rev().find(|s| Some(s.s) == key)) {
            s.tx.on_received(ctx, data, now);
        }
    }

    fn client_end(&mut self, ctx: &mut Ctx, i: usize, k: End) {
        let now = self.now;
        vlog!(ctx, "{:>12.6} client {} END {:?}", now as f64 / 1e9, i, k);
        let on = self.on;
        let addr = self.clis[i].addr;
        let w = &mut self.clis[i].w;
        if on & EVENTS != 0 {
            if let Some((_, e)) = w.ended {
                ctx.fail(format!("{}: {:?} reported after the end ({:?})", w.name, k, e));
            }
            if k == End::Disconnect && w.connected.is_none() {
                ctx.fail(format!("{}: Disconnect reported without Connect", w.name));
            }
            if matches!(k, End::Version | End::Config | End::Full) && w.connected.is_some() {
                ctx.fail(format!("{}: handshake error {:?} reported after Connect", w.name, k));
            }
        }
        if on & HAND != 0 && matches!(k, End::Version | End::Config | End::Full) && w.connected.is_some() {
            ctx.fail(format!("{}: handshake error {:?} reported after Connect", w.name, k));
        }
        if k == End::Timeout {
            w.judge_timeout(ctx, on, now);
        }
        ctx.count(if k == End::Disconnect { "disconnects" } else { "errors" }, 1);
        if k == End::Timeout && on & CLOSE != 0 {
            let asked = self.clis[i].w.disc.len();
            let deaf = self.session(i).map_or(0, |s| s.w.deaf);
            if asked > 0 && deaf > 0 {
                ctx.fail(format!("client {}: Timeout while disconnecting, but the server has read {} of the requests and not answered", i, deaf));
            }
        }
        let w = &mut self.clis[i].w;
        if w.ended.is_none() {
            w.ended = Some((now, k));
        }
        ctx.seen(0xE0 ^ (i as u64) << 16 ^ k as u64);
        if k == End::Disconnect && on & CLOSE != 0 {
            let own = w.req.is_some();
            let key = self.clis[i].accepted;
            if let Some(s) = self.sess.get(&addr).and_then(|l| l.iter().rev().find(|s| Some(s.s) == key)) {
                check_flushed(ctx, &s.w, &s.tx, own, &self.clis[i].w.name);
            }
        }
    }

    // ---- server -------------------------------------------------------------------------------------------------

    pub fn is_tracked(&self, a: &Addr) -> bool {
        self.server.as_ref().map_or(false, |s| s.client(a).is_some())
    }

    pub fn is_active(&self, a: &Addr) -> bool {
        self.server.as_ref().map_or(false, |s| s.client(a).map_or(false, |c| c.borrow().is_active()))
    }

    pub fn known_addrs(&self) -> Vec<Addr> {
        let mut a: Vec<Addr> = self.meters.keys().copied().collect();
        a.sort();
        a
    }

    /// Connections tracked, established, and not ending (established, or Connect was not reported so far)
    fn counts(&self) -> (usize, usize, usize) {
        let (mut t, mut a, mut p) = (0, 0, 0);
        for x in self.meters.keys() {
            if self.is_tracked(x) {
                let up = self.is_active(x);
                t += 1;
                a += up as usize;
                p += (up || self.sess.get(x).and_then(|l| l.last()).map_or(true, |s| s.w.connected.is_none())) as usize;
            }
        }
        (t, a, p)
    }

    fn rtts(&self) -> HashMap<Addr, Option<f64>> {
        let mut m = HashMap::new();
        if self.dirs_on == 0 {
            return m;
        }
        for a in self.sess.keys() {
            if let Some(c) = self.server.as_ref().and_then(|s| s.client(a)) {
                if c.borrow().is_active() {
                    m.insert(*a, c.borrow().rtt_s());
                }
            }
        }
        m
    }

    pub fn step_server(&mut self, ctx: &mut Ctx) {
        if self.server.is_none() {
            return;
        }
        set_now(self.now);
        let now = self.now;
        self.sgap = self.sgap.max(now - self.slast);
        self.slast = now;
        let rtts = self.rtts();
        let (total0, active0, open0) = if self.on & CAPS != 0 { self.counts() } else { (0, 0, 0) };
        let tracked0: HashSet<Addr> = if self.on & (CAPS | HAND) != 0 { self.meters.keys().filter(|a| self.is_tracked(a)).copied().collect() } else { HashSet::new() };
        let pre: Vec<(Addr, usize, bool, Option<(u64, Req)>)> = self
            .sess
            .iter()
            .filter_map(|(a, l)| {
                let k = l.iter().rposition(|s| s.w.active())?;
                Some((*a, k, self.is_active(a), l[k].w.req))
            })
            .collect();
        let events: Vec<server::Event> = lib(|| self.server.as_mut().unwrap().step().collect());
        ctx.count("steps", 1);
        // Frames read during this step were there before it
        let inbox = self.shadow.remove(&self.saddr).unwrap_or_default();
        for d in &inbox {
            self.meters.entry(d.src).or_default().got += d.data.len() as u64;
        }
        let syns = self.server_outbox(ctx, &rtts, Some(&inbox));
        let mut hand = HashMap::new();
        let mut done_syn: HashSet<Addr> = HashSet::new();
        for d in &inbox {
            let Some(f) = accept(&d.data) else { continue };
            vlog!(ctx, "{:>12.6} server reads {} from {}", now as f64 / 1e9, brief(&Some(f.clone())), d.src);
            ctx.count("frames_handled", 1);
            if let Fr::Syn { .. } = f {
                done_syn.insert(d.src);
            }
            let Some(l) = self.sess.get_mut(&d.src) else { continue };
            if let Fr::Ack3 { nonce_ack } = f {
                if let Some(s) = l.iter_mut().rev().find(|s| s.s == nonce_ack) {
                    s.w.acks_seen.insert(nonce_ack);
                    if s.w.connected.is_none() && s.w.ended.is_none() && s.w.born < now && tracked0.contains(&d.src) {
                        hand.insert(d.src, nonce_ack);
                    }
                    if s.w.connected.is_none() {
                        s.w.last_in = d.at;
                        s.w.last_any = now;
                    }
                }
            }
            if let (Fr::Disc, Some(s)) = (&f, l.last_mut()) {
                s.w.on_request(ctx, now);
            }
            let Some(s) = l.iter_mut().rev().find(|s| s.w.ended.is_none()) else { continue };
            if s.w.connected.is_some() || s.w.acks_seen.contains(&s.s) {
                s.w.last_any = now;
                match &f {
                    Fr::Data { .. } | Fr::Sync { .. } => s.w.last_in = d.at,
                    Fr::Ack { fbase, pbase, groups } => {
                        s.w.last_in = d.at;
                        if s.w.active() {
                            s.tx.on_ack(*fbase, *pbase, groups);
                        }
                    }
                    _ => (),
                }
            }
        }
        for (a, r) in &rtts {
            if let Some(s) = self.sess.get_mut(a).and_then(|l| l.iter_mut().rev().find(|s| s.w.connected.is_some())) {
                s.tx.on_step(now, *r);
            }
        }
        let mut connects = HashSet::new();
        for e in events {
            match e {
                server::Event::Connect(a) => {
                    connects.insert(a);
                    self.server_connect(ctx, a);
                }
                server::Event::Receive(a, b) => self.server_receive(ctx, a, &b),
                server::Event::Disconnect(a) => self.server_end(ctx, a, End::Disconnect, &syns),
                server::Event::Error(a, e) => {
                    let k = match e {
                        server::ErrorType::Timeout => End::Timeout,
                        server::ErrorType::Version => End::Version,
                        server::ErrorType::Config => End::Config,
                        server::ErrorType::ServerFull => End::Full,
                    };
                    self.server_end(ctx, a, k, &syns)
                }
            }
        }
        // Sessions which became active were stepped in the same call
        for a in &connects {
            if let Some(s) = self.sess.get_mut(a).and_then(|l| l.iter_mut().rev().find(|s| s.w.connected.is_some())) {
                s.tx.on_step(now, None);
            }
        }
        if self.on & HAND != 0 {
            for (a, s) in &hand {
                if !connects.contains(a) {
                    ctx.fail(format!("server: {} returned nonce {:08x}, but Connect was not reported", a, s));
                }
            }
        }
        for (a, k) in std::mem::take(&mut self.restarts) {
            // Its end must have been reported in the same step
            if self.on & (HAND | EVENTS) != 0 && self.sess[&a][k].w.live() {
                ctx.fail(format!("server began a handshake with {}, which is connected", a));
            }
        }
        self.after_server(ctx, &pre);
        if self.on & CAPS != 0 {
            self.judge_caps(ctx, &inbox, &syns, total0, active0, open0, &tracked0);
        }
    }

    fn after_server(&mut self, ctx: &mut Ctx, pre: &[(Addr, usize, bool, Option<(u64, Req)>)]) {
        let (on, now) = (self.on, self.now);
        let server = self.server.as_ref().unwrap();
        for (a, l) in self.sess.iter_mut() {
            for s in l.iter_mut() {
                if s.w.ended.is_none() {
                    s.w.stepped(now);
                    let rep = s.reported;
                    s.w.overdue(ctx, on, now, rep);
                    if s.w.connected.is_none() && now > s.w.born + BUDGET + s.w.slack() {
                        // Forgotten by now; nobody is told unless asked for
                        s.w.ended = Some((now, End::Silent));
                    }
                    if s.w.active() && s.tx.on & crate::hc::BUFFER != 0 {
                        if let Some(c) = server.client(a) {
                            let c = c.borrow();
                            if c.is_active() {
                                let b = lib(|| c.send_buffer_size());
                                ctx.count("buffer_checks", 1);
                                s.tx.check_buffer(ctx, b);
                            }
                        }
                    }
                }
            }
        }
        if on & CLOSE != 0 {
            for (a, k, active, req) in pre {
                if *active && matches!(req, Some((_, Req::Now))) && self.sess[a][*k].w.active() {
                    ctx.fail(format!("server: the step after disconnect_now() did not transmit a disconnect request to {}", a));
                }
            }
        }
        if on & CAPS != 0 {
            self.check_caps(ctx);
        }
        // Capacity must become available again
        if on & CAPS != 0 {
            let slack = 60 * SEC + 30 * self.sgap;
            let late: Vec<Addr> = self.gone.iter().filter(|(_, &t)| now > t + slack).map(|(a, _)| *a).collect();
            for a in late {
                let t = self.gone.remove(&a).unwrap();
                let busy = self.sess.get(&a).map_or(false, |l| l.iter().any(|s| s.w.ended.is_none() || s.w.born > t));
                if !busy && self.is_tracked(&a) {
                    ctx.fail(format!("server: {} is still tracked {} s after its connection ended", a, (now - t) / SEC));
                }
                ctx.count("capacity_released", 1);
            }
        }
    }

    pub fn check_caps(&mut self, ctx: &mut Ctx) {
        let (t, a, _) = self.counts();
        ctx.max("connections_tracked", t as u64);
        ctx.max("connections_active", a as u64);
        ctx.count("limit_checks", 1);
        if t == self.scfg.max_total_connections {
            ctx.count("at_total_limit", 1);
        }
        if a == self.scfg.max_active_connections {
            ctx.count("at_active_limit", 1);
        }
        if t > self.scfg.max_total_connections {
            ctx.fail(format!("server tracks {} connections, limit is {}", t, self.scfg.max_total_connections));
        }
        if a > self.scfg.max_active_connections {
            ctx.fail(format!("server has {} active connections, limit is {}", a, self.scfg.max_active_connections));
        }
    }

    fn judge_caps(&mut self, ctx: &mut Ctx, inbox: &[Shadow], replies: &HashMap<Addr, Vec<Fr>>, total0: usize, active0: usize, open0: usize, tracked0: &HashSet<Addr>) {
        // SYNs of addresses which were not tracked before this step, in order of arrival
        let cfg = &self.scfg;
        let mut seen = HashSet::new();
        let mut accepted = 0usize;
        let endings = inbox.iter().any(|d| matches!(accept(&d.data), Some(Fr::Disc | Fr::DiscAck)));
        for d in inbox {
            let Some(Fr::Syn { version, nonce, packet, alloc, .. }) = accept(&d.data) else { continue };
            let bad = version != v_version() || (alloc as usize) < cfg.endpoint_config.max_packet_size || packet as usize > cfg.endpoint_config.max_receive_alloc;
            let first = seen.insert(d.src);
            let reply = replies.get(&d.src);
            let ok = reply.map_or(false, |l| l.iter().any(|f| matches!(f, Fr::SynAck { nonce_ack, .. } if *nonce_ack == nonce)));
            let full = reply.map_or(false, |l| l.iter().any(|f| matches!(f, Fr::Err { nonce_ack, code: 2 } if *nonce_ack == nonce)));
            if bad || !first {
                continue;
            }
            if tracked0.contains(&d.src) {
                continue;
            }
            if ok {
                accepted += 1;
            }
            if endings {
                // Capacity may have been released in the middle of the step
                continue;
            }
            let before = accepted - ok as usize;
            if total0 + before >= cfg.max_total_connections && !full {
                ctx.fail(format!("server: SYN from {} with {} of {} connections tracked was not refused with ServerFull", d.src, total0 + before, cfg.max_total_connections));
            }
            if active0 >= cfg.max_active_connections && !full {
                ctx.fail(format!("server: SYN from {} with {} of {} connections active was not refused with ServerFull", d.src, active0, cfg.max_active_connections));
            }
            // Connections which have ended or are ending take no room among the established ones, even while they
            // are still tracked
            if full && total0 + before < cfg.max_total_connections && open0 + before < cfg.max_active_connections {
                ctx.fail(format!("server: SYN from {} refused with ServerFull although only {} connections are tracked and {} connecting or established (limits {} and {})", d.src, total0 + before, open0 + before, cfg.max_total_connections, cfg.max_active_connections));
            }
            if !full && total0 + before > open0 + before && total0 + before >= cfg.max_active_connections {
                ctx.count("admitted_while_others_end", 1);
            }
            ctx.count(if full { "refused_full" } else { "admitted" }, 1);
        }
    }

    pub fn flush_server(&mut self, ctx: &mut Ctx) {
        if self.server.is_none() {
            return;
        }
        set_now(self.now);
        lib(|| self.server.as_mut().unwrap().flush());
        let rtts = self.rtts();
        self.server_outbox(ctx, &rtts, None);
    }

    pub fn send_server(&mut self, ctx: &mut Ctx, a: Addr, len: usize, chan: u8, mode: SendMode) {
        set_now(self.now);
        let now = self.now;
        let Some(server) = self.server.as_ref() else { return };
        let Some(c) = lib(|| server.client(&a)) else { return };
        let mut c = c.borrow_mut();
        let active = lib(|| c.is_active());
        let s = self.sess.get_mut(&a).and_then(|l| l.iter_mut().rev().find(|s| s.w.active()));
        let len = len.min(self.scfg.endpoint_config.max_packet_size);
        match s {
            Some(s) if active && !self.plain => {
                let (data, chan, mode) = s.tx.make(len, chan, mode, now);
                let b = alloc::payload(&data);
                lib(|| c.send(b, chan as usize, mode));
                ctx.count("packets_submitted", 1);
                if s.tx.on & crate::hc::BUFFER != 0 {
                    let b = lib(|| c.send_buffer_size());
                    s.tx.check_buffer(ctx, b);
                }
            }
            _ => {
                let b = alloc::payload(&vec![0x5A; len]);
                lib(|| c.send(b, chan as usize, mode));
            }
        }
    }

    pub fn disconnect_server(&mut self, ctx: &mut Ctx, a: Addr, how: Req) {
        set_now(self.now);
        let now = self.now;
        let Some(server) = self.server.as_ref() else { return };
        let Some(c) = lib(|| server.client(&a)) else { return };
        vlog!(ctx, "{:>12.6} server disconnect {} {:?}", now as f64 / 1e9, a, how);
        let active = lib(|| c.borrow().is_active());
        lib(|| match how {
            Req::Flush => c.borrow_mut().disconnect(),
            _ => c.borrow_mut().disconnect_now(),
        });
        ctx.count("disconnect_calls", 1);
        if active {
            if let Some(s) = self.sess.get_mut(&a).and_then(|l| l.iter_mut().rev().find(|s| s.w.active())) {
                request(&mut s.w, &s.tx, now, how);
            }
        }
    }

    pub fn drop_session(&mut self, ctx: &mut Ctx, a: Addr) {
        set_now(self.now);
        let now = self.now;
        if self.server.is_none() || !self.is_tracked(&a) {
            return;
        }
        vlog!(ctx, "{:>12.6} server drop {}", now as f64 / 1e9, a);
        lib(|| self.server.as_mut().unwrap().drop(&a));
        ctx.count("drop_calls", 1);
        if let Some(l) = self.sess.get_mut(&a) {
            for s in l.iter_mut() {
                if s.w.ended.is_none() {
                    s.w.ended = Some((now, End::Silent));
                }
            }
        }
        self.gone.insert(a, now);
    }

    pub fn drop_server(&mut self) {
        if let Some(s) = self.server.take() {
            lib(move || drop(s));
        }
    }

    fn server_connect(&mut self, ctx: &mut Ctx, a: Addr) {
        let now = self.now;
        vlog!(ctx, "{:>12.6} server CONNECT {}", now as f64 / 1e9, a);
        ctx.count("server_connects", 1);
        let on = self.on;
        let cli = self.by_addr.get(&a).map(|&i| &self.clis[i]);
        let Some(l) = self.sess.get_mut(&a) else {
            if on & (HAND | EVENTS) != 0 {
                ctx.fail(format!("server: Connect reported for {}, to which no SYN-ACK was ever sent", a));
            }
            return;
        };
        if on & (EVENTS | HAND) != 0 && l.iter().any(|s| s.w.live()) {
            ctx.fail(format!("server: Connect reported for {} before the previous connection's terminal event", a));
        }
        let s = l.last_mut().unwrap();
        if on & HAND != 0 {
            if s.w.connected.is_some() || s.w.ended.is_some() {
                ctx.fail(format!("server: Connect reported for {} without a new handshake", a));
            } else if !s.w.acks_seen.contains(&s.s) {
                ctx.fail(format!("server: Connect reported for {}, which did not return the nonce {:08x}", a, s.s));
            }
            if let Some(c) = cli {
                if let Some(acc) = c.accepted {
                    if acc != s.s || c.nonce != s.n {
                        ctx.fail(format!(
                            "server: Connect reported for {} with nonces {:08x}/{:08x}, but the client has connected with {:08x}/{:08x}",
                            a, s.n, s.s, c.nonce, acc
                        ));
                    }
                }
            }
        }
        s.w.connected = Some(now);
        s.w.last_any = now;
        self.meters.entry(a).or_default().verified = true;
        if let Some((_, p)) = &self.plans {
            let mut p2 = Plan { left: p.left, burst: p.burst, p: p.p, sizes: p.sizes, max: p.max, chans: p.chans, weights: p.weights, rare: p.rare };
            p2.max = p2.max.min(self.scfg.endpoint_config.max_packet_size);
            s.plan = Some(p2);
        }
        ctx.seen(0x5C0);
    }

    fn server_receive(&mut self, ctx: &mut Ctx, a: Addr, data: &[u8]) {
        let now = self.now;
        ctx.count("packets_delivered", 1);
        let on = self.on;
        let s = self.sess.get_mut(&a).and_then(|l| l.iter_mut().rev().find(|s| s.w.live()));
        let Some(s) = s else {
            if on & (EVENTS | CLOSE) != 0 {
                ctx.fail(format!("server: Receive from {} while not connected", a));
            }
            return;
        };
        s.w.received += 1;
        if let Some(&i) = self.by_addr.get(&a) {
            if self.clis[i].nonce == s.n {
                self.clis[i].tx.on_received(ctx, data, now);
            }
        }
    }

    fn server_end(&mut self, ctx: &mut Ctx, a: Addr, k: End, replies: &HashMap<Addr, Vec<Fr>>) {
        let now = self.now;
        vlog!(ctx, "{:>12.6} server END {} {:?}", now as f64 / 1e9, a, k);
        let on = self.on;
        ctx.count(if k == End::Disconnect { "disconnects" } else { "errors" }, 1);
        ctx.seen(0x5E0 ^ k as u64);
        let l = self.sess.entry(a).or_default();
        let pos = l.iter().rposition(|s| s.w.live()).or_else(|| l.iter().rposition(|s| s.w.ended.is_none()));
        if matches!(k, End::Version | End::Config | End::Full) {
            // A refusal: the attempt never became a connection
            if on & (EVENTS | HAND) != 0 {
                if l.iter().any(|s| s.w.live()) {
                    ctx.fail(format!("server: {:?} reported for {}, which is connected", k, a));
                }
                let code = match k {
                    End::Version => 0,
                    End::Config => 1,
                    _ => 2,
                };
                if on & HAND != 0 && !replies.get(&a).map_or(false, |r| r.iter().any(|f| matches!(f, Fr::Err { code: c, .. } if *c == code))) {
                    ctx.fail(format!("server: {:?} reported for {}, but no such refusal was sent", k, a));
                }
            }
            return;
        }
        let Some(pos) = pos else {
            if on & EVENTS != 0 {
                ctx.fail(format!("server: {:?} reported for {} without a connection", k, a));
            }
            return;
        };
        let s = &mut l[pos];
        if on & EVENTS != 0 && s.w.connected.is_none() && k == End::Disconnect {
            ctx.fail(format!("server: Disconnect reported for {} without Connect", a));
        }
        if k == End::Timeout {
            s.w.judge_timeout(ctx, on, now);
            if on & CLOSE != 0 && !s.w.disc.is_empty() {
                if let Some(c) = self.by_addr.get(&a).map(|&i| &self.clis[i]).filter(|c| c.accepted == Some(s.s)) {
                    if c.w.deaf > 0 {
                        ctx.fail(format!("server: Timeout while disconnecting from {}, which has read {} of the requests and not answered", a, c.w.deaf));
                    }
                }
            }
        }
        s.w.ended = Some((now, k));
        self.gone.insert(a, now);
        let own = s.w.req.is_some();
        if k == End::Disconnect && on & CLOSE != 0 {
            if let Some(&i) = self.by_addr.get(&a) {
                if self.clis[i].accepted == Some(s.s) {
                    check_flushed(ctx, &self.clis[i].w, &self.clis[i].tx, own, "server");
                }
            }
        }
    }

    // ---- wire ---------------------------------------------------------------------------------------------------

    fn outbox(&mut self, ctx: &mut Ctx) {
        self.outbox_of(ctx, None)
    }

    fn outbox_of(&mut self, ctx: &mut Ctx, cli: Option<(usize, Option<f64>)>) {
        let now = self.now;
        for d in v::net::take_outbox() {
            let fr = wire::parse(&d.data);
            let Some(&i) = self.by_addr.get(&d.src) else { continue };
            vlog!(ctx, "{:>12.6} client {} emits {} bytes {}", now as f64 / 1e9, i, d.data.len(), brief(&fr));
            ctx.count("frames_emitted", 1);
            let on = self.on;
            let saddr = self.saddr;
            if d.dst != saddr && on & HAND != 0 {
                ctx.fail(format!("client {} sent a frame to {}", i, d.dst));
            }
            let rtt = cli.and_then(|c| if c.0 == i { c.1 } else { None });
            let peer_cfg = self.scfg.endpoint_config.clone();
            let c = &mut self.clis[i];
            if let Some(Fr::Disc | Fr::DiscAck) = &fr {
                c.w.answered = Some(now);
            }
            match &fr {
                Some(Fr::Syn { version, nonce, rate, packet, alloc }) => {
                    if c.w.opens.is_empty() {
                        c.nonce = *nonce;
                        c.tx.base = *nonce & PMASK;
                        c.tx.next = c.tx.base;
                        c.tx.frame_base = *nonce;
                        c.tx.frame_next = *nonce;
                    } else if on & HAND != 0 && *nonce != c.nonce {
                        ctx.fail(format!("client {} changed its nonce", i));
                    }
                    if on & HAND != 0 {
                        let e = &c.cfg;
                        if *version != v_version() || *rate != chunk32(e.max_receive_rate) || *packet != chunk32(e.max_packet_size) || *alloc != chunk32(e.max_receive_alloc) {
                            ctx.fail(format!("client {}: SYN carries {:?}, configured {:?}", i, fr, e));
                        }
                    }
                    let name = c.w.name.clone();
                    Watch::on_timer_frame(ctx, on, &name, "SYN", &mut c.w.opens, now);
                }
                Some(Fr::Disc) => {
                    if on & (TIMERS | CLOSE) != 0 && c.w.req.is_none() {
                        ctx.fail(format!("client {} transmitted a disconnect request unasked", i));
                    }
                    let name = c.w.name.clone();
                    Watch::on_timer_frame(ctx, on, &name, "disconnect request", &mut c.w.disc, now);
                    ctx.count("disconnect_requests", 1);
                }
                Some(Fr::Data { .. } | Fr::Sync { .. } | Fr::Ack { .. }) => {
                    let peer = c.accepted.and_then(|k| self.sess.get_mut(&d.src).and_then(|l| l.iter_mut().rev().find(|s| s.s == k)));
                    if on & HAND != 0 {
                        agreement(ctx, &mut c.w, &fr, c.nonce, c.accepted, peer.map(|s| &s.w), false);
                    }
                    let c = &mut self.clis[i];
                    if self.dirs_on != 0 {
                        c.tx.on_emit(ctx, &d.data, &fr, now, rtt);
                    }
                }
                _ => (),
            }
            let _ = &peer_cfg;
            self.transmit(ctx, d.src, d.dst, &d.data);
        }
    }

    /// Returns the handshake replies of the server by address.
    fn server_outbox(&mut self, ctx: &mut Ctx, rtts: &HashMap<Addr, Option<f64>>, inbox: Option<&[Shadow]>) -> HashMap<Addr, Vec<Fr>> {
        let now = self.now;
        let on = self.on;
        let mut replies: HashMap<Addr, Vec<Fr>> = HashMap::new();
        for d in v::net::take_outbox() {
            let fr = wire::parse(&d.data);
            if d.src != self.saddr {
                continue;
            }
            vlog!(ctx, "{:>12.6} server emits {} bytes {} to {}", now as f64 / 1e9, d.data.len(), brief(&fr), d.dst);
            ctx.count("frames_emitted", 1);
            let known = self.meters.contains_key(&d.dst);
            let m = self.meters.entry(d.dst).or_default();
            m.sent += d.data.len() as u64;
            if on & AMP != 0 && !m.verified {
                ctx.count("replies_to_unverified", 1);
                if m.sent >= m.got {
                    ctx.fail(format!("server has sent {} bytes to {}, which has sent {} bytes and not completed the handshake", m.sent, d.dst, m.got));
                }
                ctx.max("amplification_permille", m.sent * 1000 / m.got.max(1));
            }
            if on & HAND != 0 && !known {
                ctx.fail(format!("server sent {:?} to {}, which never sent anything", fr, d.dst));
            }
            if let Some(Fr::Disc | Fr::DiscAck) = &fr {
                if let Some(s) = self.sess.get_mut(&d.dst).and_then(|l| l.last_mut()) {
                    s.w.answered = Some(now);
                }
            }
            match &fr {
                Some(f @ Fr::SynAck { nonce_ack, nonce, rate, packet, alloc }) => {
                    replies.entry(d.dst).or_default().push(f.clone());
                    let l = self.sess.entry(d.dst).or_default();
                    let k = l.iter().rposition(|s| s.s == *nonce && s.n == *nonce_ack);
                    let e = &self.scfg.endpoint_config;
                    if on & HAND != 0 && (*rate != chunk32(e.max_receive_rate) || *packet != chunk32(e.max_packet_size) || *alloc != chunk32(e.max_receive_alloc)) {
                        ctx.fail(format!("server: SYN-ACK carries {:?}, configured {:?}", fr, e));
                    }
                    match k {
                        Some(k) => {
                            let name = l[k].w.name.clone();
                            if on & (HAND | TIMERS) != 0 && l[k].w.connected.is_some() {
                                ctx.fail(format!("{}: SYN-ACK resent although the handshake is complete", name));
                            }
                            Watch::on_timer_frame(ctx, on, &name, "SYN-ACK", &mut l[k].w.opens, now);
                        }
                        None => {
                            // The SYN it answers
                            let syn = inbox.and_then(|i| {
                                i.iter().filter(|s| s.src == d.dst).find_map(|s| match accept(&s.data) {
                                    Some(Fr::Syn { nonce, version, rate, packet, alloc }) if nonce == *nonce_ack => Some((version, rate, packet, alloc)),
                                    _ => None,
                                })
                            });
                            if on & HAND != 0 {
                                match syn {
                                    None => ctx.fail(format!("server answered {} with a SYN-ACK to a SYN it did not receive", d.dst)),
                                    Some((ver, _, p, al)) => {
                                        if ver != v_version() || (al as usize) < e.max_packet_size || p as usize > e.max_receive_alloc {
                                            ctx.fail(format!("server accepted an incompatible SYN from {}: version {} packet {} alloc {}", d.dst, ver, p, al));
                                        }
                                    }
                                }
                            }
                            let (rate, alloc) = syn.map_or((u32::MAX, u32::MAX), |s| (s.1, s.3));
                            let ceil = ceil_of(e.max_send_rate, rate);
                            let mut tx = Dir::new("server->client", self.dirs_on, self.salt ^ mix_addr(&d.dst) ^ (*nonce as u64) << 16, nonce & PMASK, *nonce, 4096, alloc as usize, ceil);
                            tx.tail = 4096;
                            let mut w = Watch::new(format!("server session {}", d.dst), e.active_timeout_ms, now);
                            w.opens.push(now);
                            if let Some(k) = l.iter().position(|s| s.w.live()) {
                                self.restarts.push((d.dst, k));
                            }
                            // What the old session (if any) sent is no longer the concern of its monitors
                            for s in l.iter_mut() {
                                if s.w.connected.is_none() && s.w.ended.is_none() {
                                    s.w.ended = Some((now, End::Silent));
                                }
                            }
                            l.push(Sess { n: *nonce_ack, s: *nonce, w, tx, plan: None, reported: self.scfg.enable_handshake_errors });
                            if !self.is_tracked(&d.dst) && on & HAND != 0 {
                                // Ended within the very same step, which only a zero budget could do
                            }
                            let m = self.meters.get_mut(&d.dst).unwrap();
                            if m.verified {
                                // A new connection attempt of an address which had been verified earlier: start over
                                m.verified = false;
                                m.got = inbox.map_or(0, |i| i.iter().filter(|s| s.src == d.dst).map(|s| s.data.len() as u64).sum());
                                m.sent = d.data.len() as u64;
                            }
                            ctx.count("handshakes_begun", 1);
                        }
                    }
                }
                Some(f @ Fr::Err { nonce_ack, code }) => {
                    replies.entry(d.dst).or_default().push(f.clone());
                    ctx.count("refusals_sent", 1);
                    if on & HAND != 0 {
                        self.judge_refusal(ctx, d.dst, *nonce_ack, *code, inbox);
                    }
                }
                Some(Fr::Disc) => {
                    if let Some(s) = self.sess.get_mut(&d.dst).and_then(|l| l.iter_mut().rev().find(|s| s.w.live())) {
                        if on & (TIMERS | CLOSE) != 0 && s.w.req.is_none() {
                            ctx.fail(format!("server transmitted a disconnect request to {} unasked", d.dst));
                        }
                        let name = s.w.name.clone();
                        Watch::on_timer_frame(ctx, on, &name, "disconnect request", &mut s.w.disc, now);
                        ctx.count("disconnect_requests", 1);
                    } else if on & CLOSE != 0 {
                        ctx.fail(format!("server transmitted a disconnect request to {}, which is not connected", d.dst));
                    }
                }
                Some(Fr::Data { .. } | Fr::Sync { .. } | Fr::Ack { .. }) => {
                    let cli = self.by_addr.get(&d.dst).map(|&i| &self.clis[i]);
                    if let Some(s) = self.sess.get_mut(&d.dst).and_then(|l| l.iter_mut().rev().find(|s| s.w.connected.is_some())) {
                        if on & HAND != 0 {
                            let (n, k) = (s.n, s.s);
                            let peer = cli.filter(|c| c.accepted == Some(k) && c.nonce == n).map(|c| &c.w);
                            agreement(ctx, &mut s.w, &fr, k, Some(n), peer, true);
                        }
                        if self.dirs_on != 0 {
                            let rtt = rtts.get(&d.dst).copied().flatten();
                            s.tx.on_emit(ctx, &d.data, &fr, now, rtt);
                        }
                    } else if on & HAND != 0 {
                        ctx.fail(format!("server sent {} to {}, which is not connected", brief(&fr), d.dst));
                    }
                }
                _ => (),
            }
            self.transmit(ctx, d.src, d.dst, &d.data);
        }
        replies
    }

    fn judge_refusal(&self, ctx: &mut Ctx, a: Addr, nonce: u32, code: u8, inbox: Option<&[Shadow]>) {
        let e = &self.scfg.endpoint_config;
        let mut any = false;
        for d in inbox.unwrap_or_default().iter().filter(|d| d.src == a) {
            let Some(Fr::Syn { version, nonce: n, packet, alloc, .. }) = accept(&d.data) else { continue };
            if n != nonce {
                continue;
            }
            let bad_version = version != v_version();
            let bad_config = (alloc as usize) < e.max_packet_size || packet as usize > e.max_receive_alloc;
            // If several reasons apply, any of them will do
            any |= match code {
                0 => bad_version,
                1 => bad_config,
                _ => self.on & CAPS == 0 || self.scfg.max_total_connections < 1000,
            };
        }
        if !any {
            ctx.fail(format!("server refused {} with error {} for no such reason", a, code));
        }
    }

    /// Sends a datagram crafted by the harness over the link.
    pub fn forge(&mut self, ctx: &mut Ctx, src: Addr, dst: Addr, data: &[u8]) {
        ctx.count("frames_forged", 1);
        self.push(self.now, Ev::Arrive(src, dst, data.to_vec()));
    }

    pub fn forge_at(&mut self, at: u64, src: Addr, dst: Addr, data: &[u8]) {
        self.push(at.max(self.now), Ev::Arrive(src, dst, data.to_vec()));
    }

    fn transmit(&mut self, ctx: &mut Ctx, src: Addr, dst: Addr, data: &[u8]) {
        if self.keep_old && self.old.len() < 5000 && matches!(data[0], 0..=5) {
            self.old.push((src, dst, data.to_vec()));
        }
        let proto = &self.link;
        let link = self.links.entry((src, dst)).or_insert_with(|| proto.clone());
        let mut sends = Vec::new();
        link.fate(&mut self.rng, self.now, data, &mut sends);
        if sends.is_empty() {
            ctx.count("frames_lost", 1);
        }
        if sends.len() > 1 {
            ctx.count("frames_duplicated", sends.len() as u64 - 1);
        }
        for (at, b) in sends {
            self.push(at, Ev::Arrive(src, dst, b));
        }
    }

    fn arrive(&mut self, ctx: &mut Ctx, src: Addr, dst: Addr, data: Vec<u8>) {
        if self.raws.contains(&dst) {
            self.raw.entry(dst).or_default().push((self.now, data));
            return;
        }
        if v::net::inject(src, dst, &data) {
            ctx.count("datagrams_arrived", 1);
            self.shadow.entry(dst).or_default().push(Shadow { src, at: self.now, data });
        }
    }

    // ---- main loop ----------------------------------------------------------------------------------------------

    pub fn run(
        &mut self,
        ctx: &mut Ctx,
        end: u64,
        mut app: impl FnMut(&mut World, &mut Ctx, Who),
        mut stop: impl FnMut(&mut World) -> bool,
    ) {
        self.stopped = false;
        while let Some(Reverse((at, _, _))) = self.q.peek() {
            if *at > end || ctx.failed() {
                break;
            }
            let Reverse((at, _, e)) = self.q.pop().unwrap();
            self.now = self.now.max(at);
            match e {
                Ev::Arrive(src, dst, b) => self.arrive(ctx, src, dst, b),
                Ev::FlushC(i) => self.flush_client(ctx, i),
                Ev::FlushS => self.flush_server(ctx),
                Ev::TickC(i) => {
                    if self.clis[i].c.is_none() || !self.clis[i].stepping {
                        self.clis[i].stepping = false;
                        continue;
                    }
                    self.step_client(ctx, i);
                    app(self, ctx, Who::Client(i));
                    let c = self.clis[i].cadence.clone();
                    if self.rng.chance(c.flush_after) {
                        self.flush_client(ctx, i);
                    }
                    let d = c.next(&mut self.rng, at);
                    for _ in 0..c.flushes {
                        let t = at + self.rng.below(d.max(1));
                        self.push(t, Ev::FlushC(i));
                    }
                    self.push(at + d, Ev::TickC(i));
                    if stop(self) {
                        break;
                    }
                }
                Ev::TickS => {
                    self.step_server(ctx);
                    app(self, ctx, Who::Server);
                    let c = self.scadence.clone();
                    if self.rng.chance(c.flush_after) {
                        self.flush_server(ctx);
                    }
                    let d = c.next(&mut self.rng, at);
                    for _ in 0..c.flushes {
                        let t = at + self.rng.below(d.max(1));
                        self.push(t, Ev::FlushS);
                    }
                    if self.server.is_some() {
                        self.push(at + d, Ev::TickS);
                    }
                    if stop(self) {
                        break;
                    }
                }
            }
        }
        if self.now < end && !ctx.failed() && self.q.peek().is_none() {
            self.now = end;
        }
    }

    /// Lets the traffic plans of the endpoint act.
    pub fn traffic(&mut self, ctx: &mut Ctx, who: Who, r: &mut Rng) {
        match who {
            Who::Client(i) => {
                if let Some(mut p) = self.clis[i].plan.take() {
                    for (len, chan, mode) in p.draw(r) {
                        self.send_client(ctx, i, len, chan, mode);
                    }
                    self.clis[i].plan = Some(p);
                }
            }
            Who::Server => {
                let addrs: Vec<Addr> = self.sess.iter().filter(|(_, l)| l.last().map_or(false, |s| s.plan.is_some() && s.w.active())).map(|(a, _)| *a).collect();
                for a in addrs {
                    let s = self.sess.get_mut(&a).unwrap().last_mut().unwrap();
                    let mut p = s.plan.take().unwrap();
                    for (len, chan, mode) in p.draw(r) {
                        self.send_server(ctx, a, len, chan, mode);
                    }
                    self.sess.get_mut(&a).unwrap().last_mut().unwrap().plan = Some(p);
                }
            }
        }
    }

    pub fn session(&self, i: usize) -> Option<&Sess> {
        let c = &self.clis[i];
        self.sess.get(&c.addr).and_then(|l| l.iter().rev().find(|s| Some(s.s) == c.accepted))
    }

    /// Releases everything the library holds.
    pub fn finish(mut self) {
        for i in 0..self.clis.len() {
            self.drop_client(i);
        }
        self.drop_server();
        drop(v::net::take_outbox());
        v::net::reset();
    }
}

pub fn v_version() -> u8 {
    uflow::PROTOCOL_VERSION
}

fn mix_addr(a: &Addr) -> u64 {
    crate::core::mix(a.port() as u64) << 8
}

fn request(w: &mut Watch, tx: &Dir, now: u64, how: Req) {
    w.req = match (w.req, how) {
        (None, h) => {
            if h == Req::Flush {
                w.need_empty = tx.zero_rel;
                w.need = (0..tx.pkts.len() as u32).filter(|&u| tx.pkts[u as usize].mode == SendMode::Reliable && tx.pkts[u as usize].len > 0).collect();
            }
            Some((now, h))
        }
        (Some((t, Req::Flush)), Req::Flush) => Some((t, Req::Flush)),
        (Some((_, Req::Flush)), Req::Now) => Some((now, Req::Now)),
        (Some((t, Req::Now)), Req::Now) => Some((t, Req::Now)),
        (Some((t, _)), _) => Some((t, Req::Mixed)),
    };
}

/// The peer of `w` reports Disconnect. `own`: it has itself asked to disconnect.
fn check_flushed(ctx: &mut Ctx, w: &Watch, tx: &Dir, own: bool, at: &str) {
    if own || !matches!(w.req, Some((_, Req::Flush))) {
        return;
    }
    let miss: Vec<u32> = w.need.iter().copied().filter(|&u| !tx.pkts[u as usize].delivered).collect();
    if !miss.is_empty() {
        ctx.fail(format!("{} reports Disconnect although {} Reliable packets submitted before disconnect() were not delivered (first {:?})", at, miss.len(), &miss[..miss.len().min(5)]));
    }
    if tx.zero_got < w.need_empty {
        ctx.fail(format!("{} reports Disconnect although {} empty Reliable packets were submitted before disconnect() and only {} delivered", at, w.need_empty, tx.zero_got));
    }
    ctx.count("graceful_ends_checked", 1);
    ctx.count("empty_before_disconnect", w.need_empty);
    ctx.count("reliable_before_disconnect", w.need.len() as u64);
}

/// Both ends must start from the sequence numbers exchanged: `own` and `peer` are the two nonces.
fn agreement(ctx: &mut Ctx, w: &mut Watch, fr: &Option<Fr>, own: u32, peer: Option<u32>, peer_w: Option<&Watch>, server: bool) {
    let side = if server { "server" } else { "client" };
    if let Some(Fr::Data { id, dgs, .. }) = fr {
        if !w.first_data {
            w.first_data = true;
            ctx.count("starting_ids_checked", 1);
            if *id != own {
                ctx.fail(format!("{}: first frame has id {:08x}, its nonce is {:08x}", side, id, own));
            }
            if let Some(d) = dgs.first() {
                if psub(d.seq, own & PMASK) >= 4096 {
                    ctx.fail(format!("{}: first packet has id {:05x}, its nonce is {:08x}", side, d.seq, own));
                }
            }
        }
        w.frame_next = Some(id.wrapping_add(1));
        for d in dgs {
            w.packets_up_to(own, d.seq.wrapping_add(1) & PMASK);
        }
    }
    if let Some(Fr::Sync { frame, packet }) = fr {
        if let Some(f) = frame {
            if f.wrapping_sub(own) > w.frame_next.unwrap_or(own).wrapping_sub(own) {
                ctx.fail(format!("{}: announces frame {:08x} next, having sent up to {:08x}", side, f, w.frame_next.unwrap_or(own)));
            }
        }
        if let Some(p) = packet {
            w.packets_up_to(own, *p & PMASK);
        }
    }
    if let (Some(Fr::Ack { fbase, pbase, .. }), Some(peer)) = (fr, peer) {
        w.first_ack = true;
        if let Some(d) = peer_w {
            // Between the start and what the peer has sent so far
            let sent = d.frame_next.unwrap_or(peer).wrapping_sub(peer);
            let moved = fbase.wrapping_sub(peer);
            if moved > sent {
                ctx.fail(format!("{}: acknowledges up to frame {:08x}, the peer started at {:08x} and has sent {} frames", side, fbase, peer, sent));
            }
            let next = d.pkt_next.unwrap_or(peer & PMASK);
            if psub(next, *pbase) > 4096 * 2 {
                ctx.fail(format!("{}: acknowledges up to packet {:05x}, the peer started at {:05x} and is at {:05x}", side, pbase, peer & PMASK, next));
            }
            ctx.count("acknowledged_ids_checked", 1);
        }
    }
}

#[allow(dead_code)]
pub fn needs_dirs(on: u32) -> u32 {
    on & (LIMITS | RATE)
}
