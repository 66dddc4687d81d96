//! Simulated transports: every outcome of every I/O call is a choice of the run.
use crate::core::Ctx;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io::{self, Read, Write};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncWrite};

/// Per-run fault profile: a weight per kind; all zero when faults are off.
#[derive(Clone, Copy, Debug, Default)]
pub struct Profile {
    pub short: u32,
    pub block: u32,
    pub intr: u32,
    pub err: u32,
    /// `Ok(0)` from a writer
    pub zero: u32,
}
impl Profile {
    /// Swarm testing: a random subset of the fault kinds with random intensity.
    pub fn swarm(ctx: &Ctx) -> Self {
        let w = || [0, 0, 2, 6, 20][ctx.below(5)];
        Profile { short: w(), block: w(), intr: w() / 2, err: w() / 2, zero: 0 }
    }
    pub fn none() -> Self {
        Profile::default()
    }
}

/// What an I/O call did.
#[derive(Clone, Debug, PartialEq)]
pub enum Io {
    Ok(usize),
    Block,
    Err(io::ErrorKind),
}

pub const ERR_KINDS: [io::ErrorKind; 8] = [
    io::ErrorKind::Other,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::TimedOut,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::InvalidData,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::WriteZero,
];

enum Decision {
    Go(usize),
    Block,
    Fail(io::ErrorKind),
    Zero,
}
fn decide(ctx: &Ctx, p: &Profile, avail: usize) -> Decision {
    let base = 20;
    match ctx.weighted(&[base, p.short, p.block, p.intr, p.err, p.zero]) {
        0 => Decision::Go(avail),
        1 => {
            if avail > 1 {
                ctx.fault("short-io");
                let n = if ctx.below(2) == 0 { 1 } else { 1 + ctx.below(avail - 1) };
                Decision::Go(ctx.piece(n, avail))
            } else {
                Decision::Go(avail)
            }
        }
        2 => {
            ctx.fault("would-block");
            Decision::Block
        }
        3 => {
            ctx.fault("interrupted");
            Decision::Fail(io::ErrorKind::Interrupted)
        }
        4 => {
            ctx.fault("io-error");
            Decision::Fail(ERR_KINDS[ctx.below(ERR_KINDS.len())])
        }
        _ => {
            ctx.fault("zero-write");
            Decision::Zero
        }
    }
}

/// A source of bytes with faults; records what every call did.
pub struct SimReader {
    ctx: Ctx,
    pub data: Vec<u8>,
    pub pos: usize,
    pub p: Profile,
    pub log: Vec<Io>,
    pub overread: bool,
    pub waker_registered: bool,
    pub block_as_error: bool,
}
impl SimReader {
    pub fn new(ctx: &Ctx, data: Vec<u8>, p: Profile) -> Self {
        SimReader { ctx: ctx.clone(), data, pos: 0, p, log: vec![], overread: false, waker_registered: false, block_as_error: false }
    }
    fn step(&mut self, buf: &mut [u8]) -> Io {
        let avail = buf.len().min(self.data.len() - self.pos);
        let r = match decide(&self.ctx, &self.p, avail) {
            Decision::Go(n) => {
                buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                self.pos += n;
                Io::Ok(n)
            }
            Decision::Zero => Io::Ok(0),
            Decision::Block => Io::Block,
            Decision::Fail(k) => Io::Err(k),
        };
        let code = match &r {
            Io::Ok(n) => *n as u64,
            Io::Block => u64::MAX,
            Io::Err(k) => u64::MAX - 1 - *k as u64,
        };
        self.ctx.ev("read", buf.len() as u64, code);
        self.log.push(r.clone());
        r
    }
}
impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        match self.step(buf) {
            Io::Ok(n) => Ok(n),
            Io::Block => Err(io::ErrorKind::WouldBlock.into()),
            Io::Err(k) => Err(k.into()),
        }
    }
}
impl AsyncRead for SimReader {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut tmp = vec![0; buf.remaining()];
        match self.step(&mut tmp) {
            Io::Ok(n) => {
                buf.put_slice(&tmp[..n]);
                Poll::Ready(Ok(()))
            }
            Io::Block => {
                self.waker_registered = true;
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Io::Err(k) => Poll::Ready(Err(k.into())),
        }
    }
}

/// A sink for bytes with faults; records what every call did and was offered.
pub struct SimWriter {
    ctx: Ctx,
    pub out: Vec<u8>,
    pub p: Profile,
    pub log: Vec<Io>,
    pub offered: Vec<usize>,
    /// bytes accepted before the sink accepts nothing any more
    pub cap: Option<usize>,
    pub waker_registered: bool,
}
impl SimWriter {
    pub fn new(ctx: &Ctx, p: Profile) -> Self {
        SimWriter { ctx: ctx.clone(), out: vec![], p, log: vec![], offered: vec![], cap: None, waker_registered: false }
    }
    fn step(&mut self, buf: &[u8]) -> Io {
        let room = self.cap.map_or(usize::MAX, |c| c - self.out.len());
        let avail = buf.len().min(room);
        let r = match decide(&self.ctx, &self.p, avail) {
            Decision::Go(n) => {
                self.out.extend_from_slice(&buf[..n]);
                Io::Ok(n)
            }
            Decision::Zero => Io::Ok(0),
            Decision::Block => Io::Block,
            Decision::Fail(k) => Io::Err(k),
        };
        let code = match &r {
            Io::Ok(n) => *n as u64,
            Io::Block => u64::MAX,
            Io::Err(k) => u64::MAX - 1 - *k as u64,
        };
        self.ctx.ev("write", buf.len() as u64, code);
        self.log.push(r.clone());
        self.offered.push(buf.len());
        r
    }
}
impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        match self.step(buf) {
            Io::Ok(n) => Ok(n),
            Io::Block => Err(io::ErrorKind::WouldBlock.into()),
            Io::Err(k) => Err(k.into()),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl AsyncWrite for SimWriter {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        match self.step(buf) {
            Io::Ok(n) => Poll::Ready(Ok(n)),
            Io::Block => {
                self.waker_registered = true;
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Io::Err(k) => Poll::Ready(Err(k.into())),
        }
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

/// Both directions of one endpoint, for `BufferedIo` on its own.
pub struct Duplex {
    pub r: SimReader,
    pub w: SimWriter,
}
impl Read for Duplex {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.r.read(buf)
    }
}
impl Write for Duplex {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.w.write(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl AsyncRead for Duplex {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.r).poll_read(cx, buf)
    }
}
impl AsyncWrite for Duplex {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        Pin::new(&mut self.w).poll_write(cx, buf)
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

/// One direction of a simulated connection: ordered, bounded, delayed.
pub struct Pipe {
    /// (time of arrival, bytes)
    transit: VecDeque<(u64, Vec<u8>)>,
    arrived: VecDeque<u8>,
    pub cap: usize,
    /// no more bytes are accepted; what has been accepted still arrives (unless cut)
    pub closed: bool,
    pub rwaker: Option<Waker>,
    pub wwaker: Option<Waker>,
    pub written: usize,
    pub read: usize,
}
impl Pipe {
    fn new(cap: usize) -> Self {
        Pipe { transit: VecDeque::new(), arrived: VecDeque::new(), cap, closed: false, rwaker: None, wwaker: None, written: 0, read: 0 }
    }
    pub fn in_flight(&self) -> usize {
        self.written - self.read
    }
    fn room(&self) -> usize {
        self.cap.saturating_sub(self.in_flight())
    }
}

/// The simulated network between two endpoints, with virtual time.
pub struct Net {
    pub ctx: Ctx,
    pub now: u64,
    pub pipes: [Pipe; 2],
    pub p: Profile,
    pub max_delay: u64,
    /// no byte moves until this time
    pub partition_until: u64,
    /// wake-ups that become due: (time, waker)
    timers: Vec<(u64, Waker)>,
}
pub type NetRef = Rc<RefCell<Net>>;
impl Net {
    pub fn new(ctx: &Ctx, cap0: usize, cap1: usize, p: Profile, max_delay: u64) -> NetRef {
        Rc::new(RefCell::new(Net {
            ctx: ctx.clone(),
            now: 0,
            pipes: [Pipe::new(cap0), Pipe::new(cap1)],
            p,
            max_delay,
            partition_until: 0,
            timers: vec![],
        }))
    }
    /// Advances time, delivers what is due, and returns the wakers to be woken.
    pub fn advance(&mut self, dt: u64) -> Vec<Waker> {
        self.now += dt;
        let now = self.now;
        let mut wake = vec![];
        self.timers.retain(|(t, w)| {
            if *t <= now {
                wake.push(w.clone());
                false
            } else {
                true
            }
        });
        if now >= self.partition_until {
            for p in &mut self.pipes {
                let mut any = false;
                while p.transit.front().is_some_and(|(t, _)| *t <= now) {
                    let (_, b) = p.transit.pop_front().expect("harness");
                    p.arrived.extend(b);
                    any = true;
                }
                if any || (p.closed && p.transit.is_empty()) {
                    wake.extend(p.rwaker.take());
                }
            }
        }
        wake
    }
    /// Time of the next thing that happens by itself.
    pub fn next_event(&self) -> Option<u64> {
        let mut t: Option<u64> = self.timers.iter().map(|x| x.0).min();
        for p in &self.pipes {
            let mut a = p.transit.front().map(|x| x.0.max(self.partition_until));
            if p.closed && p.rwaker.is_some() {
                a = Some(a.unwrap_or(self.now));
            }
            t = match (t, a) {
                (Some(x), Some(y)) => Some(x.min(y)),
                (x, y) => x.or(y),
            };
        }
        t
    }
    /// Wakes `w` at time `at`.
    pub fn timer(&mut self, at: u64, w: Waker) {
        self.timers.push((at, w));
    }
    /// The sender is done: what it has sent still arrives, then the reader sees the end.
    pub fn close(&mut self, dir: usize) {
        self.pipes[dir].closed = true;
    }
    pub fn stop_faults(&mut self) {
        self.p = Profile::none();
        self.max_delay = 1;
        self.partition_until = 0;
    }
    /// Cuts a direction: bytes still in transit beyond `keep` are lost and the reader sees the end.
    pub fn cut(&mut self, dir: usize, keep: usize) -> usize {
        let p = &mut self.pipes[dir];
        let mut all: Vec<u8> = vec![];
        for (_, b) in p.transit.drain(..) {
            all.extend(b);
        }
        let lost = all.len() - keep.min(all.len());
        all.truncate(keep);
        p.arrived.extend(all);
        p.written -= lost;
        p.closed = true;
        if let Some(w) = p.wwaker.take() {
            let now = self.now;
            self.timers.push((now, w));
        }
        lost
    }
    fn read(&mut self, dir: usize, buf: &mut [u8]) -> Io {
        let now = self.now;
        let parted = now < self.partition_until;
        let p = &mut self.pipes[dir];
        if p.arrived.is_empty() {
            if p.closed && p.transit.is_empty() {
                return Io::Ok(0);
            }
            return Io::Block;
        }
        let _ = parted;
        let avail = buf.len().min(p.arrived.len());
        if avail == 0 {
            return Io::Ok(0);
        }
        match decide(&self.ctx, &self.p, avail) {
            Decision::Go(n) => {
                for b in buf[..n].iter_mut() {
                    *b = p.arrived.pop_front().expect("harness");
                }
                p.read += n;
                if let Some(w) = p.wwaker.take() {
                    self.timers.push((now, w));
                }
                Io::Ok(n)
            }
            Decision::Block => Io::Block,
            Decision::Zero => Io::Block,
            Decision::Fail(k) => Io::Err(k),
        }
    }
    fn write(&mut self, dir: usize, buf: &[u8]) -> Io {
        let now = self.now;
        let p = &mut self.pipes[dir];
        if p.closed {
            return if self.ctx.below(2) == 0 { Io::Ok(0) } else { Io::Err(io::ErrorKind::BrokenPipe) };
        }
        let avail = buf.len().min(p.room());
        if avail == 0 {
            return Io::Block;
        }
        match decide(&self.ctx, &self.p, avail) {
            Decision::Go(n) => {
                let d = if self.max_delay > 0 { self.ctx.draw(self.max_delay + 1) } else { 0 };
                if d > 1 {
                    self.ctx.fault("delay");
                }
                let at = (now + d).max(p.transit.back().map_or(0, |x| x.0));
                p.transit.push_back((at, buf[..n].to_vec()));
                p.written += n;
                Io::Ok(n)
            }
            Decision::Block => Io::Block,
            Decision::Zero => Io::Block,
            Decision::Fail(k) => Io::Err(k),
        }
    }
}

/// One endpoint of a simulated connection.
pub struct SimStream {
    pub net: NetRef,
    /// direction this endpoint writes to
    pub out: usize,
}
impl SimStream {
    fn log(&self, tag: &'static str, len: usize, r: &Io) {
        let code = match r {
            Io::Ok(n) => *n as u64,
            Io::Block => u64::MAX,
            Io::Err(k) => u64::MAX - 1 - *k as u64,
        };
        self.net.borrow().ctx.ev(tag, (len * 2 + self.out) as u64, code);
    }
    fn do_read(&mut self, buf: &mut [u8]) -> Io {
        let r = self.net.borrow_mut().read(1 - self.out, buf);
        self.log("net-read", buf.len(), &r);
        r
    }
    fn do_write(&mut self, buf: &[u8]) -> Io {
        let r = self.net.borrow_mut().write(self.out, buf);
        self.log("net-write", buf.len(), &r);
        r
    }
}
impl Read for SimStream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        match self.do_read(buf) {
            Io::Ok(n) => Ok(n),
            Io::Block => Err(io::ErrorKind::WouldBlock.into()),
            Io::Err(k) => Err(k.into()),
        }
    }
}
impl Write for SimStream {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        match self.do_write(buf) {
            Io::Ok(n) => Ok(n),
            Io::Block => Err(io::ErrorKind::WouldBlock.into()),
            Io::Err(k) => Err(k.into()),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl AsyncRead for SimStream {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut tmp = vec![0; buf.remaining()];
        match self.do_read(&mut tmp) {
            Io::Ok(n) => {
                buf.put_slice(&tmp[..n]);
                Poll::Ready(Ok(()))
            }
            Io::Block => {
                let mut net = self.net.borrow_mut();
                let dir = 1 - self.out;
                if net.pipes[dir].arrived.is_empty() {
                    // Woken when something arrives.
                    net.pipes[dir].rwaker = Some(cx.waker().clone());
                } else {
                    // Injected: woken some time later. As with a real reactor, only the last registration counts.
                    let at = net.now + 1 + net.ctx.draw(5);
                    net.timers.push((at, cx.waker().clone()));
                }
                Poll::Pending
            }
            Io::Err(k) => Poll::Ready(Err(k.into())),
        }
    }
}
impl AsyncWrite for SimStream {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        match self.do_write(buf) {
            Io::Ok(n) => Poll::Ready(Ok(n)),
            Io::Block => {
                let mut net = self.net.borrow_mut();
                let dir = self.out;
                if net.pipes[dir].room() == 0 {
                    net.pipes[dir].wwaker = Some(cx.waker().clone());
                } else {
                    let at = net.now + 1 + net.ctx.draw(5);
                    net.timers.push((at, cx.waker().clone()));
                }
                Poll::Pending
            }
            Io::Err(k) => Poll::Ready(Err(k.into())),
        }
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
