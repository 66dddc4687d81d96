//! C14, C15, C17: the I/O buffers and the blocking helpers over faulty transports.
use super::basic::*;
use crate::codecs::*;
use crate::core::{kind_of, short, Ctx, R};
use crate::simio::*;
use crate::{ensure, fail};
use bytecodec::io::{BufferedIo, IoDecodeExt, IoEncodeExt, ReadBuf, StreamState, WriteBuf};
use bytecodec::{ByteCount, Decode, Encode, Eos, ErrorKind, Result as BResult};
use std::collections::VecDeque;
use std::io::{self, Read, Write};
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

/// Counts wake-ups.
pub struct CountWake(pub AtomicUsize);
impl Wake for CountWake {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}
pub fn counting() -> (Arc<CountWake>, Waker) {
    let c = Arc::new(CountWake(AtomicUsize::new(0)));
    let w = Waker::from(c.clone());
    (c, w)
}

/// Result of an I/O operation on a buffer.
#[derive(Debug, Clone, Copy, PartialEq)]
enum Res {
    Ok,
    Pending,
    Err(ErrorKind),
}
fn res(r: BResult<()>) -> Res {
    match r {
        Ok(()) => Res::Ok,
        Err(e) => Res::Err(kind_of(&e)),
    }
}
fn pres(r: Poll<BResult<()>>) -> Res {
    match r {
        Poll::Pending => Res::Pending,
        Poll::Ready(r) => res(r),
    }
}
fn mapped(k: io::ErrorKind) -> ErrorKind {
    if k == io::ErrorKind::UnexpectedEof {
        ErrorKind::UnexpectedEos
    } else {
        ErrorKind::Other
    }
}

/// What one operation must report, given what its calls of the transport did.
/// `stop` is the buffer's own reason to stop (full or empty); returns the expected stream state.
fn judge(what: &str, asyn: bool, log: &[Io], r: Res, stop: bool, before: StreamState) -> R<StreamState> {
    for x in &log[..log.len().saturating_sub(1)] {
        match x {
            Io::Ok(n) if *n > 0 => {}
            Io::Err(io::ErrorKind::Interrupted) => {}
            x => fail!("goes-on", "{what} goes on after the transport answered {x:?}"),
        }
    }
    let state = match log.last() {
        None => {
            ensure!(r == Res::Ok, "wrong-result", "{what} returns {r:?} without having called the transport");
            ensure!(stop, "stops-early", "{what} stops without reason: no call of the transport");
            return Ok(before);
        }
        Some(Io::Ok(0)) => {
            ensure!(r == Res::Ok, "wrong-result", "{what} returns {r:?} when the transport has ended");
            StreamState::Eos
        }
        Some(Io::Ok(_)) => {
            ensure!(r == Res::Ok, "wrong-result", "{what} returns {r:?} although every call succeeded");
            ensure!(stop, "stops-early", "{what} stops without reason after a successful call");
            StreamState::Normal
        }
        Some(Io::Block) => {
            let want = if asyn { Res::Pending } else { Res::Ok };
            ensure!(r == want, "wrong-result", "{what} returns {r:?} when the transport would block");
            StreamState::WouldBlock
        }
        Some(Io::Err(k)) => {
            ensure!(r == Res::Err(mapped(*k)), "wrong-result", "{what} returns {r:?} when the transport fails with {k:?}");
            StreamState::Error
        }
    };
    Ok(state)
}

// ---------------------------------------------------------------- spies

/// A decoder that takes as much of what it is offered as the run decides.
struct SpyDec {
    ctx: Ctx,
    offered: Vec<u8>,
    eos: bool,
    take: Take,
    took: usize,
}
#[derive(Clone, Copy, PartialEq)]
enum Take {
    None,
    Some,
    All,
    Fail,
}
impl Decode for SpyDec {
    type Item = ();
    fn decode(&mut self, buf: &[u8], eos: Eos) -> BResult<usize> {
        self.offered = buf.to_vec();
        self.eos = eos.is_reached();
        self.took = match self.take {
            Take::None => 0,
            Take::Some => self.ctx.below(buf.len() + 1),
            Take::All => buf.len(),
            Take::Fail => return Err(invalid("injected")),
        };
        Ok(self.took)
    }
    fn finish_decoding(&mut self) -> BResult<()> {
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Unknown
    }
}
struct SpyEnc {
    ctx: Ctx,
    offered: usize,
    eos: bool,
    take: Take,
    put: Vec<u8>,
}
impl Encode for SpyEnc {
    type Item = ();
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> BResult<usize> {
        self.offered = buf.len();
        self.eos = eos.is_reached();
        let n = match self.take {
            Take::None => 0,
            Take::Some => self.ctx.below(buf.len() + 1),
            Take::All => buf.len(),
            Take::Fail => {
                // Bytes written by a failed call do not count.
                for b in buf.iter_mut().take(2) {
                    *b ^= 0x55;
                }
                return Err(invalid("injected"));
            }
        };
        let b = self.ctx.bytes(n);
        buf[..n].copy_from_slice(&b);
        self.put = b;
        Ok(n)
    }
    fn start_encoding(&mut self, _: ()) -> BResult<()> {
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Unknown
    }
}
fn gen_take(ctx: &Ctx) -> Take {
    [Take::Some, Take::Some, Take::All, Take::None, Take::Fail][ctx.weighted(&[4, 4, 4, 1, 1])]
}

// ---------------------------------------------------------------- models

fn check_predicates(s: &StreamState) -> R {
    let got = (s.is_normal(), s.would_block(), s.is_eos(), s.is_error());
    let want = match s {
        StreamState::Normal => (true, false, false, false),
        StreamState::WouldBlock => (false, true, false, false),
        StreamState::Eos => (false, false, true, false),
        StreamState::Error => (false, false, false, true),
    };
    ensure!(got == want, "state", "the predicates of stream state {s:?} (normal, would block, eos, error) are {got:?}");
    Ok(())
}

struct RModel {
    fifo: VecDeque<u8>,
    state: StreamState,
    cap: usize,
}
impl RModel {
    fn check(&self, b: &ReadBuf<Vec<u8>>) -> R {
        let (len, room, cap) = (b.len(), b.room(), b.capacity());
        ensure!(len == self.fifo.len(), "len", "read buffer says it holds {len} bytes, it holds {}", self.fifo.len());
        ensure!(cap == self.cap, "capacity", "capacity {cap} instead of {}", self.cap);
        ensure!(len + room <= cap, "room", "len {len} + room {room} > capacity {cap}");
        ensure!(b.is_full() == (room == 0), "is-full", "is_full() = {} with room {room}", b.is_full());
        ensure!(b.is_empty() == (len == 0), "is-empty", "is_empty() = {} with len {len}", b.is_empty());
        ensure!(len > 0 || room == cap, "room", "empty read buffer of {cap} has room {room}");
        ensure!(b.stream_state() == self.state, "state", "stream state {:?} instead of {:?}", b.stream_state(), self.state);
        check_predicates(&b.stream_state())
    }
    /// A read of some bytes by the consumer.
    fn read(&mut self, ctx: &Ctx, b: &mut ReadBuf<Vec<u8>>) -> R {
        let n = match ctx.below(4) {
            0 => b.len(),
            1 => 1,
            2 => ctx.below(b.len() + 3),
            _ => ctx.below(6),
        };
        let mut out = vec![0xA5; n];
        let got = match b.read(&mut out) {
            Ok(k) => k,
            Err(e) => fail!("read-fails", "reading from the buffer fails: {e}"),
        };
        ctx.ev("buf-read", n as u64, got as u64);
        ensure!(got <= n && got <= self.fifo.len(), "invented", "{got} bytes read of {n}, the buffer held {}", self.fifo.len());
        ensure!(got == n.min(self.fifo.len()), "read-short", "{got} bytes read of {n}, the buffer held {}", self.fifo.len());
        for (i, x) in out.iter().enumerate() {
            if i < got {
                let w = self.fifo.pop_front().expect("harness");
                ensure!(*x == w, "wrong-bytes", "byte {i} of {got} read from the buffer is {x:#x} instead of {w:#x}");
            } else {
                ensure!(*x == 0xA5, "beyond-count", "read wrote behind the {got} bytes it returned");
            }
        }
        ctx.count_bytes(got);
        self.check(b)
    }
    fn decode(&mut self, ctx: &Ctx, b: &mut ReadBuf<Vec<u8>>, take: Take) -> R {
        let mut d = SpyDec { ctx: ctx.clone(), offered: vec![], eos: false, take, took: 0 };
        let r = d.decode_from_read_buf(b);
        ctx.ev("buf-decode", d.offered.len() as u64, d.took as u64);
        let held: Vec<u8> = self.fifo.iter().copied().collect();
        ensure!(
            d.offered == held,
            "wrong-bytes",
            "the decoder is offered {} instead of the buffered {}",
            short(&d.offered),
            short(&held)
        );
        ensure!(d.eos == self.state.is_eos(), "wrong-eos", "the decoder is told end of stream = {} in state {:?}", d.eos, self.state);
        if take == Take::Fail {
            ctx.fault("codec-error");
            match r {
                Ok(()) => fail!("error-lost", "the decoder's error is not reported"),
                Err(e) => ensure!(kind_of(&e) == ErrorKind::InvalidInput, "error-kind", "the decoder's error becomes {:?}", kind_of(&e)),
            }
        } else {
            ensure!(r.is_ok(), "error-invented", "decode_from_read_buf fails, the decoder did not");
            self.fifo.drain(..d.took);
            ctx.count_bytes(d.took);
        }
        self.check(b)
    }
    /// Bytes that the transport handed out during an operation.
    fn filled(&mut self, b: &ReadBuf<Vec<u8>>, new: &[u8]) -> R {
        self.fifo.extend(new);
        self.check(b)
    }
}

struct WModel {
    fifo: VecDeque<u8>,
    state: StreamState,
    cap: usize,
    /// waits for room: wake-ups counted
    waiter: Option<(Arc<CountWake>, usize)>,
    /// wake-ups are judged (C16)
    wakes: bool,
}
impl WModel {
    fn check(&self, b: &WriteBuf<Vec<u8>>) -> R {
        let (len, room, cap) = (b.len(), b.room(), b.capacity());
        ensure!(len == self.fifo.len(), "len", "write buffer says it holds {len} bytes, it holds {}", self.fifo.len());
        ensure!(cap == self.cap, "capacity", "capacity {cap} instead of {}", self.cap);
        ensure!(len + room <= cap, "room", "len {len} + room {room} > capacity {cap}");
        ensure!(b.is_full() == (room == 0), "is-full", "is_full() = {} with room {room}", b.is_full());
        ensure!(b.is_empty() == (len == 0), "is-empty", "is_empty() = {} with len {len}", b.is_empty());
        ensure!(len > 0 || room == cap, "room", "empty write buffer of {cap} has room {room}");
        ensure!(b.stream_state() == self.state, "state", "stream state {:?} instead of {:?}", b.stream_state(), self.state);
        check_predicates(&b.stream_state())
    }
    fn write(&mut self, ctx: &Ctx, b: &mut WriteBuf<Vec<u8>>) -> R {
        let n = match ctx.below(4) {
            0 => b.room(),
            1 => 1,
            2 => ctx.below(b.room() + 3),
            _ => ctx.below(6),
        };
        let data = ctx.bytes(n);
        let room = b.room();
        let got = match b.write(&data) {
            Ok(k) => k,
            Err(e) => fail!("write-fails", "writing to the buffer fails: {e}"),
        };
        let _ = Write::flush(b);
        ctx.ev("buf-write", n as u64, got as u64);
        ensure!(got <= n && got >= n.min(room), "write-short", "{got} bytes taken of {n} with room for {room}");
        self.fifo.extend(&data[..got]);
        ctx.count_bytes(got);
        self.check(b)
    }
    fn encode(&mut self, ctx: &Ctx, b: &mut WriteBuf<Vec<u8>>, take: Take, asyn: bool) -> R {
        let mut e = SpyEnc { ctx: ctx.clone(), offered: 0, eos: false, take, put: vec![] };
        let room = b.room();
        // A task that waits stays registered while others encode without waiting.
        let r = if asyn && !ctx.chance(1, 4) {
            let (c, w) = counting();
            let r = e.encode_to_write_buf_async(b, &mut Context::from_waker(&w));
            if r.is_ok() {
                self.waiter = Some((c, 0));
            }
            r
        } else {
            e.encode_to_write_buf(b)
        };
        ctx.ev("buf-encode", e.offered as u64, e.put.len() as u64);
        ensure!(
            e.offered >= room && e.offered + self.fifo.len() <= self.cap,
            "wrong-space",
            "the encoder is offered {} bytes with room for {room} ({} of {} used)",
            e.offered,
            self.fifo.len(),
            self.cap
        );
        ensure!(e.eos == self.state.is_eos(), "wrong-eos", "the encoder is told end of stream = {} in state {:?}", e.eos, self.state);
        if take == Take::Fail {
            ctx.fault("codec-error");
            match r {
                Ok(()) => fail!("error-lost", "the encoder's error is not reported"),
                Err(e) => ensure!(kind_of(&e) == ErrorKind::InvalidInput, "error-kind", "the encoder's error becomes {:?}", kind_of(&e)),
            }
        } else {
            ensure!(r.is_ok(), "error-invented", "encode_to_write_buf fails, the encoder did not");
            self.fifo.extend(&e.put);
            ctx.count_bytes(e.put.len());
        }
        self.check(b)
    }
    /// Bytes that the transport accepted during an operation.
    fn flushed(&mut self, b: &WriteBuf<Vec<u8>>, new: &[u8], had_room: bool) -> R {
        ensure!(new.len() <= self.fifo.len(), "invented", "{} bytes sent, the buffer held {}", new.len(), self.fifo.len());
        for (i, x) in new.iter().enumerate() {
            let w = self.fifo.pop_front().expect("harness");
            ensure!(*x == w, "wrong-bytes", "byte {i} of {} sent is {x:#x} instead of {w:#x}", new.len());
        }
        self.check(b)?;
        if let Some((ref c, ref mut seen)) = self.waiter {
            let now = c.0.load(Ordering::SeqCst);
            ensure!(
                now > *seen || had_room || b.room() == 0 || !self.wakes,
                "no-wake",
                "the full buffer has room for {} again, the task that waits for it is not woken",
                b.room()
            );
            *seen = now;
        }
        Ok(())
    }
}

fn capacity(ctx: &Ctx) -> usize {
    match ctx.below(8) {
        0 => 1,
        1 => 2,
        2..=4 => 1 + ctx.below(12),
        5 | 6 => 1 + ctx.size(if ctx.chance(1, 20) { 70_001 } else { 300 }),
        _ => ctx.below(2),
    }
}
/// The owner of the storage makes it larger, or (an empty one) of any size.
fn restore(ctx: &Ctx, v: &mut Vec<u8>, empty: bool) -> usize {
    ctx.fault("storage-resized");
    let n = if empty { capacity(ctx).max(ctx.below(2)) } else { v.len() + 1 + ctx.size(40) };
    ctx.ev("resize", v.len() as u64, n as u64);
    v.resize(n, 0xEE);
    n
}
fn set_state(ctx: &Ctx, s: &mut StreamState) -> StreamState {
    *s = [StreamState::Normal, StreamState::Eos, StreamState::WouldBlock, StreamState::Error][ctx.below(4)];
    *s
}

// ---------------------------------------------------------------- separate buffers

fn fill(ctx: &Ctx, asyn: bool, m: &mut RModel, b: &mut ReadBuf<Vec<u8>>, r: &mut SimReader) -> R {
    let (p0, l0) = (r.pos, r.log.len());
    let (c, w) = counting();
    let out = if asyn {
        pres(b.poll_fill(Pin::new(&mut *r), &mut Context::from_waker(&w)))
    } else {
        res(b.fill(&mut *r))
    };
    ctx.ev("fill", (r.pos - p0) as u64, b.room() as u64);
    ensure!(out != Res::Pending || c.0.load(Ordering::SeqCst) > 0, "pending-alone", "poll_fill is pending, the transport does not know this task");
    let log = &r.log[l0..];
    if log.last() == Some(&Io::Ok(0)) {
        ensure!(r.pos == r.data.len(), "empty-read", "a read into no space is taken for the end of the stream");
    }
    m.state = judge("fill", asyn, log, out, b.room() == 0, m.state)?;
    let new = r.data[p0..r.pos].to_vec();
    m.filled(b, &new)
}
fn flush(ctx: &Ctx, asyn: bool, m: &mut WModel, b: &mut WriteBuf<Vec<u8>>, w: &mut SimWriter) -> R {
    let (p0, l0) = (w.out.len(), w.log.len());
    let (c, wk) = counting();
    let had_room = b.room() > 0;
    let out = if asyn {
        pres(b.poll_flush(Pin::new(&mut *w), &mut Context::from_waker(&wk)))
    } else {
        res(b.flush(&mut *w))
    };
    ctx.ev("flush", (w.out.len() - p0) as u64, b.len() as u64);
    ensure!(out != Res::Pending || c.0.load(Ordering::SeqCst) > 0, "pending-alone", "poll_flush is pending, the transport does not know this task");
    ensure!(w.offered[l0..].iter().all(|&n| n > 0), "empty-write", "a write of nothing");
    m.state = judge("flush", asyn, &w.log[l0..], out, b.len() == 0, m.state)?;
    let new = w.out[p0..].to_vec();
    m.flushed(b, &new, had_room)
}

fn read_side(ctx: &Ctx, asyn: bool) -> R {
    let cap = capacity(ctx);
    let total = ctx.size(if ctx.chance(1, 60) { 70_001 } else { 600 });
    let first = ctx.below(total + 1);
    let data = ctx.bytes(total);
    let mut r = SimReader::new(ctx, data[..first].to_vec(), Profile::swarm(ctx));
    let mut b = ReadBuf::new(vec![0u8; cap]);
    let mut m = RModel { fifo: VecDeque::new(), state: StreamState::Normal, cap };
    ctx.note(|| format!("read buffer of {cap}, source of {total} bytes ({first} at first), {:?}", r.p));
    m.check(&b)?;
    let ops = ctx.count(200, |ctx| 2 + ctx.below(40));
    for _ in 0..ops {
        match ctx.weighted(&[16, 10, 10, 2, 2, 2, 1]) {
            6 => {
                let empty = b.len() == 0;
                m.cap = restore(ctx, b.inner_mut(), empty);
                m.check(&b)?
            }
            0 => fill(ctx, asyn, &mut m, &mut b, &mut r)?,
            1 => m.read(ctx, &mut b)?,
            2 => m.decode(ctx, &mut b, gen_take(ctx))?,
            3 => {
                // More arrives behind what seemed to be the end.
                let n = r.data.len() + ctx.below(total - r.data.len() + 1);
                r.data = data[..n].to_vec();
            }
            4 => m.state = set_state(ctx, b.stream_state_mut()),
            _ => {
                ctx.fault("mode-switch");
                fill(ctx, !asyn, &mut m, &mut b, &mut r)?
            }
        }
    }
    // Without faults, the rest gets through, and the end is seen.
    r.p = Profile::none();
    r.data = data;
    let mut steps = 0;
    while m.cap > 0 && (r.pos < r.data.len() || b.len() > 0 || !b.stream_state().is_eos()) {
        fill(ctx, asyn, &mut m, &mut b, &mut r)?;
        m.decode(ctx, &mut b, Take::All)?;
        steps += 1;
        ensure!(steps <= total + 3, "stall", "{steps} rounds without faults, {} of {total} bytes read", r.pos);
    }
    Ok(())
}

fn write_side(ctx: &Ctx, asyn: bool, wakes: bool) -> R {
    let cap = capacity(ctx);
    let mut p = Profile::swarm(ctx);
    p.zero = [0, 0, 2][ctx.below(3)];
    let mut w = SimWriter::new(ctx, p);
    let mut b = WriteBuf::new(vec![0u8; cap]);
    let mut m = WModel { fifo: VecDeque::new(), state: StreamState::Normal, cap, waiter: None, wakes };
    ctx.note(|| format!("write buffer of {cap}, {p:?}"));
    m.check(&b)?;
    for _ in 0..ctx.count(200, |ctx| 2 + ctx.below(40)) {
        match ctx.weighted(&[16, 10, 12, 2, 2, 1]) {
            5 => {
                let empty = b.len() == 0;
                m.cap = restore(ctx, b.inner_mut(), empty);
                m.check(&b)?
            }
            0 => flush(ctx, asyn, &mut m, &mut b, &mut w)?,
            1 => m.write(ctx, &mut b)?,
            2 => m.encode(ctx, &mut b, gen_take(ctx), asyn)?,
            3 => m.state = set_state(ctx, b.stream_state_mut()),
            _ => {
                ctx.fault("mode-switch");
                flush(ctx, !asyn, &mut m, &mut b, &mut w)?
            }
        }
    }
    w.p = Profile::none();
    flush(ctx, asyn, &mut m, &mut b, &mut w)?;
    ensure!(b.len() == 0, "stall", "a flush without faults leaves {} bytes", b.len());
    Ok(())
}

// ---------------------------------------------------------------- both directions

fn both_sides(ctx: &Ctx, asyn: bool, wakes: bool) -> R {
    let (rc, wc) = (capacity(ctx), capacity(ctx));
    let total = ctx.size(400);
    let data = ctx.bytes(total);
    let r = SimReader::new(ctx, data, Profile::swarm(ctx));
    let mut p = Profile::swarm(ctx);
    p.zero = [0, 0, 2][ctx.below(3)];
    let w = SimWriter::new(ctx, p);
    ctx.note(|| format!("buffered I/O {rc}/{wc}, source of {total} bytes, {:?} {p:?}", r.p));
    let mut io = BufferedIo::new(Duplex { r, w }, rc, wc);
    let mut rm = RModel { fifo: VecDeque::new(), state: StreamState::Normal, cap: rc };
    let mut wm = WModel { fifo: VecDeque::new(), state: StreamState::Normal, cap: wc, waiter: None, wakes };
    let rounds = 2 + ctx.below(40);
    let mut last = 0;
    for i in 0..rounds + 4000 {
        if i >= rounds {
            io.stream_mut().r.p = Profile::none();
            io.stream_mut().w.p = Profile::none();
            if (rm.cap == 0 || (io.stream_ref().r.pos == total && io.read_buf_ref().is_empty())) && io.write_buf_ref().is_empty() {
                break;
            }
            ensure!(i < rounds + 2 * total + 10, "stall", "no end after {last} rounds without faults");
            last += 1;
        }
        let op = if i >= rounds { [0, 2][(i - rounds) % 2] } else { ctx.weighted(&[16, 8, 8, 8, 8, 1, 1]) };
        match op {
            5 => {
                let b = io.read_buf_mut();
                let empty = b.len() == 0;
                rm.cap = restore(ctx, b.inner_mut(), empty);
            }
            6 => {
                let b = io.write_buf_mut();
                let empty = b.len() == 0;
                wm.cap = restore(ctx, b.inner_mut(), empty);
            }
            0 => {
                let (rp, wp) = (io.stream_ref().r.pos, io.stream_ref().w.out.len());
                let (rl, wl) = (io.stream_ref().r.log.len(), io.stream_ref().w.log.len());
                let had_room = io.write_buf_ref().room() > 0;
                let (c, wk) = counting();
                let out = if asyn {
                    pres(Pin::new(&mut io).execute_io_poll(&mut Context::from_waker(&wk)))
                } else {
                    res(io.execute_io())
                };
                ctx.ev("execute-io", (io.stream_ref().r.pos - rp) as u64, (io.stream_ref().w.out.len() - wp) as u64);
                let s = io.stream_ref();
                let (rlog, wlog) = (&s.r.log[rl..], &s.w.log[wl..]);
                ensure!(rlog.last() != Some(&Io::Ok(0)) || s.r.pos == s.r.data.len(), "empty-read", "a read into no space is taken for the end of the stream");
                let fate = |l: Option<&Io>| match l {
                    Some(Io::Err(k)) => Res::Err(mapped(*k)),
                    Some(Io::Block) if asyn => Res::Pending,
                    _ => Res::Ok,
                };
                let (rf, wf) = (fate(rlog.last()), fate(wlog.last()));
                // Combined result.
                match (rf, wf) {
                    (Res::Err(a), Res::Err(b)) => ensure!(out == Res::Err(a) || out == Res::Err(b), "wrong-result", "both directions fail, the result is {out:?}"),
                    (Res::Err(a), _) | (_, Res::Err(a)) => ensure!(out == Res::Err(a), "wrong-result", "a direction fails with {a:?}, the result is {out:?}"),
                    (Res::Pending, Res::Pending) => {
                        ensure!(out == Res::Pending, "wrong-result", "both directions are pending, the result is {out:?}")
                    }
                    _ => ensure!(out == Res::Ok, "wrong-result", "no direction fails and one of them is not pending ({rf:?}, {wf:?}), the result is {out:?}"),
                }
                if out == Res::Pending {
                    ensure!(c.0.load(Ordering::SeqCst) > 0, "pending-alone", "pending, the transport does not know this task");
                }
                // After an error of one direction the other one need not have been tried.
                let failed = matches!(out, Res::Err(_));
                if !(failed && rlog.is_empty()) {
                    rm.state = judge("fill", asyn, rlog, rf, io.read_buf_ref().room() == 0, rm.state)?;
                }
                if !(failed && wlog.is_empty()) {
                    wm.state = judge("flush", asyn, wlog, wf, io.write_buf_ref().len() == 0, wm.state)?;
                }
                let new = io.stream_ref().r.data[rp..io.stream_ref().r.pos].to_vec();
                rm.filled(io.read_buf_ref(), &new)?;
                let new = io.stream_ref().w.out[wp..].to_vec();
                wm.flushed(io.write_buf_ref(), &new, had_room)?;
            }
            1 => rm.read(ctx, io.read_buf_mut())?,
            2 => rm.decode(ctx, io.read_buf_mut(), if i >= rounds { Take::All } else { gen_take(ctx) })?,
            3 => wm.write(ctx, io.write_buf_mut())?,
            _ => wm.encode(ctx, io.write_buf_mut(), gen_take(ctx), asyn)?,
        }
        let eos = rm.state.is_eos() || wm.state.is_eos();
        ensure!(io.is_eos() == eos, "is-eos", "is_eos() = {} with states {:?}, {:?}", io.is_eos(), rm.state, wm.state);
        let wb = rm.state.would_block() && (wm.fifo.is_empty() || wm.state.would_block());
        ensure!(
            io.would_block() == wb,
            "would-block",
            "would_block() = {} with states {:?}, {:?} and {} bytes to write",
            io.would_block(),
            rm.state,
            wm.state,
            wm.fifo.len()
        );
        rm.check(io.read_buf_ref())?;
        wm.check(io.write_buf_ref())?;
    }
    Ok(())
}

pub fn c14(ctx: &Ctx) -> R {
    match ctx.below(3) {
        0 => read_side(ctx, false),
        1 => write_side(ctx, false, false),
        _ => both_sides(ctx, false, false),
    }
}
pub fn c15(ctx: &Ctx) -> R {
    match ctx.below(3) {
        0 => read_side(ctx, true),
        1 => write_side(ctx, true, false),
        _ => both_sides(ctx, true, false),
    }
}

/// The buffers' part of C16: whoever waits for room is woken when there is room again.
pub fn c16_buffers(ctx: &Ctx) -> R {
    if ctx.below(2) == 0 {
        write_side(ctx, true, true)
    } else {
        both_sides(ctx, true, true)
    }
}

// ---------------------------------------------------------------- C17

fn exact(ctx: &Ctx) -> R {
    let c = dec_case(ctx);
    let k = c.vals.len();
    let env = Env::new(ctx);
    // What does not know its need is read byte by byte.
    env.0.vague.set(c.data.len() < 20_000);
    let mut d = dec(&c.sc, &env);
    let maybe = c.self_delim && c.sc.reusable() && c.sc.min() > 0 && ctx.chance(1, 4);
    if maybe {
        ctx.probe("below-maybe-eos");
        d = probe_dec(bytecodec::DecodeExt::maybe_eos(d), false, &env, "maybe_eos");
    }
    let mut data = c.data.clone();
    if c.self_delim && ctx.below(3) > 0 {
        let n = 1 + ctx.below(1500);
        data.extend(ctx.bytes(n));
    }
    let cut = ctx.chance(1, 3) && c.self_delim && !c.data.is_empty();
    if cut {
        data.truncate(ctx.below(c.data.len()));
        ctx.fault("truncate");
    }
    let mut r = SimReader::new(ctx, data.clone(), Profile::swarm(ctx));
    ctx.note(|| format!("reader of {} bytes, {:?}", data.len(), r.p));
    for i in 0..k {
        let start = if i == 0 { 0 } else { c.ends[i - 1] };
        let complete = c.ends[i] <= data.len();
        let mut calls = 0;
        loop {
            let l0 = r.log.len();
            let out = d.decode_exact(&mut r);
            env.check()?;
            let log = &r.log[l0..];
            calls += 1;
            ctx.ev("decode-exact", r.pos as u64, u64::from(out.is_ok()));
            ensure!(
                r.pos <= c.ends[i],
                "over-read",
                "item {i} spans bytes {start}..{}, the reader is at {}",
                c.ends[i],
                r.pos
            );
            ensure!(calls < 5000 + 50 * data.len(), "stall", "item {i} does not get decoded in {calls} calls");
            match out {
                Ok(v) => {
                    let want = c.vals[i].norm();
                    ensure!(complete, "item-invented", "item {i} of {}..{} from a reader of {} bytes: {}", start, c.ends[i], data.len(), short(&v));
                    ensure!(v == want, "item-wrong", "item {i} is {} instead of {}", short(&v), short(&want));
                    ensure!(r.pos == c.ends[i], "over-read", "item {i} ends at {}, the reader is at {}", c.ends[i], r.pos);
                    ctx.count_item();
                    break;
                }
                Err(e) => {
                    let kind = kind_of(&e);
                    match log.last() {
                        Some(Io::Err(io)) => ensure!(kind == mapped(*io), "error-kind", "the reader failed with {io:?}, the error is {kind:?}"),
                        Some(Io::Block) => ensure!(kind == ErrorKind::Other, "error-kind", "the reader would block, the error is {kind:?}"),
                        x => {
                            ensure!(!complete, "valid-rejected", "item {i} is there, but decode_exact fails with {kind:?} (last read: {x:?})");
                            // The stream has ended inside the item.
                            ensure!(x == Some(&Io::Ok(0)), "gives-up", "decode_exact fails with {kind:?} before the end of the stream (last read: {x:?})");
                            ensure!(r.pos == data.len(), "gives-up", "decode_exact fails with {kind:?} at {} of {}", r.pos, data.len());
                            ensure!(kind == ErrorKind::UnexpectedEos, "wrong-kind", "the end inside item {i} is reported as {kind:?}");
                            ctx.count_item();
                            return Ok(());
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

fn all(ctx: &Ctx) -> R {
    let c = enc_case(ctx);
    let env = Env::new(ctx);
    let mut p = Profile::swarm(ctx);
    p.zero = [0, 0, 0, 1][ctx.below(4)];
    let mut w = SimWriter::new(ctx, p);
    if ctx.chance(1, 4) {
        w.cap = Some(ctx.below(c.data.len() + 1));
    }
    ctx.note(|| format!("writer {p:?}, capacity {:?}", w.cap));
    let mut e = enc_codec(&c.sc, &env);
    let mut start = 0;
    for (i, v) in c.vals.iter().enumerate() {
        let item = &c.data[start..c.ends[i]];
        start = c.ends[i];
        start_ok(&mut e, v.clone())?;
        let base = w.out.len();
        let l0 = w.log.len();
        let out = e.encode_all(&mut w);
        env.check()?;
        let got = &w.out[base..];
        ctx.ev("encode-all", got.len() as u64, u64::from(out.is_ok()));
        ensure!(got.len() <= item.len() && *got == item[..got.len()], "wrong-bytes", "the writer got {}, the item is {}", short(&got), short(&item));
        let log = &w.log[l0..];
        match out {
            Ok(()) => {
                ensure!(got.len() == item.len(), "incomplete", "encode_all succeeds with {} of {} bytes written", got.len(), item.len());
                ensure!(e.is_idle(), "not-idle", "encode_all succeeds, the encoder is not idle");
                ctx.count_item();
                let n = w.log.len();
                let r = e.encode_all(&mut w);
                ensure!(r.is_ok(), "idle-fails", "encode_all of nothing fails");
                ensure!(w.log[n..].iter().all(|x| !matches!(x, Io::Ok(n) if *n > 0)), "idle-writes", "encode_all of nothing writes");
            }
            Err(err) => {
                let kind = kind_of(&err);
                match log.last() {
                    Some(Io::Err(k)) if *k != io::ErrorKind::Interrupted => {
                        ensure!(kind == mapped(*k), "error-kind", "the writer failed with {k:?}, the error is {kind:?}")
                    }
                    Some(Io::Block) | Some(Io::Ok(0)) => ensure!(kind == ErrorKind::Other, "error-kind", "the writer accepts nothing, the error is {kind:?}"),
                    x => fail!("error-invented", "encode_all fails with {kind:?}, the writer did not (last write: {x:?})"),
                }
                ctx.fault("write-failed");
                // Give up on this encoder: what has been delivered is a prefix.
                return Ok(());
            }
        }
    }
    Ok(())
}

/// Blocking helpers over a sliced codec, which stops when its grant is used up.
fn granted(ctx: &Ctx) -> R {
    let c = enc_case(ctx);
    let env = Env::new(ctx);
    env.0.vague.set(c.data.len() < 20_000);
    let len = c.ends[0];
    let grant = |ctx: &Ctx| match ctx.below(4) {
        0 => ctx.below(len + 1),
        1 => len.saturating_sub(1),
        2 => len,
        _ => len + 1 + ctx.below(2000),
    };
    let item = &c.data[..len];
    if ctx.below(2) == 0 {
        let mut e = bytecodec::EncodeExt::slice(enc_codec(&c.sc, &env));
        let r = e.start_encoding(c.vals[0].clone());
        ensure!(r.is_ok(), "start-refused", "idle sliced encoder refuses an item");
        let mut w = SimWriter::new(ctx, Profile::none());
        for round in 0..4 {
            let g = if round == 3 { len + 1 } else { grant(ctx) };
            e.set_consumable_bytes(g as u64);
            let base = w.out.len();
            let out = e.encode_all(&mut w);
            env.check()?;
            ctx.ev("encode-granted", g as u64, w.out.len() as u64);
            let want = (base + g).min(len);
            ensure!(w.out == item[..want], "wrong-bytes", "{} bytes delivered instead of {want}, {g} granted behind {base}", w.out.len());
            if let Err(x) = out {
                ctx.fault("grant-too-small");
                ensure!(want < len || !e.is_idle(), "encode-fails", "encode_all fails with {:?}, {g} bytes granted for {}", kind_of(&x), len - base);
                ensure!(base + g < len || len == 0, "encode-fails", "encode_all fails with {:?}, {g} bytes granted for {}", kind_of(&x), len - base);
            } else {
                ensure!(want == len && e.is_idle(), "incomplete", "encode_all succeeds with {want} of {len} bytes written");
                ctx.count_item();
                break;
            }
        }
    } else if c.self_delim && !c.sc.has_maxb() {
        let mut d = bytecodec::DecodeExt::slice(dec(&c.sc, &env));
        let g = grant(ctx);
        d.set_consumable_bytes(g as u64);
        let mut data = item.to_vec();
        let n = ctx.below(3000);
        data.extend(ctx.bytes(n));
        let mut r = SimReader::new(ctx, data, Profile::none());
        let out = d.decode_exact(&mut r);
        env.check()?;
        ctx.ev("decode-granted", g as u64, r.pos as u64);
        ensure!(r.pos <= len, "over-read", "the item ends at {len}, the reader is at {}", r.pos);
        match out {
            Ok(v) => {
                ensure!(g >= len, "item-invented", "an item of {len} bytes with {g} granted");
                ensure!(v == c.vals[0].norm() && r.pos == len, "item-wrong", "{} instead of {}", short(&v), short(&c.vals[0]));
                ctx.count_item();
            }
            Err(x) => {
                ensure!(g < len, "valid-rejected", "decode_exact fails with {:?}, {g} bytes granted for {len}", kind_of(&x));
                ctx.fault("grant-too-small");
            }
        }
    }
    Ok(())
}

pub fn c17(ctx: &Ctx) -> R {
    match ctx.weighted(&[40, 20, 4, 1]) {
        0 => exact(ctx),
        1 => all(ctx),
        2 => granted(ctx),
        _ => super::huge::io(ctx),
    }
}
