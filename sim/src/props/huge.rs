//! Items, frames, limits and grants of more bytes than 16, 31 or 32 bits can count.
//!
//! The bytes themselves are never looked at: a sink takes what it is offered and a source claims to have
//! filled what it is given, so that the combinators around them, which are real, count to 2^33 in a few calls.
use crate::core::{kind_of, Ctx, R};
use crate::{ensure, fail};
use bytecodec::combinator::{MaxBytes, Slice};
use bytecodec::io::{IoDecodeExt, IoEncodeExt};
use bytecodec::tuple::{TupleDecoder, TupleEncoder};
use bytecodec::{ByteCount, Decode, DecodeExt, Encode, EncodeExt, Eos, Error, ErrorKind, Result, SizedEncode};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use trackable::error::ErrorKindExt;

thread_local!(static SPACE: Cell<(*mut u8, usize)> = const { Cell::new((std::ptr::null_mut(), 0)) });
extern "C" {
    fn memfd_create(name: *const u8, flags: u32) -> i32;
    fn ftruncate(fd: i32, len: i64) -> i32;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn close(fd: i32) -> i32;
}
const PAGE: usize = 1 << 23;
/// 2^32 bytes and some of address space with the same few pages behind all of it.
fn map() -> Option<(*mut u8, usize)> {
    const SHARED: i32 = 1;
    const PRIVATE_ANONYMOUS_NORESERVE: i32 = 2 | 0x20 | 0x4000;
    const FIXED: i32 = 0x10;
    let n = (1 << 32) + PAGE;
    // SAFETY: a fresh mapping, which is then replaced part by part.
    unsafe {
        let fd = memfd_create(c"zeros".as_ptr().cast(), 0);
        if fd < 0 || ftruncate(fd, PAGE as i64) != 0 {
            return None;
        }
        let base = mmap(std::ptr::null_mut(), n, 0, PRIVATE_ANONYMOUS_NORESERVE, -1, 0);
        let ok = base as isize != -1 && (0..n / PAGE).all(|i| mmap(base.add(i * PAGE), PAGE, 3, SHARED | FIXED, fd, 0) as isize != -1);
        close(fd);
        ok.then_some((base, n))
    }
}
fn space() -> (*mut u8, usize) {
    SPACE.with(|s| {
        if s.get().0.is_null() {
            s.set(map().unwrap_or_else(|| {
                let l = vec![0u8; 1 << 20].leak();
                (l.as_mut_ptr(), l.len())
            }));
        }
        s.get()
    })
}
fn room() -> u64 {
    space().1 as u64
}
/// Calls that are enough for `n` bytes.
fn most(n: u64) -> u32 {
    80 + (n / room() * 2) as u32
}
fn zeros(n: u64) -> &'static [u8] {
    let (p, z) = space();
    // SAFETY: allocated above, never freed, and lent to one codec call at a time.
    unsafe { std::slice::from_raw_parts(p, (n as usize).min(z)) }
}
fn zeros_mut(n: u64) -> &'static mut [u8] {
    let (p, z) = space();
    // SAFETY: as above.
    unsafe { std::slice::from_raw_parts_mut(p, (n as usize).min(z)) }
}

/// A number of bytes around the limits of the integer types. `full`: one that can be streamed completely.
fn huge(ctx: &Ctx, full: bool) -> u64 {
    const K: u64 = 1 << 32;
    let base = [1 << 16, 1 << 31, K, K, 2 * K, 3 * K, 1 << 20, 1 << 40, 1 << 48, 1 << 63, u64::MAX - 700];
    let b = base[ctx.below(if full { 7 } else { base.len() })];
    match ctx.below(4) {
        0 => b + ctx.draw(4),
        1 => b - ctx.draw(4),
        2 => b + ctx.draw(700),
        _ => b - ctx.draw(700),
    }
}
fn piece(ctx: &Ctx, left: u64, calls: u32) -> u64 {
    let n = if calls > 30 {
        left
    } else {
        match ctx.weighted(&[1, 2, 2, 3, 3, 5]) {
            0 => 0,
            1 => 1 + ctx.draw(9),
            2 => 1 + ctx.draw(5000),
            3 => [1u64 << 16, 1 << 31, 1 << 32][ctx.below(3)] - 1 + ctx.draw(3),
            4 => 1 + ctx.draw(room()),
            _ => left,
        }
    };
    if n < left {
        ctx.fault("huge-piece");
    }
    n.min(left).min(room())
}

fn err(k: ErrorKind) -> Error {
    k.cause("simulated content").into()
}

struct SinkState {
    /// `None`: up to the end of the stream.
    want: Option<u64>,
    /// Where the stream it sees ends, if that is announced to it.
    end: Option<u64>,
    seen: u64,
    got: u64,
    done: bool,
    viol: Option<String>,
}
#[derive(Clone)]
struct Sink(Rc<RefCell<SinkState>>);
impl Sink {
    fn new(want: Option<u64>, end: Option<u64>) -> Self {
        Sink(Rc::new(RefCell::new(SinkState { want, end, seen: 0, got: 0, done: false, viol: None })))
    }
    fn plain(want: u64) -> Self {
        let s = Sink::new(Some(want), None);
        s.0.borrow_mut().viol = Some(String::new());
        s
    }
    fn check(&self) -> R {
        match self.0.borrow_mut().viol.take() {
            Some(v) if !v.is_empty() => crate::core::viol("content-view", v),
            _ => Ok(()),
        }
    }
}
impl Decode for Sink {
    type Item = u64;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        if self.is_idle() {
            return Ok(0);
        }
        let mut s = self.0.borrow_mut();
        let after = s.seen + buf.len() as u64;
        if s.viol.is_none() {
            match (s.end, eos.remaining_bytes()) {
                (Some(e), _) if after > e => s.viol = Some(format!("content is offered {after} of {e} bytes")),
                (Some(e), _) if eos.is_reached() != (after == e) => {
                    s.viol = Some(format!("the end is announced: {}, with {after} of {e} bytes offered", eos.is_reached()))
                }
                (Some(e), ByteCount::Finite(n)) if n != e - after => s.viol = Some(format!("content is told {n} bytes to the end instead of {}", e - after)),
                (None, ByteCount::Finite(n)) => s.viol = Some(format!("content is told {n} bytes to an end nobody announced")),
                _ => {}
            }
        }
        let n = match s.want {
            None => {
                s.done = eos.is_reached();
                buf.len() as u64
            }
            Some(k) => {
                let n = (buf.len() as u64).min(k - s.got);
                if s.got + n < k && eos.is_reached() {
                    return Err(err(ErrorKind::UnexpectedEos));
                }
                n
            }
        };
        s.got += n;
        s.seen += n;
        Ok(n as usize)
    }
    fn finish_decoding(&mut self) -> Result<u64> {
        if !self.is_idle() {
            return Err(err(ErrorKind::IncompleteDecoding));
        }
        let mut s = self.0.borrow_mut();
        s.done = false;
        Ok(std::mem::take(&mut s.got))
    }
    fn requiring_bytes(&self) -> ByteCount {
        let s = self.0.borrow();
        match s.want {
            None if s.done => ByteCount::Finite(0),
            None => ByteCount::Infinite,
            Some(k) => ByteCount::Finite(k - s.got),
        }
    }
    fn is_idle(&self) -> bool {
        let s = self.0.borrow();
        s.done || s.want == Some(s.got)
    }
}

/// Claims to fill what it is given. Items: the number of bytes, or `u64::MAX` for one without an end.
#[derive(Default)]
struct Fill {
    left: u64,
}
const ENDLESS: u64 = u64::MAX;
impl Encode for Fill {
    type Item = u64;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        if self.left == ENDLESS {
            if eos.is_reached() {
                self.left = 0;
            }
            return Ok(buf.len());
        }
        let n = self.left.min(buf.len() as u64);
        self.left -= n;
        if self.left > 0 && eos.is_reached() {
            return Err(err(ErrorKind::UnexpectedEos));
        }
        Ok(n as usize)
    }
    fn start_encoding(&mut self, item: u64) -> Result<()> {
        if self.left > 0 {
            return Err(err(ErrorKind::EncoderFull));
        }
        self.left = item;
        Ok(())
    }
    fn is_idle(&self) -> bool {
        self.left == 0
    }
    fn requiring_bytes(&self) -> ByteCount {
        if self.left == ENDLESS {
            ByteCount::Infinite
        } else {
            ByteCount::Finite(self.left)
        }
    }
}
impl SizedEncode for Fill {
    fn exact_requiring_bytes(&self) -> u64 {
        self.left
    }
}

// ---------------------------------------------------------------- C11

pub fn c11(ctx: &Ctx) -> R {
    if ctx.below(2) == 0 {
        frames(ctx)
    } else {
        framed_fill(ctx)
    }
}
fn frames(ctx: &Ctx) -> R {
    let partial = ctx.chance(1, 4);
    let k = if partial { 1 } else { 1 + ctx.below(3) };
    let mut lens: Vec<u64> = vec![];
    for i in 0..k {
        let n = if i > 0 && ctx.below(2) == 0 { lens[i - 1] } else { huge(ctx, !partial) };
        lens.push(n);
    }
    let fit = ctx.weighted(&[6, 1, 1]);
    let mut total = lens.iter().fold(0u64, |a, &b| a.saturating_add(b));
    let short = !partial && ctx.chance(1, 5);
    let tail = [0, 1, 700, 1 << 32][ctx.below(4)];
    if short {
        total -= [1, 2, 1 << 16][ctx.below(3)].min(lens[k - 1]);
    } else {
        total = total.saturating_add(tail);
    }
    let finite = ctx.below(2) == 0;
    ctx.note(|| format!("frames {lens:?}, stream {total}, announced {finite}, fit {fit}"));
    let sink = Sink::new(None, None);
    let mut l = sink.clone().length(lens[0]);
    let mut pos = 0u64;
    for (i, &n) in lens.iter().enumerate() {
        if i > 0 && l.expected_bytes() != n {
            if let Err(e) = l.set_expected_bytes(n) {
                fail!("resize-refused", "changing the length between items to {n} fails with {:?}", kind_of(&e));
            }
        }
        ensure!(l.expected_bytes() == n && l.remaining_bytes() == n, "length-lost", "set {n}: {} expected, {} remaining", l.expected_bytes(), l.remaining_bytes());
        let last = i + 1 == k;
        let want = match (last, fit) {
            (true, 1) => Some(n - 1 - ctx.draw(2)),
            (true, 2) => Some(n.saturating_add(1 + ctx.draw(2))),
            _ if ctx.below(2) == 0 => Some(n),
            _ => None,
        };
        {
            let mut s = sink.0.borrow_mut();
            s.want = want;
            s.end = Some(n);
            s.seen = 0;
        }
        let start = pos;
        let mut calls = 0;
        loop {
            let done = pos - start;
            sink.check()?;
            if l.is_idle() {
                let whole = want.is_none() || want == Some(n);
                match l.finish_decoding() {
                    Ok(v) => {
                        ensure!(whole && done == n && v == n, "short-frame", "an item of {v} bytes after {done} of the {n} bytes of the frame");
                        ctx.count_item();
                    }
                    Err(e) => {
                        ensure!(!whole, "valid-rejected", "the item of a frame of {n} bytes is refused with {:?} behind {done}", kind_of(&e));
                        return Ok(());
                    }
                }
                break;
            }
            ensure!(l.remaining_bytes() == n - done, "remaining", "{} bytes remaining, {} expected", l.remaining_bytes(), n - done);
            let req = l.requiring_bytes();
            ensure!(!matches!(req, ByteCount::Finite(r) if r > n - done || r == 0), "count-wrong", "{req:?} advertised with {} to go", n - done);
            if partial && calls > 6 {
                return Ok(());
            }
            if done > 0 && ctx.chance(1, 8) {
                ctx.fault("resize-within");
                let r = l.set_expected_bytes(n ^ (1 << 32)).map_err(|e| kind_of(&e));
                ensure!(r == Err(ErrorKind::IncompleteDecoding), "resized-within", "changing the length with {done} of {n} bytes through: {r:?}");
            }
            let p = piece(ctx, total - pos, calls);
            calls += 1;
            let reached = pos + p == total;
            let eos = match finite || reached {
                true => Eos::with_remaining_bytes(ByteCount::Finite(total - pos - p)),
                false => Eos::new(false),
            };
            let r = l.decode(zeros(p), eos);
            sink.check()?;
            let frame_left = n - done;
            let content_left = want.map_or(frame_left, |k| (k - done).min(frame_left));
            match r {
                Ok(m) => {
                    let m = m as u64;
                    ctx.ev("huge-frame", p, m);
                    ensure!(m <= p && m <= frame_left, "beyond-frame", "consumed {m} bytes, {frame_left} of the frame were left");
                    ensure!(m == p.min(content_left), "frame-unused", "consumed {m} of {p} bytes, {content_left} needed");
                    pos += m;
                    ensure!(!(short && last && reached), "short-stream", "the end of the stream inside a frame of {n} bytes goes unnoticed");
                    ensure!(calls < most(n), "stall", "no end of a frame of {n} bytes");
                }
                Err(e) => {
                    let kd = kind_of(&e);
                    let more = want.is_some_and(|w| w > n) && done + p >= n;
                    ensure!(short && last && (finite || reached) || more, "valid-rejected", "{p} bytes behind {done} of a frame of {n} fail with {kd:?}");
                    ensure!(kd == ErrorKind::UnexpectedEos, "wrong-kind", "an early end is reported as {kd:?}");
                    ctx.fault("huge-misfit");
                    return Ok(());
                }
            }
        }
    }
    ensure!(pos == lens.iter().sum::<u64>(), "wrong-extent", "{pos} bytes consumed by frames of {lens:?}");
    Ok(())
}
fn framed_fill(ctx: &Ctx) -> R {
    let partial = ctx.chance(1, 4);
    let n = huge(ctx, !partial);
    let mut l = Fill::default().length(n);
    for _ in 0..if partial { 1 } else { 1 + ctx.below(2) } {
        let fit = ctx.weighted(&[5, 3, 1, 1]);
        let item = match fit {
            0 => n,
            1 => ENDLESS,
            2 => n - 1 - ctx.draw(3),
            _ => n.saturating_add(1 + ctx.draw(3)).min(ENDLESS - 1),
        };
        let fit = if item == n { 0 } else if fit == 3 && item < n { 2 } else { fit };
        ctx.note(|| format!("{item} into a frame of {n}"));
        if let Err(e) = l.start_encoding(item) {
            fail!("start-refused", "an idle encoder refuses an item with {:?}", kind_of(&e));
        }
        let room = match ctx.below(4) {
            0 => Some(n.saturating_add(ctx.draw(3))),
            1 => Some(n - 1),
            _ => None,
        };
        let (mut done, mut calls) = (0u64, 0);
        loop {
            if l.is_idle() {
                ensure!(done == n && fit < 2, "misfit-accepted", "{item} bytes into a frame of {n} bytes end with {done}");
                ctx.count_item();
                break;
            }
            ensure!(l.exact_requiring_bytes() == n - done && l.requiring_bytes() == ByteCount::Finite(n - done), "count-wrong", "{} bytes advertised with {} to go", l.exact_requiring_bytes(), n - done);
            ensure!(l.remaining_bytes() == n - done, "remaining", "{} bytes remaining, {} expected", l.remaining_bytes(), n - done);
            if partial && calls > 6 {
                return Ok(());
            }
            let more = room.map_or((n - done).saturating_add(9), |r| r - done);
            let p = piece(ctx, more, calls);
            calls += 1;
            let eos = Eos::new(room.is_some() && p == more);
            let r = l.encode(zeros_mut(p), eos);
            match r {
                Ok(m) => {
                    let m = m as u64;
                    ctx.ev("huge-fill", p, m);
                    ensure!(m <= p, "overrun", "{m} bytes written to {p}");
                    ensure!(m <= n - done, "beyond-frame", "{m} bytes written, {} of the frame were left", n - done);
                    ensure!(m == p.min(n - done).min(item - done), "frame-unused", "{m} of {p} bytes written, {} of the frame were left", n - done);
                    done += m;
                    ensure!(!eos.is_reached() || done == n, "short-output", "the end of the output at {done} of {n} bytes goes unnoticed");
                    ensure!(calls < most(n), "stall", "no end of a frame of {n} bytes");
                }
                Err(e) => {
                    let kd = kind_of(&e);
                    let cut = eos.is_reached() && p < n - done;
                    let over = fit == 3 && p >= n - done;
                    let under = fit == 2 && p >= item - done;
                    ensure!(cut || over || under, "valid-rejected", "{p} bytes behind {done} of a frame of {n} fail with {kd:?}");
                    let ok = (cut || over) && kd == ErrorKind::UnexpectedEos || under && kd == ErrorKind::InvalidInput;
                    ensure!(ok, "wrong-kind", "{item} bytes into a frame of {n} are reported as {kd:?}");
                    ctx.fault("huge-misfit");
                    return Ok(());
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C12

fn limit_for(ctx: &Ctx, n: u64) -> u64 {
    match ctx.below(9) {
        0 | 1 => n,
        2 => n + 1,
        3 => n - 1,
        4 => n - ctx.draw(n),
        5 => n + (1 << 32),
        6 => n.saturating_sub(1 << 32),
        7 => n + (1 << ctx.draw(62)),
        _ => u64::MAX,
    }
}
pub fn c12(ctx: &Ctx) -> R {
    let small = ctx.below(3) == 0;
    let mut n = if small { 1 + ctx.draw(2000) } else { huge(ctx, true) };
    let decoding = ctx.below(2) == 0;
    let mut d = Sink::plain(n).max_bytes(limit_for(ctx, n));
    let mut e = Fill::default().max_bytes(limit_for(ctx, n));
    macro_rules! both {
        ($c:ident, $x:expr) => {
            if decoding {
                let $c = &mut d;
                $x
            } else {
                let $c = &mut e;
                $x
            }
        };
    }
    for i in 0..1 + ctx.below(3) {
        if i > 0 && ctx.below(2) == 0 {
            n = if ctx.below(3) == 0 { 1 + ctx.draw(2000) } else { huge(ctx, true) };
            if decoding {
                d.inner_mut().0.borrow_mut().want = Some(n);
            }
        }
        if ctx.below(2) == 0 {
            let lim = limit_for(ctx, n);
            let r = both!(c, c.set_max_bytes(lim).map_err(|e| kind_of(&e)));
            ensure!(r.is_ok(), "limit-refused", "limit {lim} refused between items: {r:?}");
        }
        let (mut lo, mut hi) = both!(c, (MaxBytes::max_bytes(c), MaxBytes::max_bytes(c)));
        ctx.note(|| format!("{n} bytes, limit {hi}, decoding {decoding}"));
        if !decoding {
            ensure!(e.start_encoding(n).is_ok(), "start-refused", "an idle encoder refuses an item");
        }
        let finite = ctx.below(2) == 0;
        let (mut done, mut calls) = (0u64, 0);
        loop {
            let count = both!(c, c.consumed_bytes());
            ensure!(count == done, "count", "{count} bytes reported, {done} through");
            let idle = if decoding { d.is_idle() } else { e.is_idle() };
            if idle {
                ensure!(done == n, "wrong-extent", "idle behind {done} of {n} bytes");
                ensure!(n <= hi, "over-limit", "an item of {n} bytes passed a limit of {hi}");
                if decoding {
                    let r = d.finish_decoding().map_err(|e| kind_of(&e));
                    ensure!(r == Ok(n), "item-wrong", "{r:?} instead of {n}");
                }
                ctx.count_item();
                break;
            }
            if !(finite && decoding) && ctx.chance(1, 6) {
                ctx.fault("relimit");
                let new = if ctx.below(2) == 0 { limit_for(ctx, n) } else { done + ctx.draw(3) - u64::from(done > 0) };
                let r = both!(c, c.set_max_bytes(new).map_err(|e| kind_of(&e)));
                if new < done {
                    ensure!(r == Err(ErrorKind::InvalidInput), "limit-below-count", "limit {new} with {done} bytes through: {r:?}");
                } else {
                    ensure!(r.is_ok(), "limit-refused", "limit {new} with {done} bytes through: {r:?}");
                    lo = lo.min(new);
                    hi = hi.max(new);
                }
            }
            let p = piece(ctx, n - done, calls);
            calls += 1;
            let eos = match finite || p == n - done && ctx.below(2) == 0 {
                true => Eos::with_remaining_bytes(ByteCount::Finite(n - done - p)),
                false => Eos::new(false),
            };
            let r = if decoding { d.decode(zeros(p), eos) } else { e.encode(zeros_mut(p), Eos::new(false)) };
            match r {
                Ok(m) => {
                    let m = m as u64;
                    ctx.ev("huge-limited", p, m);
                    ensure!(m == p, "limited-unused", "{m} of {p} bytes used, {} to go", n - done);
                    done += m;
                    ensure!(done <= hi, "over-limit", "{done} bytes through under a limit of {hi}");
                    if !decoding && done == n {
                        // The count starts afresh.
                        ensure!(e.is_idle() && e.consumed_bytes() == 0, "count", "{} bytes reported behind an item", e.consumed_bytes());
                        ctx.count_item();
                        break;
                    }
                    ensure!(calls < most(n), "stall", "no end of an item of {n} bytes");
                }
                Err(x) => {
                    let k = kind_of(&x);
                    ensure!(n > lo, "within-limit-refused", "an item of {n} bytes fails with {k:?} under a limit of {lo}");
                    ensure!(k == ErrorKind::InvalidInput, "wrong-kind", "an item over the limit fails with {k:?}");
                    ctx.fault("over-limit");
                    return Ok(());
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C13

pub fn c13(ctx: &Ctx) -> R {
    let decoding = ctx.below(2) == 0;
    let n = huge(ctx, false);
    // What it sees of the end of the stream it must see exactly.
    let total = if decoding && ctx.below(2) == 0 { Some(n.saturating_add(ctx.draw(9))) } else { None };
    let sink = Sink::new(Some(n), total);
    let mut d: Slice<Sink> = sink.clone().slice();
    let mut e: Slice<Fill> = Fill::default().slice();
    ctx.note(|| format!("{n} bytes, stream {total:?}, decoding {decoding}"));
    if !decoding {
        ensure!(e.start_encoding(n).is_ok(), "start-refused", "an idle sliced encoder refuses an item");
    }
    let (mut done, mut calls) = (0u64, 0);
    while calls < 60 && done < n {
        let g = match ctx.below(4) {
            0 => ctx.draw(3),
            1 => 1 + ctx.draw(9000),
            _ => huge(ctx, false),
        };
        ctx.ev("huge-grant", g, 0);
        if decoding {
            d.set_consumable_bytes(g);
        } else {
            e.set_consumable_bytes(g);
        }
        let mut left = g;
        for _ in 0..1 + ctx.below(5) {
            let (c, s) = if decoding { (d.consumable_bytes(), d.is_suspended()) } else { (e.consumable_bytes(), e.is_suspended()) };
            ensure!(c == left && s == (left == 0), "grant", "{c} bytes of the grant left (suspended: {s}) instead of {left}");
            if done == n {
                break;
            }
            let avail = total.map_or(n.saturating_add(5), |t| t) - done;
            let p = piece(ctx, avail, calls);
            calls += 1;
            let r = if decoding {
                let eos = total.map_or(Eos::new(false), |t| Eos::with_remaining_bytes(ByteCount::Finite(t - done - p)));
                let r = d.decode(zeros(p), eos);
                sink.check()?;
                r
            } else {
                e.encode(zeros_mut(p), Eos::new(false))
            };
            let m = match r {
                Ok(m) => m as u64,
                Err(x) => fail!("sliced-fails", "{p} bytes with {left} granted fail with {:?}", kind_of(&x)),
            };
            ctx.ev("huge-slice", p, m);
            ensure!(m <= p && m <= left, "over-grant", "{m} of {p} bytes used with {left} granted");
            ensure!(m == p.min(left).min(n - done), "grant-unused", "{m} bytes used; the grant has {left}, the buffer {p}, the item {}", n - done);
            left -= m;
            done += m;
        }
        ctx.nontrivial();
    }
    if decoding && done == n {
        let r = d.finish_decoding().map_err(|e| kind_of(&e));
        ensure!(r == Ok(n), "item-wrong", "{r:?} instead of {n}");
        ctx.count_item();
    }
    Ok(())
}

// ---------------------------------------------------------------- C04, C05, C06: compositions

type BD = Box<dyn Decode<Item = u64>>;
fn chain(ctx: &Ctx, depth: usize) -> (BD, u64) {
    if depth == 0 || ctx.chance(1, 4) {
        let n = if ctx.below(4) == 0 { 1 + ctx.draw(300) } else { huge(ctx, true) };
        return (Box::new(Sink::plain(n)), n);
    }
    let w = ctx.below(12);
    if w < 4 {
        let (a, x) = chain(ctx, depth - 1);
        let (b, y) = chain(ctx, depth - 1);
        return match w {
            0 | 1 => (Box::new(TupleDecoder::new((a, b)).map(|(p, q)| p + q)), x + y),
            2 => {
                let b = RefCell::new(Some(b));
                let d = a.and_then(move |p| b.borrow_mut().take().unwrap_or_else(|| Box::new(Sink::plain(1))).map(move |q| p + q));
                (Box::new(d), x + y)
            }
            _ => {
                let (c, z) = chain(ctx, 0);
                (Box::new(TupleDecoder::new((a, b, c)).map(|(p, q, r)| p + q + r)), x + y + z)
            }
        };
    }
    if w == 4 {
        let (mut n, k) = (huge(ctx, true), 1 + ctx.below(3));
        n = n.min(1 << 33);
        let d = Sink::plain(n).collectn::<Vec<u64>>(k).map(|v| v.iter().sum());
        return (Box::new(d), n * k as u64);
    }
    let (a, x) = chain(ctx, depth - 1);
    let d: BD = match w {
        5 => Box::new(a.map(|v| v)),
        6 => Box::new(a.map_err(|e: Error| e)),
        7 => Box::new(a.omit(false).map(|v| v.unwrap_or(0))),
        8 => Box::new(a.peekable()),
        9 => Box::new(a.maybe_eos()),
        10 => Box::new(a.max_bytes(limit_for(ctx, x).max(x)).length(x)),
        _ => {
            let mut s = a.slice();
            s.set_consumable_bytes(limit_for(ctx, x).max(x));
            Box::new(s)
        }
    };
    (d, x)
}
type BE = Box<dyn SizedEncode<Item = u64>>;
/// Every `Fill` below gets its own number of bytes from the closures on the way down.
fn fill_chain(ctx: &Ctx, depth: usize) -> (BE, u64) {
    if depth == 0 || ctx.chance(1, 4) {
        let n = if ctx.below(4) == 0 { 1 + ctx.draw(300) } else { huge(ctx, true) };
        return (Box::new(Fill::default().map_from(move |_: u64| n)), n);
    }
    let w = ctx.below(9);
    if w < 4 {
        let (a, x) = fill_chain(ctx, depth - 1);
        let (b, y) = fill_chain(ctx, depth - 1);
        if w < 3 {
            return (Box::new(TupleEncoder::new((a, b)).map_from(|v: u64| (v, v))), x + y);
        }
        let (c, z) = fill_chain(ctx, 0);
        return (Box::new(TupleEncoder::new((a, b, c)).map_from(|v: u64| (v, v, v))), x + y + z);
    }
    let (a, x) = fill_chain(ctx, depth - 1);
    let e: BE = match w {
        4 => Box::new(a.map_err(|e: Error| e)),
        5 => Box::new(a.optional().map_from(Some)),
        6 => Box::new(a.length(x)),
        7 => Box::new(a.max_bytes(limit_for(ctx, x).max(x))),
        _ => {
            let mut s = a.slice();
            s.set_consumable_bytes(limit_for(ctx, x).max(x));
            Box::new(s)
        }
    };
    (e, x)
}

/// C04 and C06 (decoders).
pub fn dec(ctx: &Ctx) -> R {
    let depth = ctx.below(4);
    let (mut d, n) = chain(ctx, depth);
    let mut total = n + [0, 1, 40, 1 << 32][ctx.below(4)];
    if ctx.below(3) > 0 {
        total = n;
    }
    let finite = ctx.below(2) == 0;
    ctx.note(|| format!("composition of {n} bytes in a stream of {total}, announced {finite}"));
    let (mut done, mut calls) = (0u64, 0);
    loop {
        ensure!(d.is_idle() == (done == n), "idle-wrong", "idle is {} behind {done} of {n} bytes", d.is_idle());
        let req = d.requiring_bytes();
        if done == n {
            ensure!(req == ByteCount::Finite(0), "count-wrong", "{req:?} advertised when all is there");
            break;
        }
        ensure!(!matches!(req, ByteCount::Finite(r) if r > n - done || r == 0), "count-wrong", "{req:?} advertised with {} bytes to go", n - done);
        if ctx.chance(1, 8) {
            ctx.fault("early-finish");
            let r = d.finish_decoding().map_err(|e| kind_of(&e));
            ensure!(r == Err(ErrorKind::IncompleteDecoding), "early-kind", "an item with {} bytes to go: {r:?}", n - done);
        }
        let p = piece(ctx, total - done, calls);
        calls += 1;
        let eos = match finite || done + p == total {
            true => Eos::with_remaining_bytes(ByteCount::Finite(total - done - p)),
            false => Eos::new(false),
        };
        match d.decode(zeros(p), eos) {
            Ok(m) => {
                let m = m as u64;
                ctx.ev("huge-dec", p, m);
                ensure!(m == p.min(n - done), "wrong-extent", "{m} of {p} bytes consumed with {} to go", n - done);
                done += m;
                ensure!(calls < most(n), "stall", "no end of an item of {n} bytes");
            }
            Err(e) => fail!("valid-rejected", "{p} bytes behind {done} of {n} fail with {:?}", kind_of(&e)),
        }
    }
    match d.finish_decoding() {
        Ok(v) => ensure!(v == n, "item-wrong", "{v} instead of {n}"),
        Err(e) => fail!("valid-rejected", "an item of {n} bytes is refused with {:?}", kind_of(&e)),
    }
    ctx.count_item();
    Ok(())
}
/// C05, C06 and C08 (encoders).
pub fn enc(ctx: &Ctx, close: bool) -> R {
    let depth = ctx.below(4);
    let (mut e, n) = fill_chain(ctx, depth);
    if let Err(x) = e.start_encoding(7) {
        fail!("start-refused", "an idle encoder refuses an item with {:?}", kind_of(&x));
    }
    let room = if close { Some(n - ctx.draw(2) * ctx.draw(n)) } else { None };
    ctx.note(|| format!("composition of {n} bytes, room {room:?}"));
    let (mut done, mut calls) = (0u64, 0);
    loop {
        ensure!(e.is_idle() == (done == n), "idle-wrong", "idle is {} behind {done} of {n} bytes", e.is_idle());
        let req = e.requiring_bytes();
        ensure!(req == ByteCount::Finite(n - done) || req == ByteCount::Unknown && done < n, "count-wrong", "{req:?} advertised with {} bytes to come", n - done);
        ensure!(e.exact_requiring_bytes() == n - done, "count-wrong", "exactly {} bytes advertised with {} to come", e.exact_requiring_bytes(), n - done);
        if done == n {
            break;
        }
        let more = room.map_or(n - done + ctx.draw(9), |r| r - done);
        let p = piece(ctx, more, calls);
        calls += 1;
        let eos = Eos::new(room.is_some() && p == more);
        match e.encode(zeros_mut(p), eos) {
            Ok(m) => {
                let m = m as u64;
                ctx.ev("huge-enc", p, m);
                ensure!(m == p.min(n - done), "buffer-unused", "{m} of {p} bytes filled with {} to come", n - done);
                done += m;
                ensure!(!eos.is_reached() || done == n, "short-output", "the end of the output at {done} of {n} bytes goes unnoticed");
                ensure!(calls < most(n), "stall", "no end of an item of {n} bytes");
            }
            Err(x) => {
                let k = kind_of(&x);
                ensure!(eos.is_reached() && p < n - done, "encode-fails", "{p} bytes behind {done} of {n} fail with {k:?}");
                ensure!(k == ErrorKind::UnexpectedEos, "wrong-kind", "an early end of the output is reported as {k:?}");
                ctx.fault("output-ends");
                return Ok(());
            }
        }
    }
    ctx.count_item();
    Ok(())
}
/// C04: many items in one collection.
pub fn collect(ctx: &Ctx) -> R {
    let partial = ctx.below(2) == 0;
    let n = if partial {
        [1 << 32, (1 << 32) + 1, (1 << 31) - 1, 1 << 40, 1 << 63, usize::MAX][ctx.below(6)]
    } else {
        [65_534, 65_535, 65_536, 65_537, 70_001, 32_768, 131_073][ctx.below(7)]
    };
    let first = bytecodec::fixnum::U8Decoder::default().collectn::<Vec<u8>>(if ctx.below(2) == 0 { n } else { 0 });
    let mut d = first;
    if d.remaining_items() == 0 {
        d.set_remaining_items(n);
    }
    let total = if partial { 100_000 } else { n };
    let mut done = 0;
    let mut calls = 0;
    ctx.note(|| format!("collection of {n}"));
    while done < total {
        ensure!(!d.is_idle() && d.remaining_items() == n - done, "remaining", "{} items remaining instead of {}", d.remaining_items(), n - done);
        let p = if calls > 30 { total - done } else { [ctx.below(5), ctx.below(5000), 65_535 + ctx.below(3), total][ctx.below(4)].min(total - done) };
        calls += 1;
        match d.decode(&zeros(1 << 20)[..p], Eos::new(false)) {
            Ok(m) => {
                ctx.ev("collect", p as u64, m as u64);
                ensure!(m == p, "wrong-extent", "{m} of {p} bytes consumed with {} items to go", n - done);
                done += m;
            }
            Err(e) => fail!("valid-rejected", "{p} bytes behind {done} of {n} fail with {:?}", kind_of(&e)),
        }
    }
    if !partial {
        ensure!(d.is_idle(), "late-idle", "all {n} items are there");
        match d.finish_decoding() {
            Ok(v) => ensure!(v.len() == n, "item-wrong", "{} items instead of {n}", v.len()),
            Err(e) => fail!("valid-rejected", "a collection of {n} items is refused with {:?}", kind_of(&e)),
        }
        ctx.count_item();
    } else {
        ensure!(!d.is_idle() && d.remaining_items() == n - done, "remaining", "{} items remaining instead of {}", d.remaining_items(), n - done);
    }
    Ok(())
}

// ---------------------------------------------------------------- C17

struct Zeros<'a> {
    ctx: &'a Ctx,
    left: u64,
    gave: u64,
    asked: Option<String>,
}
impl std::io::Read for Zeros<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.left == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::ConnectionReset, "simulated"));
        }
        if buf.is_empty() {
            self.asked = Some("an empty buffer is given to the reader".to_owned());
        }
        let m = (buf.len() as u64).min(self.left).min(1 + self.ctx.draw(5000)) as usize;
        self.left -= m as u64;
        self.gave += m as u64;
        Ok(m)
    }
}
struct Takes {
    left: u64,
    took: u64,
}
impl std::io::Write for Takes {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if self.left == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::ConnectionReset, "simulated"));
        }
        let m = (buf.len() as u64).min(self.left);
        self.left -= m;
        self.took += m;
        Ok(m as usize)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// The beginning of a huge item from a reader or to a writer that fails after a while.
pub fn io(ctx: &Ctx) -> R {
    let n = huge(ctx, false).max(1 << 31);
    let some = ctx.draw(20_000);
    if ctx.below(2) == 0 {
        let sink = Sink::plain(n);
        let mut d = sink.clone();
        let mut r = Zeros { ctx, left: some, gave: 0, asked: None };
        let mut sum = 0;
        for _ in 0..1 + ctx.below(3) {
            r.left = some;
            sum += some;
            match d.decode_exact(&mut r) {
                Ok(v) => fail!("item-invented", "an item of {v} bytes after {} of {n}", r.gave),
                Err(e) => ensure!(kind_of(&e) != ErrorKind::InvalidInput, "wrong-kind", "a reset connection is reported as {:?}", kind_of(&e)),
            }
            if let Some(x) = r.asked.take() {
                fail!("empty-read", "{x}");
            }
            let got = sink.0.borrow().got;
            ensure!(r.gave == sum && got == sum, "bytes-lost", "the reader gave {} bytes of {sum}, the decoder has {got}", r.gave);
            ctx.fault("read-failed");
        }
    } else {
        let mut e = Fill::default();
        ensure!(e.start_encoding(n).is_ok(), "start-refused", "an idle encoder refuses an item");
        let mut w = Takes { left: some, took: 0 };
        let r = e.encode_all(&mut w);
        ensure!(r.is_err(), "incomplete", "encode_all of {n} bytes succeeds with {} written", w.took);
        ensure!(w.took == some, "bytes-lost", "{} bytes written to a writer that takes {some}", w.took);
        ctx.fault("write-failed");
    }
    Ok(())
}
