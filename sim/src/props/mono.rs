//! C22, codecs given as functions over readers and writers: what the functions see and what becomes of it.
use crate::core::{kind_of, short, Ctx, R};
use crate::feed::*;
use crate::{ensure, fail};
use bytecodec::io::IoEncodeExt;
use bytecodec::monolithic::{MonolithicDecode, MonolithicDecoder, MonolithicEncode, MonolithicEncoder};
use bytecodec::{ByteCount, Decode, Encode, Eos, ErrorKind, Result};
use std::cell::{Cell, RefCell};
use std::io::{Read, Write};
use std::rc::Rc;

/// Reads `want` bytes (or all there are) in pieces of any size.
struct Reads {
    ctx: Ctx,
    want: usize,
    fails: Option<ErrorKind>,
    calls: Cell<usize>,
    log: Rc<RefCell<Vec<u8>>>,
}
impl MonolithicDecode for Reads {
    type Item = Vec<u8>;
    fn monolithic_decode<T: Read>(&self, mut reader: T) -> Result<Vec<u8>> {
        self.calls.set(self.calls.get() + 1);
        let mut seen = vec![];
        let whole = self.want == usize::MAX && self.ctx.below(2) == 0;
        if whole {
            reader.read_to_end(&mut seen)?;
        }
        let mut empties = 0;
        while !whole && seen.len() < self.want {
            let n = match self.ctx.below(4) {
                0 => 1,
                1 => self.ctx.below(8),
                _ => 1 + self.ctx.below(400),
            };
            let mut buf = vec![0x3c; n.min(self.want - seen.len())];
            let m = reader.read(&mut buf)?;
            assert!(m <= buf.len(), "harness: a reader returns {m} for {}", buf.len());
            seen.extend_from_slice(&buf[..m]);
            if m == 0 && !buf.is_empty() {
                break;
            }
            empties = if m == 0 { empties + 1 } else { 0 };
            if empties > 50 {
                break;
            }
        }
        self.log.borrow_mut().extend_from_slice(&seen);
        match self.fails {
            Some(k) => Err(k.into()),
            None => Ok(seen),
        }
    }
}

fn decoding(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let log = Rc::new(RefCell::new(vec![]));
    let mut d = MonolithicDecoder::new(Reads { ctx: ctx.clone(), want: 0, fails: None, calls: Cell::new(0), log: log.clone() });
    let mut calls = 0;
    for round in 0..1 + ctx.below(3) {
        let n = ctx.size(2000);
        let data = ctx.bytes(n);
        let want = match ctx.below(3) {
            0 => usize::MAX,
            1 => ctx.below(n + 1),
            _ => n + ctx.below(2),
        };
        d.inner_mut().want = want;
        d.inner_mut().fails = if ctx.chance(1, 8) { Some(*ctx.pick(&[ErrorKind::InvalidInput, ErrorKind::Other, ErrorKind::UnexpectedEos])) } else { None };
        let fails = d.inner_ref().fails;
        ctx.note(|| format!("round {round}: stream of {n} bytes, {want} are read, {fails:?}"));
        let mode = announce(ctx, false);
        let mut feed = Feed::new(ctx, &data, gen_cut(ctx), mode);
        let mut done = 0;
        let mut failed = false;
        loop {
            ensure!(!d.is_idle(), "early-idle", "idle before the end of the stream");
            ensure!(
                matches!(d.requiring_bytes(), ByteCount::Unknown | ByteCount::Infinite),
                "count-wrong",
                "{:?} advertised although the item takes the stream to its end",
                d.requiring_bytes()
            );
            if ctx.chance(1, 12) {
                ctx.fault("early-finish");
                match d.finish_decoding() {
                    Ok(v) => fail!("early-item", "finish_decoding before the end returned {}", short(&v)),
                    Err(e) => ensure!(kind_of(&e) == ErrorKind::IncompleteDecoding, "early-kind", "{:?}", kind_of(&e)),
                }
            }
            let (buf, eos) = feed.next();
            let r = d.decode(buf, eos);
            if !eos.is_reached() {
                match r {
                    Ok(m) => ensure!(m == buf.len(), "consumption", "{m} of {} bytes taken in front of the end", buf.len()),
                    Err(e) => fail!("decode-fails", "{:?} in front of the end", kind_of(&e)),
                }
                ensure!(d.inner_ref().calls.get() == calls, "early-call", "the function is called before the end");
                done += buf.len();
                feed.took(buf.len());
                continue;
            }
            calls += 1;
            ensure!(d.inner_ref().calls.get() == calls, "call-count", "the function is called {} times for {calls} items", d.inner_ref().calls.get());
            let took = n.min(want);
            let seen = std::mem::take(&mut *log.borrow_mut());
            ensure!(seen == data[..took], "wrong-bytes", "the function reads {} instead of {}", short(&seen), short(&&data[..took]));
            match r {
                Ok(m) => {
                    ensure!(fails.is_none(), "error-lost", "the function fails with {fails:?} and decode succeeds");
                    let expect = took.saturating_sub(done);
                    ensure!(m == expect, "consumption", "{m} of the last {} bytes taken, {done} before, although {took} were read", buf.len());
                    ctx.ev("mono-decode", took as u64, m as u64);
                }
                Err(e) => {
                    ctx.fault("function-fails");
                    ensure!(fails == Some(kind_of(&e)), "wrong-kind", "{:?} instead of {fails:?}", kind_of(&e));
                    failed = true;
                }
            }
            if failed {
                break;
            }
            ensure!(d.is_idle() && d.requiring_bytes() == ByteCount::Finite(0), "not-idle", "not idle at the end");
            for _ in 0..ctx.below(3) {
                ctx.fault("surplus-decode");
                let junk = vec![1u8; ctx.below(9)];
                let r = d.decode(&junk, Eos::new(ctx.below(2) == 0));
                ensure!(matches!(r, Ok(0)), "idle-consumes", "{:?} while the item waits", r.map_err(|e| kind_of(&e)));
            }
            match d.finish_decoding() {
                Ok(v) => ensure!(v == seen, "item-wrong", "{} instead of {}", short(&v), short(&seen)),
                Err(e) => fail!("valid-rejected", "{:?} for a complete item", kind_of(&e)),
            }
            ctx.count_item();
            break;
        }
    }
    Ok(())
}

/// Writes its item in pieces of any size; fails behind some of them.
struct Writes {
    ctx: Ctx,
    fails: Cell<Option<(usize, ErrorKind)>>,
    calls: Cell<usize>,
}
impl MonolithicEncode for Writes {
    type Item = Vec<u8>;
    fn monolithic_encode<W: Write>(&self, item: &Vec<u8>, mut writer: W) -> Result<()> {
        self.calls.set(self.calls.get() + 1);
        let mut pos = 0;
        let stop = self.fails.get().map_or(item.len(), |(n, _)| n);
        while pos < stop {
            let n = match self.ctx.below(4) {
                0 => 1,
                1 => self.ctx.below(8),
                _ => 1 + self.ctx.below(400),
            };
            let piece = &item[pos..(pos + n).min(stop)];
            match self.ctx.below(3) {
                0 => writer.write_all(piece)?,
                1 => {
                    if self.ctx.below(2) == 0 {
                        writer.flush()?;
                    }
                    let m = writer.write(piece)?;
                    pos += m;
                    continue;
                }
                _ => writer.write_all(piece)?,
            }
            pos += piece.len();
        }
        match self.fails.get() {
            Some((_, k)) => Err(k.into()),
            None => Ok(()),
        }
    }
}

fn encoding(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let mut e = MonolithicEncoder::new(Writes { ctx: ctx.clone(), fails: Cell::new(None), calls: Cell::new(0) });
    ensure!(e.is_idle() && e.requiring_bytes() == ByteCount::Finite(0), "not-idle", "a fresh encoder is not idle");
    for round in 0..1 + ctx.below(4) {
        let n = ctx.size(2000);
        let item = ctx.bytes(n);
        let fails = if ctx.chance(1, 8) { Some((ctx.below(n + 1), ErrorKind::InvalidInput)) } else { None };
        e.inner_ref().fails.set(fails);
        let calls = e.inner_ref().calls.get();
        ensure!(e.start_encoding(item.clone()).is_ok(), "start-refused", "an idle encoder refuses an item");
        if ctx.chance(1, 3) {
            ctx.fault("start-while-busy");
            match e.start_encoding(vec![1, 2, 3]) {
                Ok(()) => fail!("busy-accepted", "an encoder with an item takes another one"),
                Err(x) => ensure!(kind_of(&x) == ErrorKind::EncoderFull, "wrong-kind", "{:?}", kind_of(&x)),
            }
        }
        ensure!(!e.is_idle(), "early-idle", "idle before the function has been called");
        ctx.note(|| format!("round {round}: item of {n} bytes, {fails:?}"));
        if fails.is_none() && ctx.chance(1, 6) {
            let mut w = vec![];
            if let Err(x) = e.encode_all(&mut w) {
                fail!("encode-fails", "encode_all fails with {:?}", kind_of(&x));
            }
            ensure!(w == item, "wrong-bytes", "{} instead of {}", short(&w), short(&item));
            ctx.count_item();
            continue;
        }
        let cap = if ctx.chance(1, 3) { Some(ctx.below(n + 3)) } else { None };
        let mut drain = Drain::new(ctx, cap);
        let mut stall = 0;
        while !e.is_idle() {
            let r = drain.step(&mut e, n - drain.out.len())?;
            ensure!(e.inner_ref().calls.get() == calls + 1, "call-count", "the function is called {} times", e.inner_ref().calls.get() - calls);
            if let Some(k) = r.err {
                if let Some((_, want)) = fails {
                    ctx.fault("function-fails");
                    ensure!(k == want, "wrong-kind", "{k:?} instead of {want:?}");
                } else {
                    ctx.fault("output-ends");
                    ensure!(r.last && cap.is_some_and(|c| c < n), "encode-fails", "{k:?} with an output of {cap:?} bytes for {n}");
                    ensure!(k == ErrorKind::UnexpectedEos, "wrong-kind", "{k:?} at the end of the output");
                }
                break;
            }
            ensure!(fails.is_none(), "error-lost", "the function fails and encode succeeds");
            let left = n.checked_sub(drain.out.len());
            ensure!(drain.out.len() <= n && drain.out == item[..drain.out.len()], "wrong-bytes", "{} instead of {}", short(&drain.out), short(&item));
            let left = left.expect("checked");
            ensure!(r.n == r.offered.min(left + r.n), "not-full", "{} of {} bytes written, {left} left", r.n, r.offered);
            ensure!(e.is_idle() == (left == 0), "idle-wrong", "idle: {}, {left} bytes left", e.is_idle());
            if let ByteCount::Finite(m) = e.requiring_bytes() {
                ensure!(m == left as u64, "count-wrong", "{m} bytes advertised, {left} left");
            }
            ensure!(!r.last || left == 0, "eos-missed", "the end was announced, {left} bytes are left");
            stall = if r.n == 0 { stall + 1 } else { 0 };
            ensure!(stall < 500, "stall", "no progress");
        }
        if e.is_idle() && fails.is_none() && cap.is_none_or(|c| c >= n) {
            ensure!(drain.out == item, "wrong-bytes", "{} bytes instead of {n}", drain.out.len());
            ctx.count_item();
        }
        if !e.is_idle() {
            // An item that does not fit any more: the encoder is not used again.
            break;
        }
    }
    Ok(())
}

pub fn custom(ctx: &Ctx) -> R {
    if ctx.below(2) == 0 {
        decoding(ctx)
    } else {
        encoding(ctx)
    }
}
