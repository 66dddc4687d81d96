//! C11-C13, C19-C21: framing, limits, slices, re-use, the end of streams, peeking.
use super::basic::{big, mutate, same_items, start_ok, values};
use crate::codecs::*;
use crate::core::{kind_of, short, Ctx, R};
use crate::feed::*;
use crate::schema::*;
use crate::{ensure, fail};
use bytecodec::bytes::{BytesDecoder, RemainingBytesDecoder};
use bytecodec::combinator::{Length, MaxBytes, Slice};
use bytecodec::padding::PaddingDecoder;
use bytecodec::{ByteCount, Decode, DecodeExt, Encode, EncodeExt, Eos, Error, ErrorKind, Result};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

// ---------------------------------------------------------------- C11

#[derive(Clone, Copy, Debug, PartialEq)]
enum Want {
    ToEos,
    Exact(usize),
}
struct SpyState {
    want: Want,
    reject: bool,
    frame: usize,
    got: Vec<u8>,
    done: bool,
    viol: Option<String>,
}
/// Content of a frame that checks what it is handed.
#[derive(Clone)]
struct Spy(Rc<RefCell<SpyState>>);
impl Spy {
    fn idle(s: &SpyState) -> bool {
        s.done || s.want == Want::Exact(s.got.len())
    }
}
impl Decode for Spy {
    type Item = Val;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        let mut s = self.0.borrow_mut();
        if Spy::idle(&s) {
            return Ok(0);
        }
        let after = s.got.len() + buf.len();
        if after > s.frame {
            s.viol = Some(format!("content is offered {after} bytes of a frame of {}", s.frame));
        } else if eos.is_reached() != (after == s.frame) {
            s.viol = Some(format!("end announced: {}, with {after} of the {} bytes of the frame offered", eos.is_reached(), s.frame));
        } else if let ByteCount::Finite(n) = eos.remaining_bytes() {
            if n != (s.frame - after) as u64 {
                s.viol = Some(format!("content is told {n} bytes to the end instead of {}", s.frame - after));
            }
        }
        match s.want {
            Want::ToEos => {
                s.got.extend_from_slice(buf);
                s.done = eos.is_reached();
                Ok(buf.len())
            }
            Want::Exact(k) => {
                let n = buf.len().min(k - s.got.len());
                s.got.extend_from_slice(&buf[..n]);
                if s.got.len() < k && eos.is_reached() {
                    use trackable::error::ErrorKindExt;
                    return Err(ErrorKind::UnexpectedEos.cause("content").into());
                }
                Ok(n)
            }
        }
    }
    fn finish_decoding(&mut self) -> Result<Val> {
        use trackable::error::ErrorKindExt;
        let mut s = self.0.borrow_mut();
        if !Spy::idle(&s) {
            return Err(ErrorKind::IncompleteDecoding.cause("content").into());
        }
        let v = Val::B(std::mem::take(&mut s.got));
        s.done = false;
        if s.reject {
            return Err(invalid("rejected content"));
        }
        Ok(v)
    }
    fn requiring_bytes(&self) -> ByteCount {
        let s = self.0.borrow();
        if Spy::idle(&s) {
            return ByteCount::Finite(0);
        }
        match s.want {
            Want::ToEos => ByteCount::Infinite,
            Want::Exact(k) => ByteCount::Finite((k - s.got.len()) as u64),
        }
    }
    fn is_idle(&self) -> bool {
        Spy::idle(&self.0.borrow())
    }
}

/// Tries to change the length while `done` of `n` bytes are through.
fn try_resize<C>(ctx: &Ctx, l: &mut Length<C>, done: usize, n: usize) -> R {
    if done == 0 || n == 0 || !ctx.chance(1, 4) {
        return Ok(());
    }
    ctx.fault("resize-within");
    let m = ctx.below(2 * n + 2) as u64;
    match l.set_expected_bytes(m) {
        Ok(()) => fail!("resized-within", "the length was changed from {n} to {m} with {done} bytes of the item through"),
        Err(e) => ensure!(kind_of(&e) == ErrorKind::IncompleteDecoding, "wrong-kind", "changing the length within an item fails with {:?}", kind_of(&e)),
    }
    ensure!(l.expected_bytes() == n as u64, "length-lost", "a refused change altered the length to {}", l.expected_bytes());
    Ok(())
}
fn resize<C>(l: &mut Length<C>, n: usize) -> R {
    if let Err(e) = l.set_expected_bytes(n as u64) {
        fail!("resize-refused", "changing the length between items to {n} fails with {:?}", kind_of(&e));
    }
    ensure!(l.expected_bytes() == n as u64 && l.remaining_bytes() == n as u64, "length-lost", "after setting {n}: {} expected, {} remaining", l.expected_bytes(), l.remaining_bytes());
    Ok(())
}
fn frame_len(ctx: &Ctx) -> usize {
    ctx.size([8, 40, 300, 5000][ctx.below(4)])
}

/// What became of one frame.
enum Fr {
    Item(Val),
    /// the error came when the finished item was to be taken
    AtEnd(ErrorKind),
    Failed(ErrorKind),
}
fn one_frame<D: Decode<Item = Val>>(ctx: &Ctx, l: &mut Length<D>, feed: &mut Feed, n: usize, check: &dyn Fn() -> R) -> R<Fr> {
    let start = feed.pos;
    let mut stall = 0;
    loop {
        let done = feed.pos - start;
        try_resize(ctx, l, done, n)?;
        if l.is_idle() {
            let all = done == n;
            let r = match l.finish_decoding() {
                Ok(v) => {
                    ensure!(all, "short-frame", "an item after {done} of the {n} bytes of the frame");
                    Fr::Item(v)
                }
                Err(e) if all => Fr::AtEnd(kind_of(&e)),
                Err(e) => Fr::Failed(kind_of(&e)),
            };
            check()?;
            return Ok(r);
        }
        ensure!(l.remaining_bytes() == (n - done) as u64, "remaining", "{} bytes remaining, {} expected", l.remaining_bytes(), n - done);
        let (buf, eos) = feed.next();
        match l.decode(buf, eos) {
            Ok(m) => {
                check()?;
                ensure!(m <= buf.len(), "overrun", "consumed {m} of {}", buf.len());
                ensure!(done + m <= n, "beyond-frame", "consumed {} bytes of a frame of {n}", done + m);
                feed.took(m);
                ctx.ev("frame", m as u64, u64::from(l.is_idle()));
                stall = if m == 0 { stall + 1 } else { 0 };
                ensure!(stall < 60, "stall", "no progress at {done} of {n} bytes of the frame");
            }
            Err(e) => {
                check()?;
                return Ok(Fr::Failed(kind_of(&e)));
            }
        }
    }
}

fn c11_spy(ctx: &Ctx) -> R {
    let k = 1 + ctx.below(6);
    let mut frames = vec![];
    let mut data = vec![];
    for i in 0..k {
        let n = if i > 0 && ctx.below(2) == 0 { frames.last().map_or(0, |&(n, _, _)| n) } else { frame_len(ctx) };
        let want = match ctx.weighted(&[10, 8, 1, 1]) {
            0 => Want::ToEos,
            1 => Want::Exact(n),
            2 => Want::Exact(ctx.below(n + 1)),
            _ => Want::Exact(n + 1 + ctx.below(5)),
        };
        frames.push((n, want, ctx.chance(1, 4)));
        data.extend(ctx.bytes(n));
    }
    let content = data.clone();
    let m = ctx.below(20);
    data.extend(ctx.bytes(m));
    ctx.note(|| format!("frames {frames:?}"));
    let spy = Spy(Rc::new(RefCell::new(SpyState { want: Want::ToEos, reject: false, frame: 0, got: vec![], done: false, viol: None })));
    let mut l = spy.clone().length(frames[0].0 as u64);
    let mode = gen_eos(ctx, true, false);
    let mut feed = Feed::new(ctx, &data, gen_cut(ctx), mode);
    let mut cur = frames[0].0;
    let s2 = spy.clone();
    let check = move || match s2.0.borrow_mut().viol.take() {
        Some(v) => crate::core::viol("content-view", v),
        None => Ok(()),
    };
    let mut pos = 0;
    for &(n, want, reject) in &frames {
        if n != cur || ctx.below(4) == 0 {
            resize(&mut l, n)?;
            cur = n;
        }
        {
            let mut s = spy.0.borrow_mut();
            s.want = want;
            s.reject = reject;
            s.frame = n;
        }
        ensure!(feed.pos == pos, "frame-drift", "frame starts at {} instead of {pos}", feed.pos);
        match one_frame(ctx, &mut l, &mut feed, n, &check)? {
            Fr::Item(v) => {
                ensure!(!reject, "reject-lost", "rejected content became an item");
                ensure!(v == Val::B(content[pos..pos + n].to_vec()), "wrong-bytes", "frame at {pos}..{} has {}", pos + n, short(&v));
                ensure!(matches!(want, Want::ToEos) || want == Want::Exact(n), "bad-frame-accepted", "content {want:?} fits a frame of {n}");
                ctx.count_item();
            }
            Fr::AtEnd(_) => {
                ensure!(reject, "frame-refused", "good frame refused at its end");
                ctx.fault("rejected-content");
            }
            Fr::Failed(kind) => {
                let fits = matches!(want, Want::ToEos) || want == Want::Exact(n);
                ensure!(!fits, "frame-refused", "content {want:?} of a frame of {n} bytes fails with {kind:?}");
                ctx.fault("misfit-content");
                if let Want::Exact(x) = want {
                    if x > n {
                        ensure!(kind == ErrorKind::UnexpectedEos, "wrong-kind", "content longer than the frame fails with {kind:?}");
                    }
                }
                return Ok(());
            }
        }
        pos += n;
    }
    Ok(())
}

/// Content that can refuse what it has consumed completely.
fn frame_content(ctx: &Ctx) -> S {
    let last: Sc = match ctx.below(7) {
        0 => Sc::Rest,
        1 => Sc::Utf8,
        2 => Sc::TryMap(Rc::new(Sc::Rest)),
        3 => Sc::TryMap(Rc::new(Sc::Utf8)),
        4 => Sc::Pad(ctx.below(256) as u8, false),
        5 => Sc::Coll(Rc::new(Sc::Fix(gen_fix(ctx)))),
        _ => Sc::Fix(gen_fix(ctx)),
    };
    let mut sc = Rc::new(last);
    for _ in 0..ctx.below(3) {
        sc = Rc::new(match ctx.below(7) {
            0 => Sc::Map(sc),
            1 => Sc::MapErr(sc),
            2 => Sc::Omit(false, sc),
            3 => Sc::Slice(sc),
            4 => Sc::MaxB(1 << 62, sc),
            _ => {
                let mut v: Vec<S> = vec![];
                for _ in 0..1 + ctx.below(2) {
                    let f = Rc::new(Sc::Fix(gen_fix(ctx)));
                    v.push(if ctx.below(2) == 0 { Rc::new(Sc::TryMap(f)) } else { f });
                }
                v.push(sc);
                let chain = v.len() == 2 && ctx.below(2) == 1;
                Sc::Tup(v, chain)
            }
        });
    }
    sc
}
fn c11_real(ctx: &Ctx) -> R {
    let sc = frame_content(ctx);
    let k = 1 + ctx.below(5);
    let mut data = vec![];
    let mut lens = vec![];
    for _ in 0..k {
        let n = sc.fixed().unwrap_or_else(|| sc.min() + frame_len(ctx));
        let n = if ctx.chance(1, 12) { frame_len(ctx) } else { n };
        let mut b = ctx.bytes(n);
        match ctx.below(4) {
            0 | 1 => b.iter_mut().for_each(|x| *x &= 0x7f),
            2 if n > 0 => b[0] = REJECT,
            _ => {}
        }
        data.extend(b);
        lens.push(n);
    }
    let content = data.len();
    let m = ctx.below(20);
    data.extend(ctx.bytes(m));
    ctx.abs(&sc.show());
    ctx.note(|| format!("length frames {lens:?} over {}", sc.show()));
    let env = Env::new(ctx);
    let mut l = dec(&sc, &env).length(lens[0] as u64);
    let mode = gen_eos(ctx, true, false);
    let mut feed = Feed::new(ctx, &data, gen_cut(ctx), mode);
    let check = || env.check();
    let mut pos = 0;
    for &n in &lens {
        if n as u64 != l.expected_bytes() || ctx.below(4) == 0 {
            resize(&mut l, n)?;
        }
        ensure!(feed.pos == pos, "frame-drift", "frame starts at {} instead of {pos}", feed.pos);
        let want = match ref_dec(&sc, &data[..pos + n], pos) {
            Ok((v, p)) if p == pos + n => Ok(v),
            Ok(_) | Err(De::Trunc) => Err(De::Frame),
            Err(e) => Err(e),
        };
        match (one_frame(ctx, &mut l, &mut feed, n, &check)?, want) {
            (Fr::Item(v), Ok(w)) => {
                ensure!(v == w, "item-wrong", "frame is {} instead of {}", short(&v), short(&w));
                ctx.count_item();
            }
            (Fr::Item(v), Err(e)) => fail!("bad-frame-accepted", "a frame that is {e:?} became {}", short(&v)),
            (Fr::AtEnd(k), Ok(_)) | (Fr::Failed(k), Ok(_)) => fail!("frame-refused", "a good frame of {n} bytes fails with {k:?}"),
            (Fr::AtEnd(_), Err(De::Bad)) => ctx.fault("rejected-content"),
            (_, Err(_)) => {
                ctx.fault("misfit-content");
                return Ok(());
            }
        }
        pos += n;
    }
    ensure!(feed.pos == content, "frame-drift", "{} bytes consumed instead of {content}", feed.pos);
    Ok(())
}

/// A flexible composition that can be encoded.
fn flex_schema(ctx: &Ctx) -> S {
    for _ in 0..4 {
        let sc = gen_schema(ctx, GenOpt { pad_ok: true, big: 60, ..GenOpt::enc(ctx.below(3)) });
        if sc.flexible() {
            return sc;
        }
    }
    Rc::new([Sc::Rest, Sc::Utf8, Sc::Pad(7, true)][ctx.below(3)].clone())
}
fn c11_enc(ctx: &Ctx) -> R {
    let sc = flex_schema(ctx);
    let env = Env::new(ctx);
    let min = sc.min();
    let mut n = min + frame_len(ctx);
    let mut l = enc_codec(&sc, &env).length(n as u64);
    ctx.abs(&sc.show());
    ctx.note(|| format!("length encoder over {}", sc.show()));
    // Padding adapts to the frame.
    let adapts = sc.any(&|s| matches!(s, Sc::Pad(..)));
    for i in 0..1 + ctx.below(6) {
        if i > 0 && ctx.below(2) == 0 {
            n = min + frame_len(ctx);
            resize(&mut l, n)?;
        }
        let m = match ctx.weighted(&[8, 2, 2]) {
            1 if !adapts && n > min => [n - 1, min, min + ctx.below(n - min)][ctx.below(3)],
            2 if !adapts => n + 1 + [0, ctx.below(3), ctx.below(2000)][ctx.below(3)],
            _ => n,
        };
        let v = gen_exact(ctx, &sc, m, 40);
        let want = enc(&sc, &v);
        ensure!(want.len() == m, "harness", "gen_exact gave {} bytes for {m}", want.len());
        ctx.note(|| format!("frame of {n} bytes for an item of {m}"));
        let cap = if ctx.below(4) == 0 { Some(n + ctx.below(3)) } else { None };
        let mut drain = Drain::new(ctx, cap);
        let fit = m == n;
        if !fit {
            ctx.fault("misfit-item");
        }
        ensure!(l.is_idle(), "not-idle", "frame encoder is busy between items");
        if let Err(e) = l.start_encoding(v) {
            ensure!(m == 0 && n > 0, "start-refused", "item of {m} bytes for a frame of {n} refused at the start with {:?}", kind_of(&e));
            if !l.is_idle() {
                return Ok(());
            }
            continue;
        }
        let mut err = None;
        let mut stall = 0;
        while !l.is_idle() {
            let done = drain.out.len();
            try_resize(ctx, &mut l, done, n)?;
            ensure!(l.remaining_bytes() == (n - done) as u64, "remaining", "{} bytes remaining, {} expected", l.remaining_bytes(), n - done);
            let r = drain.step(&mut l, n - done)?;
            env.check()?;
            if r.err.is_some() {
                err = r.err;
                break;
            }
            let out = drain.out.len();
            ensure!(out <= n, "beyond-frame", "{out} bytes for a frame of {n}");
            ensure!(out <= m && drain.out[done..] == want[done..out], "wrong-bytes", "wrong bytes at {done}");
            stall = if r.n == 0 { stall + 1 } else { 0 };
            ensure!(stall < 500, "stall", "no progress at {out} of {n} bytes");
        }
        match err {
            None => {
                ensure!(drain.out.len() == n, "frame-size", "{} bytes written for a frame of {n}, without an error", drain.out.len());
                ensure!(fit, "misfit-accepted", "an item of {m} bytes was accepted for a frame of {n}");
                ctx.count_item();
            }
            Some(k) => {
                ensure!(!fit, "frame-refused", "an item of {m} bytes fails in a frame of {n} with {k:?}");
                ensure!(m > n || k == ErrorKind::InvalidInput, "wrong-kind", "an item of {m} bytes for a frame of {n} is reported as {k:?}");
                if !l.is_idle() {
                    return Ok(());
                }
            }
        }
    }
    Ok(())
}
/// Items without any bytes, which are over as soon as they have begun.
fn c11_nothing(ctx: &Ctx) -> R {
    let fix = || Rc::new(Sc::Fix(gen_fix(ctx)));
    let (sc, v) = match ctx.below(6) {
        0 => (Sc::Null, Val::Unit),
        1 => (Sc::Coll(fix()), Val::L(vec![])),
        2 => (Sc::Omit(true, fix()), Val::O(None)),
        3 => (Sc::Tup(vec![Rc::new(Sc::Null), Rc::new(Sc::Coll(fix()))], false), Val::L(vec![Val::Unit, Val::L(vec![])])),
        4 => (Sc::Slice(Rc::new(Sc::Coll(fix()))), Val::L(vec![])),
        _ => (Sc::Rest, Val::B(vec![])),
    };
    let sc: S = Rc::new(sc);
    let env = Env::new(ctx);
    let mut n = frame_len(ctx);
    let mut l = enc_codec(&sc, &env).length(n as u64);
    ctx.abs(&sc.show());
    for i in 0..1 + ctx.below(5) {
        if i > 0 && ctx.below(2) == 0 {
            n = if ctx.below(2) == 0 { 0 } else { frame_len(ctx) };
            resize(&mut l, n)?;
        }
        ctx.note(|| format!("frame of {n} bytes for an item of none, {}", sc.show()));
        let mut failed = None;
        match l.start_encoding(v.clone()) {
            Err(e) => failed = Some(kind_of(&e)),
            Ok(()) => {
                let mut drain = Drain::new(ctx, None);
                let mut stall = 0;
                while !l.is_idle() && failed.is_none() {
                    let r = drain.step(&mut l, n)?;
                    env.check()?;
                    ensure!(r.n == 0, "beyond-frame", "{} bytes for an item of none", r.n);
                    failed = r.err;
                    stall += 1;
                    ensure!(stall < 500, "stall", "an item without bytes never ends");
                }
            }
        }
        ctx.ev("nothing", n as u64, u64::from(failed.is_some()));
        match failed {
            None => ensure!(n == 0, "misfit-accepted", "an item without bytes was accepted for a frame of {n}"),
            Some(k) => {
                ctx.fault("misfit-item");
                ensure!(n > 0, "frame-refused", "an item without bytes fails in an empty frame with {k:?}");
                ensure!(k == ErrorKind::InvalidInput, "wrong-kind", "too small an item is reported as {k:?}");
            }
        }
        if !l.is_idle() {
            return Ok(());
        }
        ctx.count_item();
    }
    Ok(())
}
pub fn c11(ctx: &Ctx) -> R {
    match ctx.weighted(&[10, 10, 10, 1, 1]) {
        0 => c11_spy(ctx),
        1 => c11_real(ctx),
        2 => c11_enc(ctx),
        3 => c11_nothing(ctx),
        _ => super::huge::c11(ctx),
    }
}

// ---------------------------------------------------------------- C12

fn near(ctx: &Ctx, n: u64) -> u64 {
    match ctx.below(6) {
        0 => n,
        1 => n + 1,
        2 => n.saturating_sub(1),
        3 => n.saturating_sub(1 + ctx.draw(n.max(1))),
        4 => n + 1 + ctx.draw(200),
        _ => n * 2 + 1000,
    }
}
struct Limits {
    lo: u64,
    hi: u64,
}
/// Changes the limit in the middle of an item of which `done` bytes are through.
fn relimit<C>(ctx: &Ctx, m: &mut MaxBytes<C>, done: u64, lim: &mut Limits) -> R {
    if !ctx.chance(1, 6) {
        return Ok(());
    }
    let old = m.max_bytes();
    let new = near(ctx, if ctx.below(2) == 0 { done } else { old });
    ctx.fault("relimit");
    match m.set_max_bytes(new) {
        Ok(()) => {
            ensure!(new >= done, "limit-below-count", "limit {new} accepted with {done} bytes through");
            ensure!(m.max_bytes() == new, "limit-lost", "limit is {} after setting {new}", m.max_bytes());
            lim.lo = lim.lo.min(new);
            lim.hi = lim.hi.max(new);
        }
        Err(e) => {
            ensure!(new < done, "limit-refused", "limit {new} refused with {done} bytes through: {:?}", kind_of(&e));
            ensure!(kind_of(&e) == ErrorKind::InvalidInput, "wrong-kind", "a limit below the count is refused with {:?}", kind_of(&e));
            ensure!(m.max_bytes() == old, "limit-lost", "a refused limit became {}", m.max_bytes());
        }
    }
    Ok(())
}
fn c12_dec(ctx: &Ctx) -> R {
    let d = ctx.below(3);
    let b = big(ctx).min(3000);
    let k = 1 + ctx.below(4);
    let sc = gen_schema(ctx, GenOpt { maxb: false, reusable: k > 1, big: b, ..GenOpt::dec(d) });
    let k = if sc.reusable() { k } else { 1 };
    let c = values(ctx, &sc, k, b);
    c.note(ctx);
    let env = Env::new(ctx);
    let first = near(ctx, c.ends[0] as u64);
    let mut m = dec(&sc, &env).max_bytes(first);
    let mut from = 0;
    for i in 0..k {
        let item = &c.data[from..c.ends[i]];
        from = c.ends[i];
        let len = item.len() as u64;
        if i > 0 && ctx.below(2) == 0 {
            let n = near(ctx, len);
            if let Err(e) = m.set_max_bytes(n) {
                fail!("limit-refused", "limit {n} refused between items with {:?}", kind_of(&e));
            }
        }
        let mut lim = Limits { lo: MaxBytes::max_bytes(&m), hi: MaxBytes::max_bytes(&m) };
        ctx.note(|| format!("item of {len} bytes, limit {}", lim.hi));
        let mode = gen_eos(ctx, c.self_delim, true);
        let mut feed = Feed::new(ctx, item, gen_cut(ctx), mode);
        let mut stall = 0;
        ensure!(m.consumed_bytes() == 0, "count", "{} bytes consumed before an item", m.consumed_bytes());
        loop {
            let done = feed.pos as u64;
            ensure!(m.consumed_bytes() == done, "count", "{} bytes reported, {done} consumed", m.consumed_bytes());
            if m.is_idle() {
                match m.finish_decoding() {
                    Ok(v) => {
                        ensure!(v == c.vals[i].norm(), "item-wrong", "{} instead of {}", short(&v), short(&c.vals[i]));
                        ensure!(len <= lim.hi, "over-limit", "an item of {len} bytes passed a limit of {}", lim.hi);
                        ctx.count_item();
                    }
                    Err(e) => fail!("valid-rejected", "taking a finished item of {len} bytes fails with {:?}", kind_of(&e)),
                }
                break;
            }
            if mode != EosMode::Finite {
                relimit(ctx, &mut m, done, &mut lim)?;
            }
            if ctx.chance(1, 8) {
                ctx.fault("early-finish");
                match m.finish_decoding() {
                    Ok(v) => fail!("early-item", "an unfinished item is handed out: {}", short(&v)),
                    Err(e) => ensure!(kind_of(&e) == ErrorKind::IncompleteDecoding, "early-kind", "an unfinished item is refused with {:?}", kind_of(&e)),
                }
                ensure!(m.consumed_bytes() == done, "count", "{} bytes reported after a premature request, {done} consumed", m.consumed_bytes());
            }
            if lim.hi < 1 << 60 && ctx.chance(1, 24) {
                // More is announced than any limit lets through.
                ctx.fault("endless-announced");
                let more = [ByteCount::Infinite, ByteCount::Finite(u64::MAX), ByteCount::Finite(u64::MAX - ctx.draw(9)), ByteCount::Finite(1 << 62)][ctx.below(4)];
                let at = ctx.below(feed.left().min(9) + 1);
                let r = m.decode(&item[feed.pos..feed.pos + at], Eos::with_remaining_bytes(more));
                let k = r.map_err(|e| kind_of(&e));
                ensure!(k == Err(ErrorKind::InvalidInput), "over-limit", "{more:?} further bytes announced under a limit of {}: {k:?}", lim.hi);
                return Ok(());
            }
            let (buf, eos) = feed.next();
            match m.decode(buf, eos) {
                Ok(n) => {
                    env.check()?;
                    ensure!(n <= buf.len(), "overrun", "consumed {n} of {}", buf.len());
                    feed.took(n);
                    ctx.ev("limited", n as u64, u64::from(m.is_idle()));
                    stall = if n == 0 { stall + 1 } else { 0 };
                    ensure!(stall < 60, "stall", "no progress at {} of {len}", feed.pos);
                }
                Err(e) => {
                    env.check()?;
                    let k = kind_of(&e);
                    ensure!(len > lim.lo, "within-limit-refused", "an item of {len} bytes fails with {k:?} under a limit of {}", lim.lo);
                    ensure!(k == ErrorKind::InvalidInput, "wrong-kind", "an item over the limit fails with {k:?}");
                    ctx.fault("over-limit");
                    return Ok(());
                }
            }
        }
    }
    Ok(())
}
fn c12_enc(ctx: &Ctx) -> R {
    let d = ctx.below(3);
    let b = big(ctx).min(3000);
    let sc = gen_schema(ctx, GenOpt { maxb: false, big: b, ..GenOpt::enc(d) });
    let k = 1 + ctx.below(5);
    let c = values(ctx, &sc, k, b);
    c.note(ctx);
    let env = Env::new(ctx);
    let mut m = enc_codec(&sc, &env).max_bytes(near(ctx, c.ends[0] as u64));
    let mut from = 0;
    // The item in front was over the limit: the count stays that of its bytes until the next one is started.
    let mut refused = false;
    for (i, v) in c.vals.iter().enumerate() {
        let want = &c.data[from..c.ends[i]];
        from = c.ends[i];
        let len = want.len() as u64;
        if !refused {
            ensure!(m.consumed_bytes() == 0, "count", "{} bytes reported in front of an item", m.consumed_bytes());
        }
        if !refused && ctx.below(3) == 0 {
            // A count of nothing: any limit goes.
            if let Err(e) = m.set_max_bytes(near(ctx, len)) {
                fail!("limit-refused", "a limit is refused between items with {:?}", kind_of(&e));
            }
        }
        if let Err(e) = m.start_encoding(v.clone()) {
            fail!("start-refused", "an idle limited encoder refuses an item with {:?}", kind_of(&e));
        }
        if ctx.below(2) == 0 {
            let n = near(ctx, len);
            if let Err(e) = m.set_max_bytes(n) {
                fail!("limit-refused", "limit {n} refused before the first byte with {:?}", kind_of(&e));
            }
        }
        let mut lim = Limits { lo: MaxBytes::max_bytes(&m), hi: MaxBytes::max_bytes(&m) };
        ctx.note(|| format!("item of {len} bytes, limit {}", lim.hi));
        let mut drain = Drain::new(ctx, None);
        let mut stall = 0;
        let mut over = false;
        refused = false;
        while !m.is_idle() {
            let done = drain.out.len();
            if !over {
                ensure!(m.consumed_bytes() == done as u64, "count", "{} bytes reported, {done} produced", m.consumed_bytes());
                relimit(ctx, &mut m, done as u64, &mut lim)?;
            }
            let r = drain.step(&mut m, want.len() - done)?;
            env.check()?;
            if let Some(k) = r.err {
                ensure!(len > lim.lo, "within-limit-refused", "an item of {len} bytes fails with {k:?} under a limit of {}", lim.lo);
                ensure!(k == ErrorKind::InvalidInput, "wrong-kind", "an item over the limit fails with {k:?}");
                if !over {
                    ctx.fault("over-limit");
                }
                over = true;
                refused = true;
                stall += 1;
                ensure!(stall < 3000, "stall", "an item over the limit never ends");
                if stall > 40 && !m.is_idle() {
                    // The rest of the refused item stays inside.
                    return Ok(());
                }
                continue;
            }
            if over {
                // A call after the error that produces nothing more.
                ensure!(r.n == 0 || m.is_idle(), "over-limit", "{} bytes produced after the limit was exceeded", r.n);
                stall += 1;
                if stall > 40 {
                    return Ok(());
                }
                continue;
            }
            let out = drain.out.len();
            ensure!(out as u64 <= lim.hi, "over-limit", "{out} bytes produced under a limit of {}", lim.hi);
            ensure!(out <= want.len() && drain.out[done..] == want[done..out], "wrong-bytes", "wrong bytes at {done}");
            stall = if r.n == 0 { stall + 1 } else { 0 };
            ensure!(stall < 500, "stall", "no progress at {out} of {len}");
        }
        if !over {
            ensure!(drain.out == want, "wrong-bytes", "{} bytes instead of {len}", drain.out.len());
            ensure!(len <= lim.hi, "over-limit", "an item of {len} bytes passed a limit of {}", lim.hi);
            ctx.count_item();
        }
    }
    Ok(())
}
/// A limit inside frames: the frame clips the stream, so whole windows can be offered.
fn c12_framed(ctx: &Ctx) -> R {
    let lim = ctx.size(400) as u64;
    let k = 1 + ctx.below(5);
    let lens: Vec<usize> = (0..k).map(|_| near(ctx, lim) as usize).collect();
    let mut data = vec![];
    for &n in &lens {
        data.extend((n as u32).to_be_bytes());
        data.extend(ctx.bytes(n));
    }
    let sc: S = Rc::new(Sc::Pre(Fix { t: FixT::U32, le: false }, Rc::new(Sc::MaxB(lim, Rc::new(Sc::Rest)))));
    ctx.note(|| format!("limit {lim} in frames of {lens:?}"));
    let env = Env::new(ctx);
    let mut d = dec(&sc, &env);
    let mode = gen_eos(ctx, true, false);
    let mut feed = Feed::new(ctx, &data, gen_cut(ctx), mode);
    let out = run_decode(ctx, &mut d, &env, &mut feed, k, &DecOpt::default())?;
    let good = lens.iter().take_while(|&&n| n as u64 <= lim).count();
    let (items, _, _) = ref_outcome(&sc, &data, good);
    same_items(&out.items, &items, "frames within the limit")?;
    if good < k {
        ctx.fault("over-limit");
        ensure!(out.err == Some(ErrorKind::InvalidInput), "over-limit", "a frame of {} bytes under a limit of {lim} ends with {:?}", lens[good], out.err);
    }
    Ok(())
}
pub fn c12(ctx: &Ctx) -> R {
    match ctx.weighted(&[20, 20, 8, 1]) {
        0 => c12_dec(ctx),
        1 => c12_enc(ctx),
        2 => c12_framed(ctx),
        _ => super::huge::c12(ctx),
    }
}

// ---------------------------------------------------------------- C13

fn gen_grant(ctx: &Ctx) -> u64 {
    match ctx.below(8) {
        0 => 0,
        1 | 2 => 1,
        3 | 4 => 1 + ctx.draw(8),
        5 => 1 + ctx.draw(300),
        6 => 1 << 40,
        _ => u64::MAX,
    }
}
pub fn c13(ctx: &Ctx) -> R {
    if ctx.chance(1, 20) {
        return super::huge::c13(ctx);
    }
    if ctx.chance(1, 6) {
        return super::hand::granted_parts(ctx);
    }
    let n = 1 + ctx.below(4);
    let mut cases = vec![];
    for _ in 0..n {
        let d = ctx.below(3);
        let b = [30, 30, 300][ctx.below(3)];
        let sc = gen_schema(ctx, GenOpt { to_eos: false, pad_ok: false, big: b, ..GenOpt::enc(d) });
        let sc = if sc.to_eos() { Rc::new(Sc::Fix(gen_fix(ctx))) } else { sc };
        // A limit takes all bytes of its stream for its own: not on a shared one.
        let sc = if sc.has_maxb() { Rc::new(Sc::Fix(gen_fix(ctx))) } else { sc };
        let k = if sc.reusable() { ctx.below(5) } else { 1 };
        cases.push(values(ctx, &sc, k, b));
    }
    for c in &cases {
        c.note(ctx);
    }
    // Sender
    let env = Env::new(ctx);
    let mut encs: Vec<Slice<PE>> = cases.iter().map(|c| enc_codec(&c.sc, &env).slice()).collect();
    for (i, e) in encs.iter_mut().enumerate() {
        ensure!(e.consumable_bytes() == 0 && e.is_suspended(), "grant", "a fresh sliced encoder has {} bytes granted", e.consumable_bytes());
        if ctx.below(3) == 0 && cases[i].vals.len() > 0 {
            // Nothing comes out before the first grant.
            ctx.fault("no-grant-yet");
            let mut buf = [0xa5; 9];
            let r = e.encode(&mut buf, Eos::new(false));
            ensure!(matches!(r, Ok(0)) && buf == [0xa5; 9], "over-grant", "a sliced encoder that was granted nothing gives {:?}", r.map_err(|e| kind_of(&e)));
        }
    }
    let mut sent = vec![0usize; n];
    let mut outs: Vec<Vec<u8>> = vec![vec![]; n];
    let mut wire: Vec<u8> = vec![];
    let mut turns: Vec<(usize, u64)> = vec![];
    let mut empty_turns = 0;
    loop {
        let open: Vec<usize> = (0..n).filter(|&i| sent[i] < cases[i].vals.len() || !encs[i].is_idle()).collect();
        if open.is_empty() {
            break;
        }
        let i = open[ctx.below(open.len())];
        let e = &mut encs[i];
        let mut grant = gen_grant(ctx);
        if empty_turns > 50 {
            grant = 1 << 40;
        }
        let big_turn = grant > 100_000;
        e.set_consumable_bytes(grant);
        ctx.ev("grant", i as u64, grant);
        ensure!(e.consumable_bytes() == grant, "grant", "grant of {grant} reads back as {}", e.consumable_bytes());
        let mut used = 0u64;
        let mut stall = 0;
        let leave_early = ctx.chance(1, 6);
        loop {
            if e.is_idle() {
                if sent[i] == cases[i].vals.len() {
                    break;
                }
                if let Err(x) = e.start_encoding(cases[i].vals[sent[i]].clone()) {
                    fail!("start-refused", "idle sliced encoder refuses an item with {:?}", kind_of(&x));
                }
                sent[i] += 1;
                continue;
            }
            if leave_early && used > 0 && ctx.below(3) == 0 {
                break;
            }
            let left = grant - used;
            ensure!(e.is_suspended() == (left == 0), "suspended", "suspended is {} with {left} bytes of the grant left", e.is_suspended());
            ensure!(outs[i].len() <= cases[i].ends[sent[i] - 1], "late-idle", "stream {i}: still busy behind the end of the item");
            let item_left = cases[i].ends[sent[i] - 1] - outs[i].len();
            let mut size = match ctx.below(4) {
                0 => ctx.below(4),
                1 => ctx.below(40),
                2 => left.min(5000) as usize + ctx.below(3),
                _ => 300,
            };
            if big_turn && used > 4000 {
                size = size.max(4000);
            }
            let mut buf = vec![0xa5; size];
            // The end of the output may be known as long as there is room for others behind the grant, or enough room.
            let eos = if ctx.below(3) == 0 && (size as u64 > left || size >= item_left) {
                ctx.fault("end-announced");
                Eos::new(true)
            } else {
                Eos::new(false)
            };
            let m = match e.encode(&mut buf, eos) {
                Ok(m) => m,
                Err(x) => fail!("encode-fails", "sliced encoder fails with {:?}", kind_of(&x)),
            };
            env.check()?;
            ctx.ev("slice-encode", size as u64, m as u64);
            ensure!(m <= size, "overrun", "{m} bytes written to {size}");
            ensure!(m as u64 <= left, "over-grant", "{m} bytes produced with {left} granted");
            ensure!(e.consumable_bytes() == left - m as u64, "grant", "{} bytes of the grant left instead of {}", e.consumable_bytes(), left - m as u64);
            let can = (size as u64).min(left).min(item_left as u64) as usize;
            ensure!(m == can, "grant-unused", "{m} bytes produced; the grant has {left}, the buffer {size}, the item {item_left}");
            ensure!(buf[m..].iter().all(|&b| b == 0xa5), "beyond-count", "bytes written behind the count");
            outs[i].extend_from_slice(&buf[..m]);
            wire.extend_from_slice(&buf[..m]);
            used += m as u64;
            if m == 0 && !e.is_idle() {
                stall += 1;
                if e.is_suspended() && stall > 1 {
                    break;
                }
                ensure!(stall < 300, "stall", "no progress with {left} bytes granted");
            } else {
                stall = 0;
            }
        }
        empty_turns = if used == 0 { empty_turns + 1 } else { 0 };
        turns.push((i, used));
        if turns.len() > 1 {
            ctx.nontrivial();
        }
    }
    for i in 0..n {
        ensure!(outs[i] == cases[i].data, "wrong-bytes", "stream {i} was encoded to {} bytes instead of {}", outs[i].len(), cases[i].data.len());
    }
    // Receiver: the same grants, other pieces.
    let tail = ctx.below(3) * 5;
    let junk = ctx.bytes(tail);
    let mut data = wire.clone();
    data.extend(junk);
    let mut decs: Vec<Slice<PD>> = cases.iter().map(|c| dec(&c.sc, &env).slice()).collect();
    for d in &mut decs {
        ensure!(d.consumable_bytes() == 0 && d.is_suspended(), "grant", "a fresh sliced decoder has {} bytes granted", d.consumable_bytes());
        if ctx.below(3) == 0 && !d.is_idle() {
            ctx.fault("no-grant-yet");
            let r = d.decode(&data[..data.len().min(5)], Eos::new(false));
            ensure!(matches!(r, Ok(0)), "over-grant", "a sliced decoder that was granted nothing gives {:?}", r.map_err(|e| kind_of(&e)));
        }
    }
    let mut got: Vec<Vec<Val>> = vec![vec![]; n];
    let mode = gen_eos(ctx, true, false);
    let mut feed = Feed::new(ctx, &data, gen_cut(ctx), mode);
    let take = |d: &mut Slice<PD>, got: &mut Vec<Val>, want: usize| -> R {
        while d.is_idle() && got.len() < want {
            match d.finish_decoding() {
                Ok(v) => got.push(v),
                Err(x) => fail!("valid-rejected", "sliced decoder refuses its item with {:?}", kind_of(&x)),
            }
        }
        Ok(())
    };
    for &(i, used) in &turns {
        let d = &mut decs[i];
        let want = cases[i].vals.len();
        d.set_consumable_bytes(used);
        let mut left = used;
        let mut stall = 0;
        while left > 0 {
            let d = &mut decs[i];
            take(d, &mut got[i], want)?;
            ensure!(d.is_suspended() == (left == 0), "suspended", "suspended is {} with {left} bytes left", d.is_suspended());
            let (buf, eos) = feed.next();
            if ctx.below(8) == 0 && !buf.is_empty() {
                // Those without a grant are offered the bytes of others.
                ctx.fault("offered-to-suspended");
                for j in (0..n).filter(|&j| j != i && got[j].len() < cases[j].vals.len()) {
                    let d = &mut decs[j];
                    d.set_consumable_bytes(0);
                    let r = d.decode(buf, eos);
                    env.check()?;
                    ensure!(matches!(r, Ok(0)), "over-grant", "suspended decoder of stream {j}: {:?}", r.map_err(|e| kind_of(&e)));
                }
            }
            let d = &mut decs[i];
            let m = match d.decode(buf, eos) {
                Ok(m) => m,
                Err(x) => fail!("decode-fails", "sliced decoder of stream {i} fails with {:?}", kind_of(&x)),
            };
            env.check()?;
            ctx.ev("slice-decode", buf.len() as u64, m as u64);
            ensure!(m <= buf.len() && m as u64 <= left, "over-grant", "{m} bytes consumed with {left} granted");
            left -= m as u64;
            ensure!(d.consumable_bytes() == left, "grant", "{} bytes of the grant left instead of {left}", d.consumable_bytes());
            if !d.is_idle() {
                let can = (buf.len() as u64).min(left + m as u64) as usize;
                ensure!(m == can, "grant-unused", "{m} bytes consumed of {} with {} granted", buf.len(), left + m as u64);
            }
            feed.took(m);
            stall = if m == 0 { stall + 1 } else { 0 };
            ensure!(stall < 60, "stall", "no progress of stream {i} with {left} bytes granted");
        }
        take(&mut decs[i], &mut got[i], want)?;
    }
    for i in 0..n {
        // Items without any bytes at the end.
        let d = &mut decs[i];
        let want = cases[i].vals.len();
        for _ in 0..40 {
            if got[i].len() == want {
                break;
            }
            take(d, &mut got[i], want)?;
            if got[i].len() < want && !d.is_idle() {
                if let Err(x) = d.decode(&[], Eos::new(false)) {
                    fail!("decode-fails", "sliced decoder of stream {i} fails with {:?}", kind_of(&x));
                }
            }
        }
        same_items(&got[i], &cases[i].norm(), "multiplexed stream")?;
    }
    ensure!(feed.pos == wire.len(), "wrong-extent", "{} bytes consumed instead of {}", feed.pos, wire.len());
    Ok(())
}

// ---------------------------------------------------------------- C19

/// Decodes one item from a stream of its own. `Ok(Err(..))` tells the error and whether the whole stream had been
/// consumed when the finished item was refused.
fn one_item<D: Decode<Item = Val>>(ctx: &Ctx, d: &mut D, env: &Env, data: &[u8], mode: EosMode) -> R<std::result::Result<(Val, usize), (ErrorKind, bool)>> {
    let mut feed = Feed::new(ctx, data, gen_cut(ctx), mode);
    let mut stall = 0;
    loop {
        if d.is_idle() {
            let r = d.finish_decoding();
            env.check()?;
            return Ok(match r {
                Ok(v) => Ok((v, feed.pos)),
                Err(e) => Err((kind_of(&e), feed.pos == data.len())),
            });
        }
        let (buf, eos) = feed.next();
        let r = d.decode(buf, eos);
        env.check()?;
        match r {
            Ok(n) => {
                ensure!(n <= buf.len(), "overrun", "consumed {n} of {}", buf.len());
                feed.took(n);
                ctx.ev("reuse", n as u64, u64::from(d.is_idle()));
                let dead = feed.told && feed.left() == 0;
                stall = if n == 0 { stall + 1 } else { 0 };
                ensure!(stall < 40 || !dead && stall < 200, "stall", "no progress at byte {} of {}", feed.pos, data.len());
            }
            Err(e) => return Ok(Err((kind_of(&e), false))),
        }
    }
}
fn item_mode(ctx: &Ctx, sc: &Sc) -> EosMode {
    gen_eos(ctx, !sc.to_eos(), sc.has_maxb())
}
fn history(ctx: &Ctx, sc: &Sc) -> usize {
    if sc.nodes() <= 4 && sc.min() <= 12 {
        ctx.count(100, |ctx| 2 + ctx.below(14))
    } else {
        2 + ctx.below(14)
    }
}
fn c19_dec(ctx: &Ctx) -> R {
    let d = ctx.below(4);
    let b = [20, 60, 400][ctx.below(3)];
    let sc = if ctx.below(3) == 0 { frame_content(ctx) } else { gen_schema(ctx, GenOpt { reusable: true, big: b, ..GenOpt::dec(d) }) };
    let k = history(ctx, &sc);
    ctx.abs(&sc.show());
    ctx.note(|| format!("re-used decoder {}", sc.show()));
    let env = Env::new(ctx);
    let mut d = dec(&sc, &env);
    for i in 0..k {
        let v = gen_val(ctx, &sc, b);
        let mut data = enc(&sc, &v);
        if ctx.below(3) == 0 && !data.is_empty() {
            if ctx.below(2) == 0 {
                let j = ctx.below(data.len());
                data[j] = [REJECT, 0xff, 0x80, 0][ctx.below(4)];
                ctx.fault("overwrite");
            } else {
                mutate(ctx, &mut data);
            }
        }
        let want = ref_dec(&sc, &data, 0);
        ctx.note(|| format!("item {i}: {} -> {}", short(&data), short(&want)));
        let mode = if sc.to_eos() || want.is_err() { gen_eos(ctx, false, sc.has_maxb()) } else { item_mode(ctx, &sc) };
        // A limit would count the bytes behind the item.
        let stream = match want {
            Ok((_, p)) if sc.has_maxb() => &data[..p],
            _ => &data[..],
        };
        match (one_item(ctx, &mut d, &env, stream, mode)?, want) {
            (Ok((v, p)), Ok((w, q))) => {
                ensure!(v == w && p == q, "item-wrong", "item {i} of a re-used decoder is {} ({p} bytes) instead of {} ({q} bytes)", short(&v), short(&w));
                ctx.count_item();
            }
            (Ok((v, _)), Err(e)) => fail!("bad-accepted", "item {i} is {e:?} but a re-used decoder yields {}", short(&v)),
            (Err((k, _)), Ok(_)) => fail!("valid-rejected", "item {i} is valid but a re-used decoder says {k:?}"),
            (Err((k, true)), Err(De::Bad)) => {
                super::basic::reject_kind(&sc, k, De::Bad, "re-used decoder")?;
                ctx.probe("went on after a refused item");
            }
            (Err((k, _)), Err(e)) => return super::basic::reject_kind(&sc, k, e, "re-used decoder"),
        }
    }
    Ok(())
}
fn c19_enc(ctx: &Ctx) -> R {
    let d = ctx.below(4);
    let b = [20, 60, 400][ctx.below(3)];
    let sc = gen_schema(ctx, GenOpt { big: b, ..GenOpt::enc(d) });
    let k = history(ctx, &sc);
    ctx.abs(&sc.show());
    ctx.note(|| format!("re-used encoder {}", sc.show()));
    let env = Env::new(ctx);
    let mut e = enc_codec(&sc, &env);
    for _ in 0..k {
        let v = gen_val(ctx, &sc, b);
        let want = enc(&sc, &v);
        start_ok(&mut e, v)?;
        // Sometimes the output ends exactly behind the item.
        let cap = if ctx.below(3) == 0 { Some(want.len()) } else { None };
        let mut drain = Drain::new(ctx, cap);
        run_encode(ctx, &mut e, &env, &mut drain, &want)?;
        ctx.count_item();
    }
    Ok(())
}
fn small(ctx: &Ctx) -> S {
    let sc = gen_schema(ctx, GenOpt { to_eos: false, reusable: true, pad_ok: false, maxb: false, big: 12, ..GenOpt::dec(ctx.below(3)) });
    if sc.to_eos() {
        Rc::new(Sc::Fix(gen_fix(ctx)))
    } else {
        sc
    }
}
fn expect_item<D: Decode<Item = Val>>(ctx: &Ctx, d: &mut D, env: &Env, data: &[u8], want: &Val, mode: EosMode, what: &str) -> R {
    match one_item(ctx, d, env, data, mode)? {
        Ok((v, p)) => {
            ensure!(v == *want, "item-wrong", "{what}: {} instead of {}", short(&v), short(want));
            ensure!(p == data.len(), "wrong-extent", "{what}: {p} bytes consumed instead of {}", data.len());
        }
        Err((k, _)) => fail!("valid-rejected", "{what}: fails with {k:?}"),
    }
    ctx.count_item();
    Ok(())
}
/// Changes of the configuration between items.
fn c19_config(ctx: &Ctx) -> R {
    let env = Env::new(ctx);
    let k = 2 + ctx.below(8);
    let self_mode = |ctx: &Ctx| gen_eos(ctx, true, false);
    match ctx.below(5) {
        0 => {
            // Number of elements.
            let sc = small(ctx);
            ctx.note(|| format!("collectn over {}", sc.show()));
            let n0 = ctx.below(6);
            let mut d = dec(&sc, &env).collectn::<Vec<Val>>(n0);
            for i in 0..k {
                let mut n = if i == 0 { n0 } else { ctx.count(60, |ctx| ctx.below(8)) };
                if i > 0 {
                    if ctx.below(3) == 0 {
                        d.set_remaining_items(ctx.below(9));
                    }
                    d.set_remaining_items(n);
                    ctx.fault("reconfigured");
                } else if ctx.below(3) == 0 {
                    n = ctx.below(8);
                    d.set_remaining_items(n);
                    ctx.fault("reconfigured");
                }
                ensure!(d.remaining_items() == n, "config-lost", "{} remaining items instead of {n}", d.remaining_items());
                let vals: Vec<Val> = (0..n).map(|_| gen_val(ctx, &sc, 12)).collect();
                let mut data = vec![];
                for v in &vals {
                    ref_enc(&sc, v, &mut data);
                }
                let want = Val::L(vals.iter().map(Val::norm).collect());
                let mut w = RefMap(&mut d);
                expect_item(ctx, &mut w, &env, &data, &want, self_mode(ctx), "collection of a changed number of elements")?;
            }
        }
        1 => {
            // Omission.
            let sc = small(ctx);
            ctx.note(|| format!("omit over {}", sc.show()));
            let mut om = ctx.below(2) == 1;
            let mut d = dec(&sc, &env).omit(om);
            for _ in 0..k {
                if ctx.below(2) == 0 {
                    if ctx.below(3) == 0 {
                        d.do_omit(ctx.below(2) == 0);
                    }
                    om = ctx.below(2) == 0;
                    d.do_omit(om);
                    ctx.fault("reconfigured");
                }
                ensure!(d.will_omit() == om, "config-lost", "will_omit is {}", d.will_omit());
                let (data, want) = if om {
                    ensure!(d.is_idle() && d.requiring_bytes() == ByteCount::Finite(0), "omit", "an omitted item is not complete at once");
                    (vec![], Val::O(None))
                } else {
                    let v = gen_val(ctx, &sc, 12);
                    (enc(&sc, &v), Val::O(Some(Box::new(v.norm()))))
                };
                if om && ctx.below(2) == 0 {
                    let n = d.decode(&[1, 2, 3], Eos::new(false));
                    ensure!(matches!(n, Ok(0)), "omit", "an omitted item consumed bytes");
                }
                let mut w = Omit(&mut d);
                expect_item(ctx, &mut w, &env, &data, &want, self_mode(ctx), "omitted or present item")?;
            }
        }
        2 => {
            // Padding byte.
            let mut want = None;
            let mut d = PaddingDecoder::new(want);
            for _ in 0..k {
                if ctx.below(2) == 0 {
                    if ctx.below(3) == 0 {
                        d.set_expected_byte([None, Some(0), Some(9)][ctx.below(3)]);
                    }
                    want = if ctx.below(3) == 0 { None } else { Some(ctx.below(3) as u8) };
                    d.set_expected_byte(want);
                    ctx.fault("reconfigured");
                }
                ensure!(d.expected_byte() == want, "config-lost", "expected byte is {:?}", d.expected_byte());
                let n = ctx.size(60);
                let data: Vec<u8> = match want {
                    Some(b) => vec![b; n],
                    None => ctx.bytes(n),
                };
                let mut data = data;
                let bad = want.is_some() && n > 0 && ctx.below(4) == 0;
                if bad {
                    let i = ctx.below(n);
                    data[i] ^= 1 << ctx.below(8);
                }
                let mut w = Pad(&mut d);
                match one_item(ctx, &mut w, &env, &data, gen_eos(ctx, false, false))? {
                    Ok((_, p)) => {
                        ensure!(!bad, "bad-accepted", "padding with a foreign byte accepted");
                        ensure!(p == n, "wrong-extent", "{p} bytes of padding consumed instead of {n}");
                    }
                    Err((k, _)) => {
                        ensure!(bad, "valid-rejected", "padding {} rejected with {k:?} (expected byte {want:?})", short(&data));
                        ensure!(k == ErrorKind::InvalidInput, "wrong-kind", "a foreign byte in the padding is reported as {k:?}");
                        return Ok(());
                    }
                }
            }
        }
        3 => {
            // Target buffer.
            let mut n = ctx.size(50);
            let blank = ctx.below(4) == 0;
            let mut d = if blank { BytesDecoder::default() } else { BytesDecoder::new(vec![0u8; n]) };
            for i in 0..k {
                if i > 0 || blank {
                    n = ctx.size(50);
                    let fill = ctx.below(256) as u8;
                    if ctx.below(4) == 0 {
                        d.set_bytes(vec![1; ctx.size(50)]);
                    }
                    d.set_bytes(vec![fill; n]);
                    ctx.fault("reconfigured");
                }
                ensure!(d.requiring_bytes() == ByteCount::Finite(n as u64), "config-lost", "{:?} required for a target of {n}", d.requiring_bytes());
                if n > 1 && ctx.below(4) == 0 {
                    // A new target in the middle of an item: the item starts anew.
                    let part = 1 + ctx.below(n - 1);
                    let b = ctx.bytes(part);
                    let r = d.decode(&b, Eos::new(false));
                    ensure!(matches!(r, Ok(m) if m == part), "consumption", "{part} bytes offered to a target of {n} bytes");
                    n = ctx.size(50);
                    d.set_bytes(vec![7u8; n]);
                }
                let data = ctx.bytes(n);
                let mut w = Bytes(&mut d);
                expect_item(ctx, &mut w, &env, &data, &Val::B(data.clone()), self_mode(ctx), "bytes into a new target")?;
                if ctx.below(3) == 0 {
                    // Spent until it gets another target.
                    ctx.fault("spent-decoder");
                    for _ in 0..1 + ctx.below(3) {
                        let k = if ctx.below(2) == 0 {
                            d.decode(&data, Eos::new(ctx.below(2) == 0)).map(|_| ()).map_err(|e| kind_of(&e))
                        } else {
                            d.finish_decoding().map(|_| ()).map_err(|e| kind_of(&e))
                        };
                        ensure!(k == Err(ErrorKind::DecoderTerminated), "spent", "a decoder without a target answers {k:?}");
                    }
                }
            }
        }
        _ => {
            // Length and limit together, on a decoder that runs to the end.
            let mut n = ctx.size(60);
            let lim = 1 + ctx.size(60);
            let mut d = RemainingBytesDecoder::new().max_bytes(lim as u64).length(n as u64);
            let mut lim = lim;
            for _ in 0..k {
                if ctx.below(2) == 0 {
                    if ctx.below(3) == 0 {
                        resize(&mut d, ctx.size(60))?;
                    }
                    n = ctx.size(60);
                    resize(&mut d, n)?;
                    ctx.fault("reconfigured");
                }
                if ctx.below(2) == 0 {
                    lim = near(ctx, n as u64) as usize;
                    if let Err(e) = d.inner_mut().set_max_bytes(lim as u64) {
                        fail!("limit-refused", "limit {lim} refused between items with {:?}", kind_of(&e));
                    }
                    ctx.fault("reconfigured");
                }
                let data = ctx.bytes(n);
                let mut w = Frame(&mut d);
                match one_item(ctx, &mut w, &env, &data, self_mode(ctx))? {
                    Ok((v, p)) => {
                        ensure!(n <= lim, "over-limit", "a frame of {n} bytes passed a limit of {lim}");
                        ensure!(v == Val::B(data) && p == n, "item-wrong", "frame of {n} bytes decoded to {}", short(&v));
                    }
                    Err((k, _)) => {
                        ensure!(n > lim, "valid-rejected", "a frame of {n} bytes fails with {k:?} under a limit of {lim}");
                        return Ok(());
                    }
                }
            }
        }
    }
    Ok(())
}
macro_rules! by_ref {
    ($name:ident, $t:ty, $f:expr) => {
        struct $name<'a>(&'a mut $t);
        impl Decode for $name<'_> {
            type Item = Val;
            fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
                self.0.decode(buf, eos)
            }
            fn finish_decoding(&mut self) -> Result<Val> {
                self.0.finish_decoding().map($f)
            }
            fn requiring_bytes(&self) -> ByteCount {
                self.0.requiring_bytes()
            }
            fn is_idle(&self) -> bool {
                self.0.is_idle()
            }
        }
    };
}
by_ref!(RefMap, bytecodec::combinator::CollectN<PD, Vec<Val>>, Val::L);
by_ref!(Omit, bytecodec::combinator::Omittable<PD>, |o: Option<Val>| Val::O(o.map(Box::new)));
by_ref!(Pad, PaddingDecoder, |()| Val::Unit);
by_ref!(Bytes, BytesDecoder<Vec<u8>>, Val::B);
by_ref!(Frame, Length<MaxBytes<RemainingBytesDecoder>>, Val::B);

pub fn c19(ctx: &Ctx) -> R {
    match ctx.weighted(&[5, 2, 4]) {
        0 => c19_dec(ctx),
        1 => c19_enc(ctx),
        _ => c19_config(ctx),
    }
}

// ---------------------------------------------------------------- C20

fn eos_schema(ctx: &Ctx) -> S {
    for _ in 0..4 {
        let d = ctx.below(3);
        let sc = gen_schema(ctx, GenOpt { big: 60, ..GenOpt::dec(d) });
        if sc.to_eos() && !sc.any(&|s| matches!(s, Sc::Flag(_))) {
            return sc;
        }
    }
    let x = small(ctx);
    Rc::new(match ctx.below(4) {
        0 => Sc::Rest,
        1 => Sc::Utf8,
        2 => Sc::Pad(ctx.below(256) as u8, ctx.below(2) == 1),
        _ if x.min() > 0 => Sc::Coll(x),
        _ => Sc::Rest,
    })
}
fn c20_run(ctx: &Ctx) -> R {
    let sc = eos_schema(ctx);
    ctx.abs(&sc.show());
    ctx.note(|| format!("codec {}", sc.show()));
    let k = if sc.reusable() { 1 + ctx.below(3) } else { 1 };
    let env = Env::new(ctx);
    let mut d = dec(&sc, &env);
    for _ in 0..k {
        let b = big(ctx).min(3000);
        let v = gen_val(ctx, &sc, b);
        let mut data = enc(&sc, &v);
        // A stream that ends where no item can end (or where a shorter one does).
        let mut want = Ok(v.norm());
        if !data.is_empty() && ctx.below(4) == 0 {
            ctx.fault("truncate");
            data.truncate(ctx.below(data.len()));
            want = ref_dec(&sc, &data, 0).map(|(x, _)| x);
        }
        ctx.note(|| format!("stream of {} bytes for {}", data.len(), short(&v)));
        let mut feed = Feed::new(ctx, &data, gen_cut(ctx), announce(ctx, sc.has_maxb()));
        let mut calls = 0;
        loop {
            ensure!(!d.is_idle(), "early-complete", "complete at byte {} before the end of the stream at {}", feed.pos, data.len());
            if ctx.chance(1, 8) {
                // Nothing new, the end not known yet.
                ctx.fault("empty-piece");
                let r = d.decode(&[], Eos::new(false));
                env.check()?;
                ensure!(matches!(r, Ok(0)), "empty-fails", "an empty call in front of the end gives {:?}", r.map_err(|e| kind_of(&e)));
                ensure!(!d.is_idle(), "early-complete", "complete at byte {} of {} without an announced end", feed.pos, data.len());
            }
            let (buf, eos) = feed.next();
            match d.decode(buf, eos) {
                Ok(n) => {
                    env.check()?;
                    ensure!(n == buf.len(), "consumption", "{n} of {} bytes consumed in front of the end", buf.len());
                    feed.took(n);
                    ctx.ev("toend", n as u64, u64::from(d.is_idle()));
                }
                Err(e) => match want {
                    Ok(_) => fail!("valid-rejected", "valid stream rejected with {:?} at byte {}", kind_of(&e), feed.pos),
                    Err(why) => return super::basic::reject_kind(&sc, kind_of(&e), why, "fragment up to the end"),
                },
            }
            if eos.is_reached() {
                ensure!(d.is_idle(), "late-complete", "not complete although the end has been announced");
                break;
            }
            ensure!(!d.is_idle(), "early-complete", "complete at byte {} without an announced end", feed.pos);
            calls += 1;
            ensure!(calls < 100_000, "stall", "no end");
        }
        match (d.finish_decoding(), want) {
            (Ok(x), Ok(w)) => ensure!(x == w, "item-wrong", "{} instead of {}", short(&x), short(&w)),
            (Ok(x), Err(why)) => fail!("bad-accepted", "{} from a fragment ({why:?})", short(&x)),
            (Err(e), Ok(_)) => fail!("valid-rejected", "the item up to the end is refused with {:?}", kind_of(&e)),
            (Err(e), Err(why)) => return super::basic::reject_kind(&sc, kind_of(&e), why, "fragment up to the end"),
        }
        ensure!(feed.left() == 0, "wrong-extent", "{} bytes left", feed.left());
        ctx.count_item();
    }
    Ok(())
}
fn c20_maybe(ctx: &Ctx) -> R {
    let sc = small(ctx);
    let sc: S = if sc.min() == 0 { Rc::new(Sc::Fix(gen_fix(ctx))) } else { sc };
    let k = 1 + ctx.below(5);
    let c = values(ctx, &sc, k, 40);
    c.note(ctx);
    let cut = if ctx.below(2) == 0 && !c.data.is_empty() { ctx.below(c.data.len()) } else { c.data.len() };
    let env = Env::new(ctx);
    let reject = Cell::new(false);
    let mut d = dec(&sc, &env)
        .try_map(|v| if reject.get() { Err(Error::from(ErrorKind::InvalidInput)) } else { Ok(v) })
        .maybe_eos();
    let data = &c.data[..cut];
    let mut feed = Feed::new(ctx, data, gen_cut(ctx), if ctx.below(2) == 0 { EosMode::Late } else { announce(ctx, sc.has_maxb()) });
    let mut got = vec![];
    let mut start = 0;
    let mut ends_seen = 0;
    loop {
        if d.is_idle() {
            for _ in 0..ctx.below(3) {
                // The finished item waits: nothing is read, and no end concerns it.
                ctx.fault("surplus-decode");
                let junk = ctx.bytes(ctx.below(5));
                let eos = match ctx.below(3) {
                    0 => Eos::new(false),
                    1 => Eos::new(true),
                    _ => Eos::with_remaining_bytes(ByteCount::Finite(ctx.below(4) as u64)),
                };
                let r = d.decode(&junk, eos);
                env.check()?;
                ensure!(matches!(r, Ok(0)), "idle-disturbed", "a call with {} bytes on a finished item gives {:?}", junk.len(), r.map_err(|e| kind_of(&e)));
                ensure!(d.is_idle(), "idle-lost", "no longer complete after a surplus call");
            }
            reject.set(ctx.below(4) == 0);
            match d.finish_decoding() {
                Ok(v) => got.push(v),
                Err(e) => {
                    ensure!(reject.get() && kind_of(&e) == ErrorKind::InvalidInput, "valid-rejected", "item refused with {:?}", kind_of(&e));
                    ctx.fault("refused-when-taken");
                    got.push(c.vals[got.len()].norm());
                }
            }
            start = feed.pos;
            if got.len() == k {
                // Only the end can follow.
                ends_seen += 1;
                if ends_seen > 1 {
                    break;
                }
            }
            continue;
        }
        if feed.pos == start && ctx.chance(1, 3) {
            // An end between items (the stream may be replaced by another one afterwards).
            ctx.fault("end-between-items");
            for _ in 0..1 + ctx.below(3) {
                let r = d.decode(&[], Eos::new(true));
                env.check()?;
                ensure!(matches!(r, Ok(0)), "clean-end", "an end between items gives {:?}", r.map_err(|e| kind_of(&e)));
                ensure!(!d.is_idle(), "clean-end", "complete without a byte");
            }
        }
        if feed.pos == cut {
            let clean = start == cut;
            match d.decode(&[], Eos::new(true)) {
                Ok(0) => {
                    env.check()?;
                    ensure!(clean, "eos-missed", "the end inside an item ({} of {} bytes) is not reported", cut - start, c.ends[got.len()] - start);
                    ensure!(!d.is_idle(), "item-from-fragment", "complete without a byte");
                }
                Ok(n) => fail!("overrun", "{n} bytes of nothing"),
                Err(e) => {
                    ensure!(!clean, "clean-end", "an end between items is reported as {:?}", kind_of(&e));
                    ensure!(kind_of(&e) == ErrorKind::UnexpectedEos, "wrong-kind", "the end inside an item is reported as {:?}", kind_of(&e));
                    ctx.fault("truncate");
                }
            }
            break;
        }
        let (buf, eos) = feed.next();
        match d.decode(buf, eos) {
            Ok(n) => {
                env.check()?;
                feed.took(n);
                ctx.ev("maybe", n as u64, u64::from(d.is_idle()));
                let inside = !d.is_idle() && feed.pos > start;
                ensure!(!(inside && eos.is_reached()), "eos-missed", "the end inside an item is not reported");
            }
            Err(e) => {
                env.check()?;
                // Only an announced end inside an item may fail.
                let at = c.ends.iter().copied().find(|&x| x > feed.pos).unwrap_or(cut);
                ensure!(at > cut, "valid-rejected", "item at {start} rejected with {:?}", kind_of(&e));
                ensure!(kind_of(&e) == ErrorKind::UnexpectedEos, "wrong-kind", "the end inside an item is reported as {:?}", kind_of(&e));
                ensure!(eos.is_reached() || eos.remaining_bytes().is_finite(), "early-fail", "failed before the end was announced");
                ctx.fault("truncate");
                break;
            }
        }
    }
    let whole = c.ends.iter().filter(|&&e| e <= cut).count();
    ensure!(got.len() <= whole, "item-from-fragment", "{} items from {whole}", got.len());
    same_items(&got, &c.norm()[..whole], "in front of the end")
}
fn c20_padding(ctx: &Ctx) -> R {
    let byte = ctx.below(256) as u8;
    let n = 1 + ctx.size(300);
    let mut data = vec![byte; n];
    let bad = ctx.below(n);
    let foreign = byte ^ (1 + ctx.below(255) as u8);
    data[bad] = foreign;
    ctx.fault("foreign-byte");
    let strict = ctx.below(4) != 0;
    let mut sc: S = Rc::new(Sc::Pad(byte, strict));
    let head = ctx.below(3);
    let mut full = vec![];
    if head > 0 {
        sc = Rc::new(Sc::Tup(vec![Rc::new(Sc::Arr(head)), sc], false));
        full = ctx.bytes(head);
    }
    full.extend(&data);
    if ctx.below(3) == 0 {
        sc = Rc::new(Sc::Len(full.len() as u64, sc));
    }
    ctx.note(|| format!("{}: {n} bytes of padding {byte}, {foreign} at {bad}", sc.show()));
    let env = Env::new(ctx);
    let mut d = dec(&sc, &env);
    let mut feed = Feed::new(ctx, &full, gen_cut(ctx), announce(ctx, sc.has_maxb()));
    let out = run_decode(ctx, &mut d, &env, &mut feed, 1, &DecOpt::default())?;
    if strict {
        ensure!(out.items.is_empty(), "bad-accepted", "padding with a foreign byte at {bad} of {n} accepted");
        ensure!(out.err == Some(ErrorKind::InvalidInput), "wrong-kind", "a foreign byte in the padding is reported as {:?}", out.err);
    } else {
        ensure!(out.items.len() == 1, "valid-rejected", "padding of any bytes rejected with {:?}", out.err);
    }
    Ok(())
}
/// Items behind a sliced decoder: bytes that are offered but not taken do not begin an item.
fn c20_offered(ctx: &Ctx) -> R {
    let sc = small(ctx);
    let sc: S = if sc.min() == 0 { Rc::new(Sc::Fix(gen_fix(ctx))) } else { sc };
    let k = 1 + ctx.below(3);
    let c = values(ctx, &sc, k, 40);
    c.note(ctx);
    let env = Env::new(ctx);
    let mut d = dec(&sc, &env).slice().maybe_eos();
    let (mut pos, mut start, mut got) = (0, 0, vec![]);
    let mut steps = 0;
    while got.len() < k {
        steps += 1;
        if steps > 3000 {
            break;
        }
        if pos == start && ctx.chance(1, 3) {
            ctx.fault("grant-zero");
            let m = 1 + ctx.below((c.data.len() - pos).min(9));
            d.inner_mut().set_consumable_bytes(0);
            let r = d.decode(&c.data[pos..pos + m], Eos::new(false));
            env.check()?;
            ensure!(matches!(r, Ok(0)), "consumption", "without a grant, an offer gives {:?}", r.map_err(|e| kind_of(&e)));
            if ctx.below(2) == 0 {
                ctx.fault("end-between-items");
                let r = d.decode(&[], Eos::new(true));
                env.check()?;
                ensure!(matches!(r, Ok(0)), "clean-end", "an end behind bytes that have not been taken gives {:?}", r.map_err(|e| kind_of(&e)));
                ensure!(!d.is_idle(), "clean-end", "complete without a byte");
            }
            continue;
        }
        let end = c.ends[got.len()];
        let m = 1 + ctx.below(c.data.len() - pos);
        let grant = ctx.below(m + 1);
        d.inner_mut().set_consumable_bytes(grant as u64);
        match d.decode(&c.data[pos..pos + m], Eos::new(false)) {
            Ok(n) => {
                env.check()?;
                ensure!(n <= grant, "consumption", "{n} bytes consumed with a grant of {grant}");
                pos += n;
                ensure!(pos <= end, "consumption", "{pos} bytes consumed by an item that ends at {end}");
                ctx.ev("offered", m as u64, n as u64);
            }
            Err(e) => fail!("valid-rejected", "item at {start} rejected with {:?}", kind_of(&e)),
        }
        if d.is_idle() {
            match d.finish_decoding() {
                Ok(v) => got.push(v),
                Err(e) => fail!("valid-rejected", "item refused with {:?}", kind_of(&e)),
            }
            start = pos;
        } else if pos > start && ctx.chance(1, 12) {
            ctx.fault("truncate");
            d.inner_mut().set_consumable_bytes(ctx.below(3) as u64);
            match d.decode(&[], Eos::new(true)) {
                Ok(_) => fail!("eos-missed", "the end inside an item ({} of {} bytes) is not reported", pos - start, end - start),
                Err(e) => ensure!(kind_of(&e) == ErrorKind::UnexpectedEos, "wrong-kind", "the end inside an item is reported as {:?}", kind_of(&e)),
            }
            break;
        }
    }
    let n = got.len();
    same_items(&got, &c.norm()[..n], "in front of the end")
}
pub fn c20(ctx: &Ctx) -> R {
    match ctx.weighted(&[12, 8, 4, 3]) {
        0 => c20_run(ctx),
        1 => c20_maybe(ctx),
        3 => c20_offered(ctx),
        _ => c20_padding(ctx),
    }
}

// ---------------------------------------------------------------- C21

pub fn c21(ctx: &Ctx) -> R {
    let d = ctx.below(3);
    let b = [40, 40, 400, 3000][ctx.below(4)];
    let k = 1 + ctx.below(4);
    let sc = gen_schema(ctx, GenOpt { reusable: k > 1, big: b, ..GenOpt::dec(d) });
    let k = if sc.reusable() { k } else { 1 };
    let c = values(ctx, &sc, k, b);
    c.note(ctx);
    let env = Env::new(ctx);
    // The items go through a function that refuses some of them.
    let refuse = std::rc::Rc::new(std::cell::Cell::new(false));
    let selective = ctx.below(3) == 0;
    let mut d = if selective {
        let r = refuse.clone();
        probe_dec(dec(&sc, &env).try_map(move |v| if r.get() { Err(invalid("refused")) } else { Ok(v) }), false, &env, "try_map").peekable()
    } else {
        dec(&sc, &env).peekable()
    };
    let mut from = 0;
    'items: for i in 0..k {
        refuse.set(selective && ctx.below(3) == 0);
        let item = &c.data[from..c.ends[i]];
        from = c.ends[i];
        // Surplus bytes may follow in the same piece.
        let mut stream = item.to_vec();
        let mut mode = gen_eos(ctx, c.self_delim, sc.has_maxb());
        if c.self_delim && !sc.has_maxb() && ctx.below(2) == 0 {
            let n = 1 + ctx.below(9);
            stream.extend(ctx.bytes(n));
        } else if mode == EosMode::Infinite && !c.self_delim {
            mode = EosMode::Late;
        }
        let mut feed = Feed::new(ctx, &stream, gen_cut(ctx), mode);
        let mut stall = 0;
        while !d.is_idle() {
            if ctx.chance(1, 3) {
                ctx.fault("peek-early");
                ensure!(d.peek().is_none(), "peek-early", "an item is seen before it is complete");
                ensure!(d.peek_mut().is_none(), "peek-early", "a mutable item is seen before it is complete");
            }
            if ctx.chance(1, 8) {
                match d.finish_decoding() {
                    Ok(v) => fail!("early-item", "an item before completion: {}", short(&v)),
                    Err(e) => ensure!(kind_of(&e) == ErrorKind::IncompleteDecoding, "early-kind", "too early a request fails with {:?}", kind_of(&e)),
                }
            }
            let (buf, eos) = feed.next();
            let r = d.decode(buf, eos);
            env.check()?;
            match r {
                Ok(n) => {
                    feed.took(n);
                    ctx.ev("peekable", n as u64, u64::from(d.is_idle()));
                    stall = if n == 0 { stall + 1 } else { 0 };
                    ensure!(stall < 60, "stall", "no progress at {} of {}", feed.pos, item.len());
                }
                Err(e) if refuse.get() && feed.window_end() >= item.len() => {
                    ctx.fault("item-refused");
                    ensure!(kind_of(&e) == ErrorKind::InvalidInput, "refused-kind", "the refusal arrives as {:?}", kind_of(&e));
                    ensure!(d.peek().is_none() && d.peek_mut().is_none(), "peek-refused", "a refused item is seen");
                    ensure!(!d.is_idle(), "idle-refused", "complete although the item was refused");
                    continue 'items;
                }
                Err(e) => fail!("valid-rejected", "valid stream rejected with {:?}", kind_of(&e)),
            }
        }
        ensure!(!refuse.get(), "refusal-lost", "a refused item is said to be complete");
        ensure!(feed.pos == item.len(), "wrong-extent", "{} bytes consumed instead of {}", feed.pos, item.len());
        let mut want = c.vals[i].norm();
        for _ in 0..ctx.below(6) {
            match ctx.below(5) {
                0 | 1 => {
                    ctx.fault("peek");
                    match d.peek() {
                        None => fail!("peek-nothing", "nothing is seen although the item is complete"),
                        Some(v) => ensure!(*v == want, "peek-wrong", "seen {} instead of {}", short(v), short(&want)),
                    }
                }
                2 => {
                    ctx.fault("peek-mut");
                    match d.peek_mut() {
                        None => fail!("peek-nothing", "nothing is seen although the item is complete"),
                        Some(v) => {
                            ensure!(*v == want, "peek-wrong", "seen {} instead of {}", short(v), short(&want));
                            if ctx.below(2) == 0 {
                                let old = std::mem::replace(v, Val::Unit);
                                *v = Val::Tag(Box::new(old));
                                want = Val::Tag(Box::new(want));
                            }
                        }
                    }
                }
                _ => {
                    ctx.fault("surplus-decode");
                    let n = ctx.below(5);
                    let junk = ctx.bytes(n);
                    let eos = [Eos::new(false), Eos::new(true), Eos::with_remaining_bytes(ByteCount::Finite(3))][ctx.below(3)];
                    match d.decode(&junk, eos) {
                        Ok(0) => {}
                        Ok(m) => fail!("idle-consumes", "{m} bytes consumed while the item waits"),
                        Err(e) => fail!("idle-fails", "decode fails with {:?} while the item waits", kind_of(&e)),
                    }
                    env.check()?;
                    ensure!(d.is_idle(), "idle-lost", "no longer complete after a surplus call");
                }
            }
        }
        match d.finish_decoding() {
            Ok(v) => ensure!(v == want, "item-wrong", "taken {} instead of {}", short(&v), short(&want)),
            Err(e) => fail!("valid-rejected", "the complete item is refused with {:?}", kind_of(&e)),
        }
        ensure!(d.peek().is_none() && d.peek_mut().is_none(), "peek-stale", "an item is still seen after it was taken");
        ctx.count_item();
    }
    Ok(())
}
