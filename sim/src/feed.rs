//! Schedules: how streams are cut into calls and how the end of the stream is announced.
use crate::codecs::*;
use crate::core::{kind_of, short, Ctx, R};
use crate::schema::*;
use crate::{ensure, fail};
use bytecodec::{ByteCount, Decode, Encode, Eos, ErrorKind};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cut {
    Whole,
    Fixed(usize),
    Random(usize),
    Mixed,
}
/// Sizes that transports and files are read in.
const BLOCKS: [usize; 10] = [100, 256, 512, 1000, 1024, 4096, 8192, 16_384, 65_535, 65_536];
pub fn gen_cut(ctx: &Ctx) -> Cut {
    match ctx.weighted(&[6, 12, 6, 10, 10, 1]) {
        5 => Cut::Fixed(BLOCKS[ctx.below(BLOCKS.len())]),
        0 => Cut::Whole,
        1 => Cut::Fixed(1),
        2 => Cut::Fixed(2 + ctx.below(40)),
        3 => Cut::Random(1 + ctx.size(64)),
        _ => Cut::Mixed,
    }
}
/// A long stream now and then moves in blocks that it fills at least once.
fn block_cut(ctx: &Ctx, len: usize, cut: Cut) -> Cut {
    if len >= BLOCKS[0] && ctx.chance(1, 8) {
        let n = BLOCKS.iter().filter(|&&b| b <= len).count();
        Cut::Fixed(BLOCKS[n - 1 - ctx.below(n)])
    } else {
        cut
    }
}
impl Cut {
    pub fn next(self, ctx: &Ctx, left: usize, empties: u64) -> usize {
        if empties > 0 && ctx.draw(16) >= 16 - empties {
            ctx.fault("empty-piece");
            return 0;
        }
        let n = match self {
            Cut::Whole => left,
            Cut::Fixed(k) => k,
            Cut::Random(k) => 1 + ctx.below(k),
            Cut::Mixed => match ctx.below(4) {
                0 => 1,
                1 => 1 + ctx.below(8),
                2 => 1 + ctx.size(2000),
                _ => left,
            },
        };
        let n = ctx.piece(n.min(left), left);
        if n < left {
            ctx.fault("partial-piece");
        }
        n
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum EosMode {
    /// unknown until an empty call at the end
    Late,
    /// together with the last bytes
    WithLast,
    /// always the exact distance
    Finite,
    /// a different announcement at each call
    Mixed,
    /// never announced: the stream goes on (self-delimited items only)
    Never,
    /// announced as infinite (self-delimited items only)
    Infinite,
    /// announced exactly, but further away than anything (self-delimited items only)
    Huge,
    /// announced as infinite until an empty call at the end (a connection that is closed at last)
    Endless,
}
pub fn gen_eos(ctx: &Ctx, self_delimited: bool, maxb: bool) -> EosMode {
    if !self_delimited && !maxb && ctx.chance(1, 6) {
        return EosMode::Endless;
    }
    let k = if self_delimited { if maxb { 5 } else { 7 } } else { 4 };
    [EosMode::Late, EosMode::WithLast, EosMode::Finite, EosMode::Mixed, EosMode::Never, EosMode::Infinite, EosMode::Huge][ctx.below(k)]
}

/// A way to announce an end that comes for sure.
pub fn announce(ctx: &Ctx, maxb: bool) -> EosMode {
    let k = if maxb { 4 } else { 5 };
    [EosMode::Late, EosMode::WithLast, EosMode::Finite, EosMode::Mixed, EosMode::Endless][ctx.below(k)]
}

/// The input side of a schedule: offers windows of `data` to a decoder.
pub struct Feed<'a> {
    ctx: Ctx,
    data: &'a [u8],
    pub pos: usize,
    end: usize,
    cut: Cut,
    pub mode: EosMode,
    empties: u64,
    /// the end has been announced
    pub told: bool,
    fresh: bool,
    idle_empties: u32,
}
impl<'a> Feed<'a> {
    pub fn new(ctx: &Ctx, data: &'a [u8], cut: Cut, mode: EosMode) -> Self {
        let empties = [0, 0, 1, 4][ctx.below(4)];
        let cut = block_cut(ctx, data.len(), cut);
        Feed { ctx: ctx.clone(), data, pos: 0, end: 0, cut, mode, empties, told: false, fresh: true, idle_empties: 0 }
    }
    /// Sets the mode without drawing.
    pub fn left(&self) -> usize {
        self.data.len() - self.pos
    }
    /// The next window and announcement. Call `took` afterwards.
    pub fn next(&mut self) -> (&'a [u8], Eos) {
        let total = self.data.len();
        if self.pos == self.end || self.ctx.chance(1, 8) {
            // A new piece arrives (possibly behind an unconsumed rest).
            let n = self.cut.next(&self.ctx, total - self.end, self.empties);
            self.end += n;
        }
        self.fresh = false;
        let rest = total - self.end;
        let eos = match self.mode {
            EosMode::Never => Eos::new(false),
            EosMode::Infinite => Eos::with_remaining_bytes(ByteCount::Infinite),
            EosMode::Huge => Eos::with_remaining_bytes(ByteCount::Finite(u64::MAX - self.end as u64)),
            EosMode::Finite => Eos::with_remaining_bytes(ByteCount::Finite(rest as u64)),
            EosMode::WithLast => Eos::new(rest == 0),
            EosMode::Endless => {
                if self.pos == total {
                    self.late()
                } else {
                    Eos::with_remaining_bytes(ByteCount::Infinite)
                }
            }
            EosMode::Late => {
                if self.pos == total {
                    self.late()
                } else {
                    Eos::new(false)
                }
            }
            EosMode::Mixed => {
                if rest > 0 {
                    if self.ctx.below(2) == 0 {
                        Eos::new(false)
                    } else {
                        Eos::with_remaining_bytes(ByteCount::Finite(rest as u64))
                    }
                } else if self.pos == total {
                    self.late()
                } else {
                    Eos::new(self.ctx.below(2) == 1)
                }
            }
        };
        if eos.is_reached() {
            self.told = true;
        }
        let code = match eos.remaining_bytes() {
            ByteCount::Finite(n) => n,
            ByteCount::Infinite => u64::MAX,
            ByteCount::Unknown => u64::MAX - 1,
        };
        self.ctx.ev("feed", (self.end - self.pos) as u64, code);
        (&self.data[self.pos..self.end], eos)
    }
    fn late(&mut self) -> Eos {
        if self.told {
            return Eos::new(true);
        }
        // Before the end is announced there may be some empty calls that do not know it yet.
        self.idle_empties += 1;
        let wait = self.idle_empties <= 3 && self.ctx.chance(1, 4);
        Eos::new(!wait)
    }
    pub fn took(&mut self, n: usize) {
        self.pos += n;
        self.ctx.count_bytes(n);
    }
    pub fn window_end(&self) -> usize {
        self.end
    }
}

/// Result of decoding a stream.
#[derive(Debug, Clone, PartialEq)]
pub struct Outcome {
    pub items: Vec<Val>,
    /// stream position after each item
    pub ends: Vec<usize>,
    pub err: Option<ErrorKind>,
    /// the failing call was given the end of the stream
    pub err_at_eos: bool,
}

fn count_check(dec: &PD, left: usize) -> R {
    let idle = dec.is_idle();
    match dec.requiring_bytes() {
        ByteCount::Finite(0) => ensure!(left == 0, "count-zero", "0 bytes required, but {left} bytes of the item are missing"),
        ByteCount::Finite(n) => {
            ensure!(!idle, "count-idle", "idle decoder requires {n} bytes");
            ensure!(n <= left as u64, "count-too-high", "{n} bytes required, but the item needs only {left} more");
        }
        c => ensure!(!idle, "count-idle", "idle decoder requires {c:?}"),
    }
    Ok(())
}

#[derive(Default, Clone)]
pub struct DecOpt {
    /// probability (of 16) of a premature `finish_decoding` before a call
    pub early_finish: u64,
    /// surplus decode calls while an item waits (with the bytes that follow)
    pub surplus: bool,
    /// expected item ends, to check exact consumption after each call
    pub ends: Option<Vec<usize>>,
    /// no bytes beyond the expected end are offered (needed below an open byte limit)
    pub clip: bool,
    /// a call that announces the end must complete the item or fail
    pub strict_eos: bool,
    /// compare advertised counts with the expected ends before each call
    pub counts: bool,
    /// an item with bytes is complete as soon as its last byte has been consumed
    pub prompt: bool,
    /// a call may stop before the end of the item (the decoder works under a limited grant)
    pub partial: bool,
}

/// Decodes up to `k` items from a feed. Contract breaches become violations, codec errors an outcome.
pub fn run_decode(ctx: &Ctx, dec: &mut PD, env: &Env, feed: &mut Feed, k: usize, o: &DecOpt) -> R<Outcome> {
    let mut out = Outcome { items: vec![], ends: vec![], err: None, err_at_eos: false };
    let mut stall = 0;
    while out.items.len() < k {
        let idx = out.items.len();
        let start = out.ends.last().copied().unwrap_or(0);
        if o.early_finish > 0 && !dec.is_idle() {
            let mut tries = 0;
            while ctx.draw(16) >= 16 - o.early_finish && tries < 3 {
                tries += 1;
                ctx.fault("early-finish");
                match dec.finish_decoding() {
                    Ok(v) => fail!("early-item", "finish_decoding before completion returned {}", short(&v)),
                    Err(e) => ensure!(
                        kind_of(&e) == ErrorKind::IncompleteDecoding,
                        "early-kind",
                        "finish_decoding before completion failed with {:?} instead of IncompleteDecoding",
                        kind_of(&e)
                    ),
                }
                ensure!(!dec.is_idle(), "early-idle", "idle after a premature finish_decoding");
            }
        }
        if !dec.is_idle() {
            let pos = feed.pos;
            let (mut buf, mut eos) = feed.next();
            if o.clip {
                let end = o.ends.as_ref().expect("harness: clip")[idx];
                if pos + buf.len() > end {
                    buf = &buf[..end - pos];
                    eos = Eos::new(false);
                }
            }
            if o.counts {
                if let Some(ref ends) = o.ends {
                    count_check(dec, ends[idx] - pos)?;
                }
            }
            let n = match dec.decode(buf, eos) {
                Ok(n) => n,
                Err(e) => {
                    env.check()?;
                    out.err_at_eos = eos.is_reached();
                    ctx.ev("decode-err", kind_of(&e) as u64, 0);
                    out.err = Some(kind_of(&e));
                    return Ok(out);
                }
            };
            env.check()?;
            ensure!(n <= buf.len(), "overrun", "decode consumed {n} of {} bytes", buf.len());
            feed.took(n);
            ctx.ev("decode", n as u64, u64::from(dec.is_idle()));
            if o.strict_eos && eos.is_reached() && !dec.is_idle() {
                fail!("eos-missed", "the end was announced (with {} bytes, {n} consumed) inside item {idx}, and decode reported success", buf.len());
            }
            if o.counts {
                if let Some(ref ends) = o.ends {
                    count_check(dec, ends[idx].saturating_sub(pos + n))?;
                }
            }
            if let Some(ref ends) = o.ends {
                // Exact consumption on valid streams.
                let end = ends[idx];
                let want = buf.len().min(end - pos);
                ensure!(
                    n == want || o.partial && n < want,
                    "consumption",
                    "item {idx} spans bytes {start}..{end}; offered {}..{} the decoder consumed {n} bytes instead of {want}",
                    pos,
                    pos + buf.len()
                );
            }
            if o.prompt && n > 0 && o.ends.as_ref().is_some_and(|e| e[idx] == pos + n) {
                ensure!(dec.is_idle(), "late-idle", "not idle although the last byte of item {idx} has been consumed");
            }
            if n == 0 && !dec.is_idle() {
                stall += 1;
                let dead = feed.told && feed.pos == feed.window_end() && feed.left() == 0;
                if stall > 40 || (dead && stall > 8) {
                    fail!("stall", "no progress at byte {} of item {idx} (end announced: {}, {} bytes offered)", feed.pos, feed.told, buf.len());
                }
            } else {
                stall = 0;
            }
        }
        if dec.is_idle() {
            if o.surplus {
                surplus(ctx, dec, env, feed, o)?;
            }
            match dec.finish_decoding() {
                Ok(v) => {
                    ctx.count_item();
                    ctx.ev("item", feed.pos as u64, 0);
                    out.items.push(v);
                    out.ends.push(feed.pos);
                }
                Err(e) => {
                    env.check()?;
                    ctx.ev("finish-err", kind_of(&e) as u64, 0);
                    out.err = Some(kind_of(&e));
                    return Ok(out);
                }
            }
            env.check()?;
        }
    }
    Ok(out)
}

fn surplus(ctx: &Ctx, dec: &mut PD, env: &Env, feed: &mut Feed, o: &DecOpt) -> R {
    for _ in 0..ctx.below(3) {
        ctx.fault("surplus-decode");
        let junk;
        let (buf, eos): (&[u8], Eos) = match ctx.below(3) {
            0 => (&[], Eos::new(ctx.below(2) == 1)),
            1 if !o.clip => {
                junk = ctx.bytes(1 + ctx.below(9));
                (&junk, if feed.told { Eos::new(true) } else { Eos::new(ctx.below(2) == 1) })
            }
            _ => (&[], Eos::with_remaining_bytes(ByteCount::Finite(ctx.below(4) as u64))),
        };
        match dec.decode(buf, eos) {
            Ok(0) => {}
            Ok(n) => fail!("idle-consumes", "decode consumed {n} bytes while the finished item waits"),
            Err(e) => fail!("idle-fails", "decode failed with {:?} while the finished item waits", kind_of(&e)),
        }
        env.check()?;
        ensure!(dec.is_idle(), "idle-lost", "no longer idle after a surplus decode call");
    }
    Ok(())
}

/// Reference outcome: at most `k` items of `sc` from `data`.
pub fn ref_outcome(sc: &Sc, data: &[u8], k: usize) -> (Vec<Val>, Vec<usize>, Option<De>) {
    let mut items = vec![];
    let mut ends = vec![];
    let mut pos = 0;
    for _ in 0..k {
        match ref_dec(sc, data, pos) {
            Ok((v, p)) => {
                items.push(v);
                ends.push(p);
                pos = p;
            }
            Err(e) => return (items, ends, Some(e)),
        }
    }
    (items, ends, None)
}

/// Output schedule.
pub struct Drain {
    ctx: Ctx,
    cut: Cut,
    empties: u64,
    pub out: Vec<u8>,
    /// capacity of the output stream, if it ends
    pub cap: Option<usize>,
    mode: EosMode,
    pub told: bool,
    /// a finite distance to the end has been given
    pub announced: bool,
    idle_empties: u32,
    /// the cut is decided
    fixed: bool,
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct EncRes {
    pub n: usize,
    pub offered: usize,
    pub last: bool,
    pub err: Option<ErrorKind>,
}
impl Drain {
    pub fn new(ctx: &Ctx, cap: Option<usize>) -> Self {
        let empties = [0, 0, 1, 4][ctx.below(4)];
        let mode = match cap {
            None => [EosMode::Never, EosMode::Never, EosMode::Infinite, EosMode::Huge][ctx.below(4)],
            Some(_) => [EosMode::WithLast, EosMode::Finite, EosMode::Mixed, EosMode::Late][ctx.below(4)],
        };
        Drain { ctx: ctx.clone(), cut: gen_cut(ctx), empties, out: vec![], cap, mode, told: false, announced: false, idle_empties: 0, fixed: false }
    }
    pub fn fixed_cut(&mut self, c: Cut) {
        self.fixed = true;
        self.cut = c;
    }
    /// One encode call. `hint` is the number of bytes still expected (used for the size of whole buffers).
    pub fn step<E: Encode + ?Sized>(&mut self, enc: &mut E, hint: usize) -> R<EncRes> {
        let left = match self.cap {
            Some(c) => c - self.out.len(),
            None => match self.ctx.below(3) {
                0 => hint,
                1 => hint + self.ctx.below(5),
                _ => hint + 40,
            },
        };
        if self.out.is_empty() && !self.fixed {
            self.fixed = true;
            self.cut = block_cut(&self.ctx, hint, self.cut);
        }
        let n = self.cut.next(&self.ctx, left, self.empties);
        let rest = left - n;
        let eos = match (self.cap, self.mode) {
            (None, EosMode::Infinite) => Eos::with_remaining_bytes(ByteCount::Infinite),
            (None, EosMode::Huge) => Eos::with_remaining_bytes(ByteCount::Finite(u64::MAX - (self.out.len() + n) as u64)),
            (None, _) => Eos::new(false),
            (Some(_), EosMode::Finite) => Eos::with_remaining_bytes(ByteCount::Finite(rest as u64)),
            (Some(_), EosMode::WithLast) => Eos::new(rest == 0),
            (Some(_), m) => {
                if rest > 0 {
                    if m == EosMode::Mixed && self.ctx.below(2) == 1 {
                        Eos::with_remaining_bytes(ByteCount::Finite(rest as u64))
                    } else {
                        Eos::new(false)
                    }
                } else if n > 0 {
                    Eos::new(m == EosMode::Mixed && self.ctx.below(2) == 1)
                } else {
                    self.idle_empties += 1;
                    Eos::new(self.told || !(self.idle_empties <= 3 && self.ctx.chance(1, 4)))
                }
            }
        };
        let last = eos.is_reached();
        self.told |= last;
        self.announced |= eos.remaining_bytes().is_finite();
        // Whatever was in the buffer before must not matter.
        let fill = self.ctx.draw(256) as u8;
        let mut buf = vec![fill; n];
        let code = match eos.remaining_bytes() {
            ByteCount::Finite(n) => n,
            ByteCount::Infinite => u64::MAX,
            ByteCount::Unknown => u64::MAX - 1,
        };
        self.ctx.ev("offer", n as u64, code);
        match enc.encode(&mut buf, eos) {
            Ok(m) => {
                ensure!(m <= n, "overrun", "encode claims {m} bytes written to a buffer of {n}");
                ensure!(buf[m..].iter().all(|&b| b == fill), "beyond-count", "encode returned {m} but wrote behind that in a buffer of {n}");
                self.ctx.ev("encode", m as u64, u64::from(enc.is_idle()));
                self.ctx.count_bytes(m);
                self.out.extend_from_slice(&buf[..m]);
                Ok(EncRes { n: m, offered: n, last, err: None })
            }
            Err(e) => {
                self.ctx.ev("encode-err", kind_of(&e) as u64, 0);
                Ok(EncRes { n: 0, offered: n, last, err: Some(kind_of(&e)) })
            }
        }
    }
}

/// Encodes `item` completely; the bytes are appended to `drain.out`.
pub fn run_encode(ctx: &Ctx, enc: &mut PE, env: &Env, drain: &mut Drain, want: &[u8]) -> R {
    let base = drain.out.len();
    let mut stall = 0;
    while !enc.is_idle() {
        let done = drain.out.len() - base;
        let r = drain.step(enc, want.len().saturating_sub(done))?;
        env.check()?;
        if let Some(k) = r.err {
            fail!("encode-fails", "encode failed with {k:?} after {} of {} bytes", drain.out.len() - base, want.len());
        }
        let got = &drain.out[base..];
        ensure!(
            got.len() <= want.len() && got[got.len() - r.n..] == want[done..done + r.n],
            "wrong-bytes",
            "bytes {}.. are {}, expected {} (item of {} bytes)",
            done,
            short(&&got[done..]),
            short(&&want[done.min(want.len())..(done + r.n).min(want.len())]),
            want.len()
        );
        if r.n == 0 && !enc.is_idle() {
            stall += 1;
            ensure!(stall < 60 || r.offered == 0 && stall < 500, "stall", "encoder makes no progress after {} of {} bytes", got.len(), want.len());
        } else {
            stall = 0;
        }
    }
    let _ = ctx;
    let got = drain.out.len() - base;
    ensure!(got == want.len(), "wrong-bytes", "encoder went idle after {got} of {} bytes", want.len());
    Ok(())
}
