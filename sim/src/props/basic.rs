//! C01, C02, C04-C10: the core contract of decoders and encoders, over random compositions and schedules.
use crate::codecs::*;
use crate::core::{kind_of, short, Ctx, R};
use crate::feed::*;
use crate::schema::*;
use crate::simio::*;
use crate::{ensure, fail};
use bytecodec::io::{IoDecodeExt, IoEncodeExt, ReadBuf, WriteBuf};
use bytecodec::padding::PaddingEncoder;
use bytecodec::tuple::TupleEncoder;
use bytecodec::{Decode, Encode, EncodeExt, ErrorKind, SizedEncode};
use std::rc::Rc;

/// A schema with values and the stream of their encodings.
pub struct Case {
    pub sc: S,
    pub vals: Vec<Val>,
    pub data: Vec<u8>,
    pub ends: Vec<usize>,
    pub self_delim: bool,
}
impl Case {
    pub fn norm(&self) -> Vec<Val> {
        self.vals.iter().map(Val::norm).collect()
    }
    pub fn note(&self, ctx: &Ctx) {
        ctx.abs(&self.sc.show());
        ctx.note(|| format!("codec {}", self.sc.show()));
        ctx.note(|| format!("items {}", short(&self.vals)));
        ctx.note(|| format!("stream {} bytes, item ends {:?}", self.data.len(), self.ends));
    }
}
pub fn values(ctx: &Ctx, sc: &S, k: usize, big: usize) -> Case {
    let vals: Vec<Val> = (0..k).map(|_| gen_val(ctx, sc, big)).collect();
    let mut data = vec![];
    let mut ends = vec![];
    for v in &vals {
        ref_enc(sc, v, &mut data);
        ends.push(data.len());
    }
    Case { sc: sc.clone(), vals, data, ends, self_delim: !sc.to_eos() }
}
pub fn depth(ctx: &Ctx) -> usize {
    [1, 2, 2, 3, 3, 4, 0][ctx.below(7)]
}
fn items(ctx: &Ctx, sc: &Sc, big: usize) -> usize {
    if big <= 40 && sc.nodes() <= 3 && sc.min() <= 12 {
        ctx.count(100, |ctx| 1 + ctx.below(4))
    } else {
        1 + ctx.below(4)
    }
}
pub fn big(ctx: &Ctx) -> usize {
    [40, 40, 400, 400, 3000, 80_000, 1_100_000][ctx.weighted(&[80, 80, 60, 60, 30, 10, 1])]
}
/// In runs about codecs written by hand, `sc` is one part of a sequence.
fn in_sequence(ctx: &Ctx, sc: S, o: GenOpt) -> S {
    if !ctx.by_hand() {
        return sc;
    }
    let n = 1 + ctx.below(4);
    let mut v: Vec<S> = vec![];
    for _ in 0..n {
        let x = gen_schema(ctx, GenOpt { to_eos: false, reusable: true, pad_ok: false, maxb: false, big: 12, ..o });
        v.push(if x.to_eos() { Rc::new(Sc::Fix(gen_fix(ctx))) } else { x });
    }
    let at = if sc.to_eos() { n } else { ctx.below(n + 1) };
    v.insert(at, sc);
    Rc::new(Sc::Tup(v, false))
}
/// A valid stream for a random decoder.
pub fn dec_case(ctx: &Ctx) -> Case {
    let d = depth(ctx);
    let b = big(ctx);
    let sc = in_sequence(ctx, gen_schema(ctx, GenOpt { big: b, ..GenOpt::dec(d) }), GenOpt::dec(1));
    let k = if sc.to_eos() || !sc.reusable() { 1 } else { items(ctx, &sc, b) };
    let c = values(ctx, &sc, k, b);
    c.note(ctx);
    c
}
/// A sequence of items for a random encoder.
pub fn enc_case(ctx: &Ctx) -> Case {
    let d = depth(ctx);
    let b = big(ctx);
    let sc = in_sequence(ctx, gen_schema(ctx, GenOpt { big: b, ..GenOpt::enc(d) }), GenOpt::enc(1));
    let k = items(ctx, &sc, b);
    let c = values(ctx, &sc, k, b);
    c.note(ctx);
    c
}

pub fn same_items(got: &[Val], want: &[Val], what: &str) -> R {
    for (i, w) in want.iter().enumerate() {
        match got.get(i) {
            None => fail!("item-missing", "{what}: item {i} is missing, expected {}", short(w)),
            Some(g) if g != w => fail!("item-wrong", "{what}: item {i} is {}, expected {}", short(g), short(w)),
            _ => {}
        }
    }
    ensure!(got.len() == want.len(), "item-extra", "{what}: {} items instead of {}", got.len(), want.len());
    Ok(())
}

pub fn mutate(ctx: &Ctx, data: &mut Vec<u8>) {
    for _ in 0..1 + ctx.below(3) {
        let n = data.len();
        match ctx.below(7) {
            0 if n > 0 => {
                let i = ctx.below(n);
                data[i] ^= 1 << ctx.below(8);
                ctx.fault("flip");
            }
            1 if n > 0 => {
                let i = ctx.below(n);
                data[i] = [0, 1, 0xff, 0x7f, 0x80, REJECT][ctx.below(6)];
                ctx.fault("overwrite");
            }
            2 if n > 0 => {
                data.truncate(ctx.below(n));
                ctx.fault("truncate");
            }
            3 => {
                let i = ctx.below(n + 1);
                let m = 1 + ctx.below(4);
                let b = ctx.bytes(m);
                data.splice(i..i, b);
                ctx.fault("insert");
            }
            4 if n > 0 => {
                let i = ctx.below(n);
                let m = 1 + ctx.below(4.min(n - i));
                data.drain(i..i + m);
                ctx.fault("delete");
            }
            5 if n > 1 => {
                let i = ctx.below(n);
                let m = ctx.below(n - i + 1).min(40);
                let b = data[i..i + m].to_vec();
                let j = ctx.below(n);
                data.splice(j..j, b);
                ctx.fault("duplicate");
            }
            _ => {
                let m = 1 + ctx.below(8);
                data.extend(ctx.bytes(m));
                ctx.fault("append");
            }
        }
    }
}

/// Decodes the stream through a `ReadBuf` filled from a faulty reader.
fn run_read_buf(ctx: &Ctx, dec: &mut PD, env: &Env, data: &[u8], k: usize) -> R<Outcome> {
    let cap = (1 + ctx.size(300)).max(data.len() / 1000);
    let p = Profile::swarm(ctx);
    let mut r = SimReader::new(ctx, data.to_vec(), p);
    let mut buf = ReadBuf::new(vec![0u8; cap]);
    let mut out = Outcome { items: vec![], ends: vec![], err: None, err_at_eos: false };
    let mut stall = 0;
    while out.items.len() < k {
        let before = (r.pos, buf.len());
        let _ = buf.fill(&mut r);
        if !dec.is_idle() {
            if let Err(e) = dec.decode_from_read_buf(&mut buf) {
                env.check()?;
                out.err = Some(kind_of(&e));
                return Ok(out);
            }
            env.check()?;
        }
        let mut took = false;
        if dec.is_idle() {
            match dec.finish_decoding() {
                Ok(v) => {
                    out.items.push(v);
                    out.ends.push(r.pos - buf.len());
                    took = true;
                }
                Err(e) => {
                    out.err = Some(kind_of(&e));
                    return Ok(out);
                }
            }
        }
        if before == (r.pos, buf.len()) && !took {
            stall += 1;
            ensure!(stall < 400, "stall", "no progress through a read buffer of {cap} bytes at byte {}", r.pos - buf.len());
        } else {
            stall = 0;
        }
    }
    Ok(out)
}

fn decode_by(ctx: &Ctx, c: &Case, data: &[u8], k: usize, o: &DecOpt, self_delim: bool, maxb: bool) -> R<Outcome> {
    let env = Env::new(ctx);
    let mut d = dec(&c.sc, &env);
    if ctx.chance(1, 8) {
        ctx.probe("through-read-buf");
        return run_read_buf(ctx, &mut d, &env, data, k);
    }
    if o.ends.is_none() && !o.strict_eos && ctx.chance(1, 8) {
        d = probe_dec(Granted::new(bytecodec::DecodeExt::slice(d), &env), c.sc.to_eos(), &env, "slice");
    }
    let cut = gen_cut(ctx);
    let mode = gen_eos(ctx, self_delim, maxb);
    let mut feed = Feed::new(ctx, data, cut, mode);
    run_decode(ctx, &mut d, &env, &mut feed, k, o)
}

pub fn c01(ctx: &Ctx) -> R {
    let c = dec_case(ctx);
    let k = c.vals.len();
    if ctx.below(3) < 2 {
        // A valid stream, under several schedules.
        let mut data = c.data.clone();
        if c.self_delim && ctx.below(2) == 1 {
            let n = 1 + ctx.below(20);
            data.extend(ctx.bytes(n));
        }
        for _ in 0..2 {
            let o = decode_by(ctx, &c, &data, k, &DecOpt::default(), c.self_delim, c.sc.has_maxb())?;
            if let Some(e) = o.err {
                fail!("valid-rejected", "valid stream rejected with {e:?} in item {}", o.items.len());
            }
            same_items(&o.items, &c.norm(), "decoded")?;
            ensure!(o.ends == c.ends, "wrong-extent", "items end at {:?} instead of {:?}", o.ends, c.ends);
        }
    } else {
        // A damaged stream: alike for every schedule, and as the wire format has it.
        let mut data = c.data.clone();
        mutate(ctx, &mut data);
        ctx.note(|| format!("damaged stream {}", short(&data)));
        let (items, ends, err) = ref_outcome(&c.sc, &data, k);
        for _ in 0..2 {
            let o = decode_by(ctx, &c, &data, k, &DecOpt::default(), false, c.sc.has_maxb())?;
            same_items(&o.items, &items, "damaged stream")?;
            ensure!(o.ends == ends, "wrong-extent", "items of the damaged stream end at {:?} instead of {:?}", o.ends, ends);
            ensure!(
                o.err.is_some() == err.is_some(),
                "accept-differs",
                "damaged stream: after {} items the decoder says {:?}, the wire format says {err:?}",
                o.items.len(),
                o.err
            );
            if let (Some(k), Some(e)) = (o.err, err) {
                reject_kind(&c.sc, k, e, "damaged stream")?;
            }
        }
    }
    Ok(())
}
/// The kind of error a stream the wire format rejects for `why` may be refused with.
pub fn reject_kind(sc: &Sc, k: ErrorKind, why: De, what: &str) -> R {
    // Content that is finished in front of the end of its frame is incomplete as far as the frame is concerned.
    let framed = matches!(k, ErrorKind::IncompleteDecoding | ErrorKind::InconsistentState) && sc.any(&|s| matches!(s, Sc::Len(..) | Sc::Pre(..) | Sc::StrL(_)));
    ensure!(framed || matches!(k, ErrorKind::InvalidInput | ErrorKind::UnexpectedEos), "wrong-kind", "{what}: rejected with {k:?} ({why:?})");
    if why == De::Bad && matches!(sc, Sc::Utf8 | Sc::Pad(..) | Sc::StrL(_) | Sc::Str(_) | Sc::Bin(_) | Sc::Json | Sc::TryMap(_)) {
        ensure!(k == ErrorKind::InvalidInput, "wrong-kind", "{what}: unacceptable content is rejected with {k:?}");
    }
    Ok(())
}

/// The bytes of an item handed over for the time the one under way has been written.
fn c02_last(ctx: &Ctx) -> R {
    let c = enc_case(ctx);
    let env = Env::new(ctx);
    let mut e = enc_codec(&c.sc, &env);
    let k = c.vals.len();
    let mut drain = Drain::new(ctx, None);
    let mut from = 0;
    for (v, &end) in c.vals.iter().zip(&c.ends).take(k.saturating_sub(2)) {
        start_ok(&mut e, v.clone())?;
        run_encode(ctx, &mut e, &env, &mut drain, &c.data[from..end])?;
        from = end;
    }
    if k >= 2 {
        start_ok(&mut e, c.vals[k - 2].clone())?;
        for _ in 0..ctx.below(3) {
            if !e.is_idle() {
                drain.step(&mut e, c.ends[k - 2].saturating_sub(drain.out.len()))?;
                env.check()?;
            }
        }
    }
    ctx.probe("last");
    let mut l = bytecodec::EncodeExt::last(e, c.vals[k - 1].clone());
    if ctx.chance(1, 4) {
        let mut w = drain.out.clone();
        if let Err(x) = l.encode_all(&mut w) {
            fail!("encode-fails", "encode_all failed with {:?} on the last item", kind_of(&x));
        }
        drain.out = w;
        env.check()?;
        ensure!(l.is_idle(), "not-idle", "encoder not idle after the last item");
    }
    let mut stall = 0;
    while !l.is_idle() {
        let done = drain.out.len();
        let r = drain.step(&mut l, c.data.len().saturating_sub(done))?;
        env.check()?;
        if let Some(x) = r.err {
            fail!("encode-fails", "the last item fails with {x:?}");
        }
        let got = &drain.out;
        ensure!(got.len() <= c.data.len() && got[done..] == c.data[done..got.len()], "wrong-bytes", "bytes {done}.. are {} in front of or inside the last item", short(&&got[done..]));
        stall = if r.n == 0 { stall + 1 } else { 0 };
        ensure!(stall < 500, "stall", "no progress in the last item");
    }
    ensure!(drain.out == c.data, "wrong-bytes", "{} bytes instead of {} up to the end of the last item", drain.out.len(), c.data.len());
    ctx.count_item();
    Ok(())
}

pub fn c02(ctx: &Ctx) -> R {
    if ctx.chance(1, 12) {
        return c02_last(ctx);
    }
    let c = enc_case(ctx);
    let env = Env::new(ctx);
    let mut e = enc_codec(&c.sc, &env);
    let granted = ctx.chance(1, 8);
    if granted {
        let s = e.sized;
        e = probe_enc(Granted::new(bytecodec::EncodeExt::slice(e), &env), s, &env, "slice");
    }
    let mut from = 0;
    let mut drain = Drain::new(ctx, None);
    for (i, v) in c.vals.iter().enumerate() {
        let want = &c.data[from..c.ends[i]];
        from = c.ends[i];
        start_ok(&mut e, v.clone())?;
        match if granted { 0 } else { ctx.weighted(&[12, 2, 2]) } {
            0 => {
                if ctx.chance(1, 3) {
                    drain = Drain::new(ctx, None);
                }
                run_encode(ctx, &mut e, &env, &mut drain, want)?;
            }
            1 => {
                ctx.probe("through-write-buf");
                let mut sunk = encode_write_buf(ctx, &mut e, &env, want.len())?;
                ensure!(sunk == want, "wrong-bytes", "item {i} through a write buffer is {}, expected {}", short(&sunk), short(&want));
                sunk.clear();
            }
            _ => {
                ctx.probe("encode-all");
                let mut w = Vec::new();
                if let Err(x) = e.encode_all(&mut w) {
                    fail!("encode-fails", "encode_all failed with {:?} on item {i}", kind_of(&x));
                }
                ensure!(w == want, "wrong-bytes", "item {i} through encode_all is {}, expected {}", short(&w), short(&want));
            }
        }
        ctx.count_item();
        ensure!(e.is_idle(), "not-idle", "encoder not idle after item {i}");
    }
    Ok(())
}

pub fn start_ok(e: &mut PE, v: Val) -> R {
    if let Err(x) = e.start_encoding(v) {
        fail!("start-refused", "idle encoder refused a valid item with {:?}", kind_of(&x));
    }
    Ok(())
}

fn encode_write_buf(ctx: &Ctx, e: &mut PE, env: &Env, want: usize) -> R<Vec<u8>> {
    let cap = (1 + ctx.size(200)).max(want / 1000);
    let p = Profile::swarm(ctx);
    let mut w = SimWriter::new(ctx, p);
    let mut buf = WriteBuf::new(vec![0u8; cap]);
    let mut rounds = 0;
    while !e.is_idle() || !buf.is_empty() {
        rounds += 1;
        ensure!(rounds < 2000 + 400 * want, "stall", "write buffer of {cap} bytes does not drain");
        if !e.is_idle() {
            if let Err(x) = e.encode_to_write_buf(&mut buf) {
                fail!("encode-fails", "encode_to_write_buf failed with {:?}", kind_of(&x));
            }
            env.check()?;
        }
        let _ = buf.flush(&mut w);
    }
    Ok(w.out)
}

pub fn c04(ctx: &Ctx) -> R {
    if ctx.chance(1, 40) {
        return if ctx.chance(1, 20) { super::huge::collect(ctx) } else { super::huge::dec(ctx) };
    }
    let c = dec_case(ctx);
    let k = c.vals.len();
    let mut data = c.data.clone();
    if c.self_delim && ctx.below(3) > 0 {
        let n = 1 + ctx.below(40);
        data.extend(ctx.bytes(n));
    }
    let env = Env::new(ctx);
    env.0.greedy.set(true);
    let mut d = dec(&c.sc, &env);
    if c.sc.min() > 0 && c.self_delim && ctx.chance(1, 10) {
        d = probe_dec(bytecodec::DecodeExt::maybe_eos(d), false, &env, "maybe_eos");
    }
    let mode = gen_eos(ctx, c.self_delim, c.sc.has_maxb());
    let cut = gen_cut(ctx);
    let mut feed = Feed::new(ctx, &data, cut, mode);
    let o = DecOpt { surplus: true, ends: Some(c.ends.clone()), prompt: c.self_delim, ..Default::default() };
    let out = run_decode(ctx, &mut d, &env, &mut feed, k, &o)?;
    if let Some(e) = out.err {
        fail!("valid-rejected", "valid stream rejected with {e:?} in item {}", out.items.len());
    }
    same_items(&out.items, &c.norm(), "decoded")?;
    ensure!(out.ends == c.ends, "wrong-extent", "items end at {:?} instead of {:?}", out.ends, c.ends);
    Ok(())
}

fn idle_encode(ctx: &Ctx, e: &mut PE, env: &Env, when: &str) -> R {
    for _ in 0..ctx.below(3) {
        ctx.fault("surplus-encode");
        let n = ctx.below(20);
        let mut buf = vec![0x5a; n];
        let eos = bytecodec::Eos::new(ctx.below(2) == 1);
        ensure!(e.is_idle(), "idle-lost", "encoder is not idle {when}");
        match e.encode(&mut buf, eos) {
            Ok(0) => ensure!(buf.iter().all(|&b| b == 0x5a), "idle-writes", "idle encoder wrote into the buffer {when}"),
            Ok(m) => fail!("idle-produces", "idle encoder produced {m} bytes {when}"),
            Err(x) => fail!("idle-fails", "idle encoder failed with {:?} {when}", kind_of(&x)),
        }
        env.check()?;
        ensure!(e.is_idle(), "idle-lost", "encoder is no longer idle after an encode call {when}");
    }
    Ok(())
}

/// A last item behind one that is under way: one run of bytes for the caller.
fn c05_last(ctx: &Ctx) -> R {
    let c = enc_case(ctx);
    let env = Env::new(ctx);
    env.0.greedy.set(true);
    let mut e = enc_codec(&c.sc, &env);
    let k = c.vals.len().min(2);
    let want = &c.data[..c.ends[k - 1]];
    let mut drain = Drain::new(ctx, None);
    if k == 2 {
        start_ok(&mut e, c.vals[0].clone())?;
        for _ in 0..ctx.below(3) {
            if !e.is_idle() {
                drain.step(&mut e, c.ends[0] - drain.out.len())?;
                env.check()?;
            }
        }
    }
    let mut l = bytecodec::EncodeExt::last(e, c.vals[k - 1].clone());
    let mut stall = 0;
    ensure!(!l.is_idle(), "early-idle", "idle in front of the last item");
    while !l.is_idle() {
        let done = drain.out.len();
        let r = drain.step(&mut l, want.len() - done)?;
        env.check()?;
        if let Some(x) = r.err {
            fail!("encode-fails", "the last item fails with {x:?}");
        }
        let left = want.len() - done;
        ensure!(r.n == r.offered.min(left), "not-full", "last item: {left} bytes left and a buffer of {}, but {} bytes written", r.offered, r.n);
        ensure!(drain.out[done..] == want[done..done + r.n], "wrong-bytes", "last item: wrong bytes at {done}");
        if done + r.n < want.len() {
            ensure!(!l.is_idle(), "early-idle", "last item: idle after {} of {} bytes", done + r.n, want.len());
        } else if r.n > 0 {
            ensure!(l.is_idle(), "late-idle", "not idle although the last byte of the last item has been written");
        }
        stall = if r.n == 0 { stall + 1 } else { 0 };
        ensure!(stall < 500, "stall", "no progress in the last item");
    }
    ctx.count_item();
    Ok(())
}

/// Items that end only with the output: every buffer is filled until the end is announced.
fn c05_endless(ctx: &Ctx) -> R {
    ctx.nontrivial();
    ctx.fault("endless-item");
    let env = Env::new(ctx);
    let as_byte = |v: Val| v.u() as u8;
    let pad = move || PaddingEncoder::new().map_from(as_byte);
    let pair = |v: Val| {
        let mut i = v.l().into_iter();
        (i.next().expect("harness"), i.next().expect("harness"))
    };
    let head = [0, 0, 1, 5][ctx.below(4)];
    let arr: S = Rc::new(Sc::Arr(head));
    let shape = ctx.below(8);
    ctx.abs(&("endless", shape, head));
    let tupled = shape < 3;
    let mut e: Box<dyn Encode<Item = Val>> = match shape {
        0 => Box::new(TupleEncoder::new((enc_codec(&arr, &env), pad())).map_from(pair)),
        1 => Box::new(enc_codec(&arr, &env).chain(pad()).map_from(pair)),
        2 => Box::new(TupleEncoder::new((enc_codec(&arr, &env), pad().optional())).map_from(move |v| {
            let (a, b) = pair(v);
            (a, Some(b))
        })),
        3 => Box::new(pad()),
        4 => Box::new(pad().map_err(|e: bytecodec::Error| e)),
        5 => Box::new(pad().optional().map_from(Some)),
        6 => Box::new(pad().try_map_from(Ok::<Val, bytecodec::Error>)),
        _ => {
            let mut s = pad().slice();
            s.set_consumable_bytes(u64::MAX);
            Box::new(s)
        }
    };
    let head = if tupled { head } else { 0 };
    let idle = |e: &mut Box<dyn Encode<Item = Val>>, when: &str| -> R {
        ensure!(e.is_idle(), "late-idle", "not idle {when}");
        ensure!(e.requiring_bytes() == bytecodec::ByteCount::Finite(0), "count-idle", "{:?} advertised {when}", e.requiring_bytes());
        for _ in 0..ctx.below(3) {
            ctx.fault("surplus-encode");
            let mut buf = vec![0x5a; ctx.below(9)];
            match e.encode(&mut buf, bytecodec::Eos::new(ctx.below(2) == 1)) {
                Ok(0) => ensure!(buf.iter().all(|&b| b == 0x5a), "idle-writes", "idle encoder wrote into the buffer {when}"),
                Ok(m) => fail!("idle-produces", "idle encoder produced {m} bytes {when}"),
                Err(x) => fail!("idle-fails", "idle encoder failed with {:?} {when}", kind_of(&x)),
            }
        }
        Ok(())
    };
    idle(&mut e, "before the first item")?;
    for round in 0..1 + ctx.below(3) {
        let b = ctx.below(256) as u8;
        let front = ctx.bytes(head);
        let val = |b: u8| if tupled { Val::L(vec![Val::B(front.clone()), Val::U(b.into())]) } else { Val::U(b.into()) };
        ensure!(e.start_encoding(val(b)).is_ok(), "start-refused", "an idle encoder refuses item {round}");
        let cap = head + ctx.size(900);
        let mut want = front.clone();
        want.resize(cap, b);
        let mut drain = Drain::new(ctx, Some(cap));
        ctx.note(|| format!("round {round}: padding {b} behind {head} bytes, the output has {cap}"));
        loop {
            ensure!(!e.is_idle(), "early-idle", "idle after {} of {cap} bytes", drain.out.len());
            ensure!(e.requiring_bytes() == bytecodec::ByteCount::Infinite, "count-finite", "{:?} advertised for an item without end", e.requiring_bytes());
            if ctx.chance(1, 6) {
                ctx.fault("start-while-busy");
                match e.start_encoding(val([b, b ^ 0xff][ctx.below(2)])) {
                    Ok(()) => fail!("busy-accepted", "an encoder inside an endless item takes another one"),
                    Err(x) => ensure!(kind_of(&x) == ErrorKind::EncoderFull, "wrong-kind", "{:?} for a second item", kind_of(&x)),
                }
            }
            let r = drain.step(&mut *e, cap - drain.out.len())?;
            ensure!(r.err.is_none(), "encode-fails", "an endless item fails with {:?} after {} of {cap} bytes", r.err, drain.out.len());
            ensure!(r.n == r.offered, "not-full", "{} of {} bytes of an endless item written", r.n, r.offered);
            ensure!(drain.out == want[..drain.out.len()], "wrong-bytes", "{} instead of {}", short(&drain.out), short(&want));
            if r.last {
                break;
            }
        }
        idle(&mut e, "behind the end of the output")?;
        ctx.count_item();
    }
    Ok(())
}

pub fn c05(ctx: &Ctx) -> R {
    if ctx.chance(1, 8) {
        return c05_last(ctx);
    }
    if ctx.chance(1, 40) {
        return super::huge::enc(ctx, false);
    }
    if ctx.chance(1, 12) {
        return c05_endless(ctx);
    }
    let c = enc_case(ctx);
    let env = Env::new(ctx);
    env.0.greedy.set(true);
    let mut e = enc_codec(&c.sc, &env);
    ensure!(e.is_idle(), "fresh-not-idle", "a fresh encoder is not idle");
    idle_encode(ctx, &mut e, &env, "before the first item")?;
    let mut from = 0;
    for (i, v) in c.vals.iter().enumerate() {
        let want = &c.data[from..c.ends[i]];
        from = c.ends[i];
        start_ok(&mut e, v.clone())?;
        env.check()?;
        ensure!(want.is_empty() || !e.is_idle(), "early-idle", "idle although {} bytes of item {i} are to be written", want.len());
        // A finite output that is large enough is as good as an endless one.
        let cap = if ctx.below(3) == 0 { Some(want.len() + [0, 0, 1, 7][ctx.below(4)]) } else { None };
        let mut drain = Drain::new(ctx, cap);
        let mut done = 0;
        let mut stall = 0;
        while !e.is_idle() {
            let r = drain.step(&mut e, want.len() - done)?;
            env.check()?;
            if let Some(k) = r.err {
                fail!("encode-fails", "encode failed with {k:?} at byte {done} of {} of item {i}", want.len());
            }
            let full = r.offered.min(want.len() - done);
            ensure!(
                r.n == full,
                "not-full",
                "item {i}: {} bytes left and a buffer of {}, but {} bytes written",
                want.len() - done,
                r.offered,
                r.n
            );
            ensure!(drain.out[done..] == want[done..done + r.n], "wrong-bytes", "item {i}: wrong bytes at {done}");
            done += r.n;
            if done < want.len() {
                ensure!(!e.is_idle(), "early-idle", "idle after {done} of {} bytes of item {i}", want.len());
            } else if !want.is_empty() && r.n > 0 {
                ensure!(e.is_idle(), "late-idle", "not idle although the last byte of item {i} has been written");
            }
            stall = if r.n == 0 { stall + 1 } else { 0 };
            ensure!(stall < 500, "stall", "no progress in item {i}");
        }
        ctx.count_item();
        idle_encode(ctx, &mut e, &env, "after an item")?;
    }
    Ok(())
}

/// The counts of a last item behind one that may be under way.
fn c06_last(ctx: &Ctx) -> R {
    let c = enc_case(ctx);
    let env = Env::new(ctx);
    env.0.counts.set(true);
    let mut e = enc_codec(&c.sc, &env);
    let k = c.vals.len().min(2);
    let want = &c.data[..c.ends[k - 1]];
    let mut drain = Drain::new(ctx, None);
    if k == 2 {
        start_ok(&mut e, c.vals[0].clone())?;
        for _ in 0..ctx.below(3) {
            if !e.is_idle() {
                drain.step(&mut e, c.ends[0] - drain.out.len())?;
                env.check()?;
            }
        }
    }
    let sized = e.sized;
    let mut l = bytecodec::EncodeExt::last(e, c.vals[k - 1].clone());
    let mut stall = 0;
    loop {
        let left = want.len().checked_sub(drain.out.len());
        ensure!(left.is_some(), "wrong-bytes", "more bytes than the items have");
        let left = left.unwrap_or(0) as u64;
        match l.requiring_bytes() {
            bytecodec::ByteCount::Finite(n) => ensure!(n == left, "count-wrong", "last item: {n} bytes advertised, but {left} are to come"),
            bytecodec::ByteCount::Infinite => fail!("count-infinite", "last item: an infinite number of bytes advertised"),
            bytecodec::ByteCount::Unknown => ensure!(!l.is_idle(), "count-idle", "last item: nothing advertised although idle"),
        }
        if drain.out.len() > c.ends[0] && k == 2 && sized {
            // No longer pending: the exact number is known.
            ensure!(l.exact_requiring_bytes() == left, "count-wrong", "last item: exactly {} bytes advertised, but {left} are to come", l.exact_requiring_bytes());
        }
        if l.is_idle() {
            break;
        }
        let r = drain.step(&mut l, left as usize)?;
        env.check()?;
        if let Some(x) = r.err {
            fail!("encode-fails", "the last item fails with {x:?}");
        }
        stall = if r.n == 0 { stall + 1 } else { 0 };
        ensure!(stall < 500, "stall", "no progress in the last item");
    }
    ensure!(drain.out.len() == want.len(), "wrong-bytes", "{} bytes instead of {}", drain.out.len(), want.len());
    ctx.count_item();
    Ok(())
}

pub fn c06(ctx: &Ctx) -> R {
    if ctx.chance(1, 40) {
        return if ctx.below(2) == 0 { super::huge::enc(ctx, false) } else { super::huge::dec(ctx) };
    }
    if ctx.chance(1, 10) {
        return c06_last(ctx);
    }
    if ctx.chance(1, 16) {
        return c05_endless(ctx);
    }
    if ctx.below(2) == 0 {
        let c = dec_case(ctx);
        let k = c.vals.len();
        let env = Env::new(ctx);
        env.0.counts.set(true);
        let mut d = dec(&c.sc, &env);
        let partial = ctx.chance(1, 6);
        if partial {
            d = probe_dec(Granted::new(bytecodec::DecodeExt::slice(d), &env), !c.self_delim, &env, "slice");
        }
        let cut = gen_cut(ctx);
        let mode = gen_eos(ctx, c.self_delim, c.sc.has_maxb());
        let mut feed = Feed::new(ctx, &c.data, cut, mode);
        let ends = if c.self_delim { Some(c.ends.clone()) } else { None };
        let o = DecOpt { counts: c.self_delim, ends, surplus: true, partial, ..Default::default() };
        let out = run_decode(ctx, &mut d, &env, &mut feed, k, &o)?;
        if let Some(e) = out.err {
            fail!("valid-rejected", "valid stream rejected with {e:?}");
        }
        return Ok(());
    }
    let c = enc_case(ctx);
    let env = Env::new(ctx);
    env.0.counts.set(true);
    let mut e = enc_codec(&c.sc, &env);
    if ctx.chance(1, 6) {
        let s = e.sized;
        e = probe_enc(Granted::new(bytecodec::EncodeExt::slice(e), &env), s, &env, "slice");
    }
    let check = |e: &PE, left: usize, when: &str| -> R {
        let req = e.requiring_bytes();
        if let bytecodec::ByteCount::Finite(n) = req {
            ensure!(n == left as u64, "count-wrong", "{n} bytes advertised {when}, but {left} are to come");
        }
        if e.is_idle() {
            ensure!(req == bytecodec::ByteCount::Finite(0), "count-idle", "idle encoder advertises {req:?} {when}");
        }
        if e.sized {
            let n = e.exact_requiring_bytes();
            ensure!(n == left as u64, "count-wrong", "exactly {n} bytes advertised {when}, but {left} are to come");
        }
        Ok(())
    };
    check(&e, 0, "before the first item")?;
    let mut from = 0;
    for (i, v) in c.vals.iter().enumerate() {
        let want = &c.data[from..c.ends[i]];
        from = c.ends[i];
        start_ok(&mut e, v.clone())?;
        env.check()?;
        check(&e, want.len(), "after the start of an item")?;
        let mut drain = Drain::new(ctx, None);
        let mut done = 0;
        let mut stall = 0;
        while !e.is_idle() {
            let r = drain.step(&mut e, want.len() - done.min(want.len()))?;
            env.check()?;
            if let Some(k) = r.err {
                fail!("encode-fails", "encode failed with {k:?}");
            }
            done += r.n;
            ensure!(done <= want.len(), "wrong-bytes", "more than the {} bytes of the item", want.len());
            check(&e, want.len() - done, "inside an item")?;
            stall = if r.n == 0 { stall + 1 } else { 0 };
            ensure!(stall < 500, "stall", "no progress in item {i}");
        }
        ensure!(done == want.len(), "wrong-bytes", "{done} bytes instead of {}", want.len());
        check(&e, 0, "after an item")?;
        ctx.count_item();
    }
    Ok(())
}

pub fn c07(ctx: &Ctx) -> R {
    let c = dec_case(ctx);
    let k = c.vals.len();
    if c.data.is_empty() {
        return Ok(());
    }
    // The stream ends at a random point, with emphasis on the neighbourhood of the ends of items.
    let p = match ctx.below(3) {
        0 => ctx.below(c.data.len()),
        1 => c.data.len() - 1 - ctx.below(c.data.len().min(3)),
        _ => {
            let e = c.ends[ctx.below(k)];
            (e + ctx.below(3)).saturating_sub(1).min(c.data.len() - 1)
        }
    };
    let data = &c.data[..p];
    let (items, ends, err) = ref_outcome(&c.sc, data, k);
    if err != Some(De::Trunc) || ends.last().copied().unwrap_or(0) == p {
        // Between two items, or content without an extent of its own.
        return Ok(());
    }
    ctx.fault("truncate");
    ctx.probe("inside-item");
    let env = Env::new(ctx);
    let mut d = dec(&c.sc, &env);
    let maybe = c.self_delim && !c.sc.fixed().is_some_and(|n| n == 0) && c.sc.min() > 0 && ctx.chance(1, 6);
    if maybe {
        ctx.probe("below-maybe-eos");
        use bytecodec::DecodeExt;
        d = probe_dec(d.maybe_eos(), false, &env, "maybe_eos");
    }
    let granted = ctx.chance(1, 6);
    if granted {
        use bytecodec::DecodeExt;
        d = probe_dec(Granted::new(d.slice(), &env), false, &env, "slice");
    }
    if !maybe && !granted && ctx.chance(1, 6) {
        ctx.probe("through-read-buf");
        let o = run_read_buf(ctx, &mut d, &env, data, k)?;
        same_items(&o.items, &items, "truncated stream")?;
        ensure!(o.err == Some(ErrorKind::UnexpectedEos), "wrong-kind", "the end inside an item is reported as {:?}", o.err);
        return Ok(());
    }
    let cut = gen_cut(ctx);
    let mut feed = Feed::new(ctx, data, cut, announce(ctx, c.sc.has_maxb()));
    let o = DecOpt { strict_eos: !granted, ..Default::default() };
    let out = run_decode(ctx, &mut d, &env, &mut feed, k, &o)?;
    ensure!(out.items.len() <= items.len(), "item-from-fragment", "item {} was produced from a fragment: {}", items.len(), short(&out.items.last()));
    same_items(&out.items, &items, "truncated stream")?;
    ensure!(out.err == Some(ErrorKind::UnexpectedEos), "wrong-kind", "the end inside item {} is reported as {:?}", items.len(), out.err);
    Ok(())
}

/// A last item behind one that is under way, on an output that ends.
fn c08_last(ctx: &Ctx) -> R {
    let c = enc_case(ctx);
    let env = Env::new(ctx);
    let mut e = enc_codec(&c.sc, &env);
    let k = c.vals.len().min(2);
    let total = c.ends[k - 1];
    let cap = match ctx.below(4) {
        0 => ctx.below(total + 1),
        1 => (c.ends[0] + ctx.below(3)).saturating_sub(1),
        _ => total + ctx.below(2),
    };
    ctx.note(|| format!("last item {k}: output of {cap} bytes for {total}"));
    if cap < total {
        ctx.fault("output-ends");
    }
    if k == 2 {
        start_ok(&mut e, c.vals[0].clone())?;
    }
    let mut drain = Drain::new(ctx, Some(cap));
    let mut l = bytecodec::EncodeExt::last(e, c.vals[k - 1].clone());
    let mut stall = 0;
    while !l.is_idle() {
        let r = drain.step(&mut l, total - drain.out.len())?;
        env.check()?;
        if let Some(k) = r.err {
            ensure!(total > cap, "encode-fails", "encode failed with {k:?} although the last item fits ({total} of {cap} bytes)");
            ensure!(k == ErrorKind::UnexpectedEos, "wrong-kind", "too short an output is reported as {k:?}");
            ensure!(drain.told || drain.announced, "early-fail", "encode failed before the end was announced");
            return Ok(());
        }
        let n = drain.out.len();
        ensure!(n <= total && drain.out[n - r.n..] == c.data[n - r.n..n], "wrong-bytes", "wrong bytes before {n} of the last item");
        ensure!(!l.is_idle() || n == total, "early-idle", "idle with {} bytes of the last item missing", total - n);
        ensure!(l.is_idle() || !r.last, "eos-missed", "the output ends after {cap} bytes and the last item at {total}, but encode reported success");
        stall = if r.n == 0 { stall + 1 } else { 0 };
        ensure!(stall < 500, "stall", "no progress in the last item");
    }
    ensure!(total <= cap, "overrun", "{total} bytes in an output of {cap}");
    ctx.count_item();
    Ok(())
}

pub fn c08(ctx: &Ctx) -> R {
    if ctx.chance(1, 8) {
        return c08_last(ctx);
    }
    if ctx.chance(1, 40) {
        return super::huge::enc(ctx, true);
    }
    let c = enc_case(ctx);
    let env = Env::new(ctx);
    let mut e = enc_codec(&c.sc, &env);
    let granted = ctx.chance(1, 6);
    if granted {
        let s = e.sized;
        e = probe_enc(Granted::new(bytecodec::EncodeExt::slice(e), &env), s, &env, "slice");
    }
    let total = c.data.len();
    let cap = match ctx.below(4) {
        0 => ctx.below(total + 1),
        1 => total.saturating_sub(1 + ctx.below(3)),
        2 => {
            let x = c.ends[ctx.below(c.ends.len())];
            (x + ctx.below(3)).saturating_sub(1)
        }
        _ => total + ctx.below(2),
    };
    ctx.note(|| format!("output of {cap} bytes for {total}"));
    let mut drain = Drain::new(ctx, Some(cap));
    if cap < total {
        ctx.fault("output-ends");
    }
    for (i, v) in c.vals.iter().enumerate() {
        let end = c.ends[i];
        start_ok(&mut e, v.clone())?;
        let mut stall = 0;
        while !e.is_idle() {
            let r = drain.step(&mut e, end - drain.out.len())?;
            env.check()?;
            if let Some(k) = r.err {
                ensure!(end > cap, "encode-fails", "encode failed with {k:?} although item {i} fits ({end} of {cap} bytes)");
                ensure!(k == ErrorKind::UnexpectedEos, "wrong-kind", "too short an output is reported as {k:?}");
                ensure!(drain.told || drain.announced, "early-fail", "encode failed before the end was announced");
                return Ok(());
            }
            let n = drain.out.len();
            ensure!(n <= end && drain.out[n - r.n..] == c.data[n - r.n..n], "wrong-bytes", "wrong bytes before {n} of item {i}");
            ensure!(!e.is_idle() || n == end, "early-idle", "idle with {} bytes of item {i} missing", end - n);
            ensure!(e.is_idle() || !r.last || granted, "eos-missed", "the output ends after {cap} bytes and item {i} at {end}, but encode reported success");
            stall = if r.n == 0 { stall + 1 } else { 0 };
            ensure!(stall < 500, "stall", "no progress in item {i}");
        }
        ctx.count_item();
    }
    ensure!(drain.out == c.data, "wrong-bytes", "the output differs");
    Ok(())
}

pub fn c09(ctx: &Ctx) -> R {
    let c = dec_case(ctx);
    let k = c.vals.len();
    let env = Env::new(ctx);
    let mut d = dec(&c.sc, &env);
    if c.self_delim && c.sc.min() > 0 && ctx.chance(1, 5) {
        use bytecodec::DecodeExt;
        d = probe_dec(d.maybe_eos(), false, &env, "maybe_eos");
    }
    let cut = gen_cut(ctx);
    if !c.data.is_empty() && ctx.chance(1, 4) {
        // A stream that ends inside an item: what is asked for too early must not hide that either.
        let p = ctx.below(c.data.len());
        let (items, ends, err) = ref_outcome(&c.sc, &c.data[..p], k);
        if err != Some(De::Trunc) || ends.last().copied().unwrap_or(0) == p {
            return Ok(());
        }
        ctx.fault("truncate");
        let mut feed = Feed::new(ctx, &c.data[..p], cut, announce(ctx, c.sc.has_maxb()));
        let o = DecOpt { early_finish: [4, 8, 12][ctx.below(3)], strict_eos: true, ..Default::default() };
        let out = run_decode(ctx, &mut d, &env, &mut feed, k, &o)?;
        same_items(&out.items, &items, "truncated stream with premature requests")?;
        ensure!(out.err == Some(ErrorKind::UnexpectedEos), "wrong-kind", "after premature requests the end inside item {} is reported as {:?}", items.len(), out.err);
        return Ok(());
    }
    let mode = gen_eos(ctx, c.self_delim, c.sc.has_maxb());
    let mut feed = Feed::new(ctx, &c.data, cut, mode);
    let ends = Some(c.ends.clone());
    let o = DecOpt { early_finish: [4, 8, 12][ctx.below(3)], ends, ..Default::default() };
    let out = run_decode(ctx, &mut d, &env, &mut feed, k, &o)?;
    if let Some(e) = out.err {
        fail!("valid-rejected", "after premature requests the valid stream is rejected with {e:?} in item {}", out.items.len());
    }
    same_items(&out.items, &c.norm(), "after premature requests")
}

/// Leaves out every optional part of `v`.
fn omit(v: &mut Val) {
    match v {
        Val::O(x) => *x = None,
        Val::Tag(x) => omit(x),
        Val::L(xs) => xs.iter_mut().for_each(omit),
        _ => {}
    }
}
/// Whether giving a busy encoder `v` reaches a node that can refuse it.
fn refusable(sc: &Sc, v: &Val) -> bool {
    match (sc, v) {
        (Sc::Null, _) => false,
        (Sc::Map(x), Val::Tag(v)) => refusable(x, v),
        (Sc::TryMap(x), v) | (Sc::MapErr(x), v) | (Sc::MaxB(_, x), v) | (Sc::Slice(x), v) => refusable(x, v),
        _ => true,
    }
}

/// An encoder schema together with a generator of items it must refuse at the start.
fn poison_schema(ctx: &Ctx) -> S {
    let mut sc: S = if ctx.below(2) == 0 {
        let t = [FixT::U24, FixT::U40, FixT::U48, FixT::U56][ctx.below(4)];
        Rc::new(Sc::Fix(Fix { t, le: ctx.below(2) == 1 }))
    } else {
        let x = match ctx.below(4) {
            0 => Sc::Fix(gen_fix(ctx)),
            1 => Sc::Rest,
            2 => Sc::Utf8,
            _ => Sc::Arr(ARR_SIZES[ctx.below(4)]),
        };
        Rc::new(Sc::TryMap(Rc::new(x)))
    };
    for _ in 0..ctx.below(5) {
        sc = Rc::new(match ctx.below(9) {
            0 => Sc::Map(sc),
            1 => Sc::MapErr(sc),
            2 => Sc::Omit(false, sc),
            3 => Sc::MaxB(1 << 62, sc),
            4 => Sc::Slice(sc),
            5 => {
                if let Some(n) = sc.fixed() {
                    Sc::Len(n as u64, sc)
                } else if sc.flexible() {
                    Sc::Len((sc.min() + ctx.below(50)) as u64, sc)
                } else {
                    Sc::Map(sc)
                }
            }
            6 => Sc::Peek(sc),
            _ => {
                let mut v = vec![sc];
                for _ in 0..1 + ctx.below(3) {
                    v.push(gen_schema(ctx, GenOpt { to_eos: true, pad_ok: false, big: 60, ..GenOpt::enc(1) }));
                }
                let chain = v.len() == 2 && ctx.below(2) == 1;
                Sc::Tup(v, chain)
            }
        });
    }
    sc
}
/// Turns a valid value into one the site inside refuses.
fn poison(ctx: &Ctx, sc: &Sc, v: Val) -> Val {
    match (sc, v) {
        (Sc::Fix(f), _) => {
            let lim = if f.t == FixT::U24 { u64::from(u32::MAX) } else { u64::MAX };
            let min = f.max_u() + 1;
            Val::U(match ctx.below(4) {
                0 => min,
                1 => lim,
                2 => min + ctx.draw(lim - min),
                _ => (min << ctx.below(8)).min(lim),
            })
        }
        (Sc::TryMap(_), _) => Val::Bad,
        (Sc::Map(x), Val::Tag(v)) => Val::Tag(Box::new(poison(ctx, x, *v))),
        (Sc::Omit(_, x), Val::O(Some(v))) => Val::O(Some(Box::new(poison(ctx, x, *v)))),
        (Sc::MapErr(x), v) | (Sc::MaxB(_, x), v) | (Sc::Slice(x), v) | (Sc::Peek(x), v) | (Sc::Len(_, x), v) => poison(ctx, x, v),
        (Sc::Tup(xs, _), Val::L(mut l)) => {
            let first = l.remove(0);
            l.insert(0, poison(ctx, &xs[0], first));
            Val::L(l)
        }
        (s, v) => panic!("harness: poison {s:?} {v:?}"),
    }
}

pub fn c10(ctx: &Ctx) -> R {
    if ctx.chance(1, 16) {
        return c05_endless(ctx);
    }
    let poisonable = ctx.below(2) == 1;
    let c = if poisonable {
        let sc = poison_schema(ctx);
        let k = 1 + ctx.below(4);
        let b = big(ctx).min(400);
        let c = values(ctx, &sc, k, b);
        c.note(ctx);
        c
    } else {
        enc_case(ctx)
    };
    let env = Env::new(ctx);
    let mut e = enc_codec(&c.sc, &env);
    let mut drain = Drain::new(ctx, None);
    let mut from = 0;
    let refuse_bad = |ctx: &Ctx, e: &mut PE, base: &Val, busy: bool| -> R {
        for _ in 0..ctx.below(3) {
            let bad = poison(ctx, &c.sc, base.clone());
            ctx.fault("refused-item");
            ctx.note(|| format!("refused item {}", short(&bad)));
            match e.start_encoding(bad) {
                Ok(()) => fail!("bad-accepted", "an item outside the representable range was accepted"),
                Err(x) => {
                    let k = kind_of(&x);
                    let ok = k == ErrorKind::InvalidInput || (busy && k == ErrorKind::EncoderFull);
                    ensure!(ok, "wrong-kind", "an item outside the representable range is refused with {k:?}");
                }
            }
            env.check()?;
            ensure!(busy || e.is_idle(), "busy-after-refusal", "no longer idle after refusing an item");
        }
        Ok(())
    };
    for (i, v) in c.vals.iter().enumerate() {
        let want = &c.data[from..c.ends[i]];
        from = c.ends[i];
        if poisonable {
            refuse_bad(ctx, &mut e, v, false)?;
            if ctx.below(2) == 1 {
                idle_encode(ctx, &mut e, &env, "after a refused item")?;
            }
        }
        start_ok(&mut e, v.clone())?;
        let base = drain.out.len();
        let mut stall = 0;
        let mut other = if ctx.chance(1, 4) { v.clone() } else { gen_val(ctx, &c.sc, 40) };
        // Without frames: there, what is left out would be missing.
        let omitted = ctx.below(4) == 0 && !c.sc.any(&|s| matches!(s, Sc::Len(..)));
        if omitted {
            omit(&mut other);
        }
        let can = refusable(&c.sc, &other);
        let mut attempts = 0;
        while !e.is_idle() {
            if attempts < 12 && ctx.chance(1, 3) {
                attempts += 1;
                if can {
                    ctx.fault("busy-start");
                    match e.start_encoding(other.clone()) {
                        Ok(()) => fail!("busy-accepted", "a busy encoder accepted an item after {} bytes of item {i}", drain.out.len() - base),
                        Err(x) => ensure!(kind_of(&x) == ErrorKind::EncoderFull, "wrong-kind", "a busy encoder refuses with {:?}", kind_of(&x)),
                    }
                    env.check()?;
                }
                if poisonable {
                    refuse_bad(ctx, &mut e, v, true)?;
                }
            }
            let done = drain.out.len() - base;
            let r = drain.step(&mut e, want.len().saturating_sub(done))?;
            env.check()?;
            if let Some(k) = r.err {
                fail!("encode-fails", "encode failed with {k:?} after a refused item, at byte {done} of item {i}");
            }
            ensure!(done + r.n <= want.len() && drain.out[base + done..] == want[done..done + r.n], "wrong-bytes", "wrong bytes at {done} of item {i} after a refused item");
            stall = if r.n == 0 { stall + 1 } else { 0 };
            ensure!(stall < 500, "stall", "no progress in item {i}");
        }
        ensure!(drain.out.len() - base == want.len(), "wrong-bytes", "item {i} has {} bytes instead of {}", drain.out.len() - base, want.len());
        ctx.count_item();
    }
    Ok(())
}
