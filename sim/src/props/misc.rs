//! C18 (hostile bytes), C22 (JSON and bincode against their serializers), C23 (one-shot helpers).
use super::basic::*;
use crate::codecs::*;
use crate::core::{kind_of, short, Ctx, R};
use crate::feed::*;
use crate::schema::*;
use crate::simio::*;
use crate::{ensure, fail};
use bytecodec::bincode_codec::{BincodeDecoder, BincodeEncoder};
use bytecodec::bytes::{BytesEncoder, CopyableBytesDecoder, RemainingBytesDecoder, Utf8Decoder, Utf8Encoder};
use bytecodec::combinator::{Collect, MaybeEos, Optional, Peekable, PreEncode, Repeat};
use bytecodec::fixnum::{U16beDecoder, U16beEncoder, U8Encoder};
use bytecodec::io::IoDecodeExt;
use bytecodec::json_codec::{JsonDecoder, JsonEncoder};
use bytecodec::null::NullEncoder;
use bytecodec::padding::PaddingEncoder;
use bytecodec::tuple::{TupleDecoder, TupleEncoder};
use bytecodec::{ByteCount, Decode, DecodeExt, Encode, EncodeExt, Eos, ErrorKind, SizedEncode};
use serde::de::DeserializeOwned;
use serde::ser::{SerializeSeq, SerializeStruct};
use serde::{Deserialize, Serialize, Serializer};
use serde_json::Value;
use std::collections::BTreeMap;
use std::fmt::Debug;

// ---------------------------------------------------------------- C18

const EVIL: [u64; 14] = [
    u64::MAX,
    u64::MAX - 1,
    u64::MAX - 7,
    1 << 63,
    (1 << 63) - 1,
    1 << 62,
    1 << 40,
    1 << 32,
    (1 << 32) - 1,
    1 << 31,
    (1 << 31) - 1,
    1 << 24,
    65_536,
    65_535,
];

fn hostile(ctx: &Ctx, c: &Case) -> Vec<u8> {
    let mut data = match ctx.below(5) {
        0 => {
            ctx.fault("random-bytes");
            let n = ctx.size(2000);
            ctx.bytes(n)
        }
        1 => {
            ctx.fault("repeated-byte");
            vec![[0xff, 0, 0x7f, 0x80, 1, b'[', b'{', b'"', 3][ctx.below(9)]; ctx.size(1500)]
        }
        _ => c.data.clone(),
    };
    data.truncate(6000);
    // Overwrite what may be a length or a count.
    for _ in 0..ctx.below(4) {
        if data.is_empty() {
            break;
        }
        ctx.fault("evil-number");
        let at = if ctx.below(2) == 0 { ctx.below(data.len().min(12)) } else { ctx.below(data.len()) };
        let w = (1 + ctx.below(8)).min(data.len() - at);
        let v = if ctx.below(3) == 0 { (data.len() as u64 + ctx.below(9) as u64).saturating_sub(4) } else { EVIL[ctx.below(EVIL.len())] };
        let b = if ctx.below(2) == 0 { v.to_be_bytes() } else { v.to_le_bytes() };
        if ctx.below(2) == 0 {
            data[at..at + w].copy_from_slice(&b[..w]);
        } else {
            data[at..at + w].copy_from_slice(&b[8 - w..]);
        }
    }
    if ctx.below(2) == 0 {
        mutate(ctx, &mut data);
    }
    data
}

/// The decoder's answer to `data` against the wire format's.
fn judge_items(o: &Outcome, c: &Case, data: &[u8], k: usize, what: &str) -> R {
    let (items, ends, err) = ref_outcome(&c.sc, data, k);
    same_items(&o.items, &items, what)?;
    ensure!(o.ends == ends, "wrong-extent", "{what}: items end at {:?} instead of {:?}", o.ends, ends);
    ensure!(
        o.err.is_some() == err.is_some(),
        "accept-differs",
        "{what}: after {} items the decoder says {:?}, the wire format says {err:?}",
        o.items.len(),
        o.err
    );
    if let (Some(k), Some(e)) = (o.err, err) {
        reject_kind(&c.sc, k, e, what)?;
    }
    Ok(())
}

fn c18_stream(ctx: &Ctx) -> R {
    let d = [1, 2, 3, 4, 2][ctx.below(5)];
    let sc = gen_schema(ctx, GenOpt { big: 300, ..GenOpt::dec(d) });
    let k = if sc.to_eos() || !sc.reusable() { 1 } else { 1 + ctx.below(3) };
    let c = values(ctx, &sc, k, 300);
    c.note(ctx);
    let data = hostile(ctx, &c);
    ctx.note(|| format!("hostile stream {}", short(&data)));
    let mut first: Option<bool> = None;
    for round in 0..2 {
        let env = Env::new(ctx);
        let mut d = dec(&c.sc, &env);
        let o = if ctx.chance(1, 6) && round == 1 {
            // Through the blocking helper.
            let mut r = SimReader::new(ctx, data.clone(), Profile::none());
            let mut o = Outcome { items: vec![], ends: vec![], err: None, err_at_eos: false };
            while o.items.len() < k {
                match d.decode_exact(&mut r) {
                    Ok(v) => {
                        o.items.push(v);
                        o.ends.push(r.pos);
                    }
                    Err(e) => {
                        o.err = Some(kind_of(&e));
                        break;
                    }
                }
            }
            o
        } else {
            let mode = gen_eos(ctx, false, c.sc.has_maxb());
            let mut feed = Feed::new(ctx, &data, gen_cut(ctx), mode);
            counted_decode(ctx, &mut d, &env, &mut feed, k)?
        };
        env.check()?;
        judge_items(&o, &c, &data, k, "hostile stream")?;
        if let Some(e) = first {
            ensure!(e == o.err.is_some(), "cut-dependent", "two cuts of the stream end differently");
        }
        first = Some(o.err.is_some());
    }
    Ok(())
}

/// Like `run_decode`, asking for the required bytes around every call.
fn counted_decode(ctx: &Ctx, dec: &mut PD, env: &Env, feed: &mut Feed, k: usize) -> R<Outcome> {
    let mut out = Outcome { items: vec![], ends: vec![], err: None, err_at_eos: false };
    let mut stall = 0;
    while out.items.len() < k {
        let _ = dec.requiring_bytes();
        if !dec.is_idle() {
            let (buf, eos) = feed.next();
            match dec.decode(buf, eos) {
                Ok(n) => {
                    env.check()?;
                    ensure!(n <= buf.len(), "overrun", "decode consumed {n} of {} bytes", buf.len());
                    feed.took(n);
                    ctx.ev("decode", n as u64, u64::from(dec.is_idle()));
                    stall = if n == 0 && !dec.is_idle() { stall + 1 } else { 0 };
                    ensure!(stall <= 40, "stall", "no progress at byte {} (end announced: {})", feed.pos, feed.told);
                }
                Err(e) => {
                    ctx.ev("decode-err", kind_of(&e) as u64, 0);
                    out.err = Some(kind_of(&e));
                    let _ = dec.requiring_bytes();
                    return Ok(out);
                }
            }
        }
        let _ = dec.requiring_bytes();
        if dec.is_idle() {
            match dec.finish_decoding() {
                Ok(v) => {
                    ctx.count_item();
                    out.items.push(v);
                    out.ends.push(feed.pos);
                }
                Err(e) => {
                    out.err = Some(kind_of(&e));
                    return Ok(out);
                }
            }
        }
    }
    Ok(out)
}

/// A transport that announces more than it has.
fn c18_overstated(ctx: &Ctx) -> R {
    let d = [1, 2, 2, 3][ctx.below(4)];
    let sc = gen_schema(ctx, GenOpt { big: 300, ..GenOpt::dec(d) });
    let c = values(ctx, &sc, 1, 300);
    c.note(ctx);
    let mut data = c.data.clone();
    if ctx.below(2) == 0 {
        data = hostile(ctx, &c);
    }
    let env = Env::new(ctx);
    let grants = ctx.below(2) == 0;
    let mut d = dec(&c.sc, &env).slice();
    d.set_consumable_bytes(u64::MAX);
    let cut = gen_cut(ctx);
    let (mut pos, mut end, mut stall) = (0, 0, 0);
    let lies = ctx.below(3);
    ctx.fault("overstated-end");
    let want = ref_outcome(&c.sc, &data, 1);
    loop {
        if pos == end {
            end += cut.next(ctx, data.len() - end, 1);
        }
        let rest = (data.len() - end) as u64;
        let eos = if end == data.len() && (pos == end || stall > 4) {
            Eos::new(true)
        } else if lies == 0 && ctx.below(2) == 0 {
            Eos::new(false)
        } else {
            let more = EVIL[ctx.below(EVIL.len())];
            Eos::with_remaining_bytes(ByteCount::Finite(rest.saturating_add(if lies == 1 { ctx.below(100) as u64 + 1 } else { more })))
        };
        ctx.ev("offer", (end - pos) as u64, u64::from(eos.is_reached()));
        let _ = d.requiring_bytes();
        if grants {
            // What it is not granted lies behind: the end is so much further away.
            d.set_consumable_bytes([0, 1, 1 + ctx.below(20) as u64, u64::MAX][if stall > 5 { 3 } else { ctx.below(4) }]);
        }
        match d.decode(&data[pos..end], eos) {
            Ok(n) => {
                ensure!(n <= end - pos, "overrun", "decode consumed {n} of {} bytes", end - pos);
                pos += n;
                stall = if n == 0 { stall + 1 } else { 0 };
            }
            Err(_) => {
                env.check()?;
                ensure!(eos.is_reached() || want.2.is_some() || c.sc.has_maxb(), "valid-rejected", "valid item rejected");
                return Ok(());
            }
        }
        env.check()?;
        if d.is_idle() {
            match d.finish_decoding() {
                Ok(v) => {
                    ensure!(want.0.first() == Some(&v), "item-wrong", "the item is {}, the wire format says {:?}", short(&v), short(&want.0));
                    ctx.count_item();
                }
                Err(_) => ensure!(want.2.is_some(), "valid-rejected", "valid item rejected when it is taken"),
            }
            return Ok(());
        }
        ensure!(stall < 100, "stall", "no progress at byte {pos} of {}", data.len());
        ensure!(!(eos.is_reached() && pos == data.len() && stall > 20), "stall", "neither item nor error at the end");
    }
}
/// Frames with extreme sizes, counts close to the end of the range.
fn c18_extreme(ctx: &Ctx) -> R {
    let n = EVIL[ctx.below(EVIL.len())];
    let m = ctx.size(1500);
    let data = ctx.bytes(m);
    ctx.fault("extreme-size");
    ctx.note(|| format!("size {n}, {m} bytes"));
    let mode = [EosMode::Late, EosMode::WithLast, EosMode::Finite, EosMode::Mixed][ctx.below(4)];
    let mut feed = Feed::new(ctx, &data, gen_cut(ctx), mode);
    macro_rules! run {
        ($d:expr) => {{
            let mut d = $d;
            let mut stall = 0;
            loop {
                let _ = d.requiring_bytes();
                let (buf, eos) = feed.next();
                match d.decode(buf, eos) {
                    Ok(k) => {
                        ensure!(k <= buf.len(), "overrun", "{k} of {} bytes", buf.len());
                        feed.took(k);
                        ctx.ev("extreme", k as u64, u64::from(d.is_idle()));
                        stall = if k == 0 { stall + 1 } else { 0 };
                        ensure!(stall < 60, "stall", "no progress at byte {}", feed.pos);
                        if d.is_idle() {
                            let r = d.finish_decoding().is_ok();
                            break (feed.pos, Ok(r));
                        }
                    }
                    Err(e) => break (feed.pos, Err(kind_of(&e))),
                }
            }
        }};
    }
    let which = ctx.below(6);
    ctx.abs(&which);
    let got = match which {
        0 => run!(RemainingBytesDecoder::new().length(n)),
        1 => run!(Utf8Decoder::new().length(n)),
        2 => run!(RemainingBytesDecoder::new().length(n).length(EVIL[ctx.below(EVIL.len())])),
        3 => run!(RemainingBytesDecoder::new().length(n).max_bytes(EVIL[ctx.below(EVIL.len())])),
        4 => {
            let a = EVIL[ctx.below(EVIL.len())];
            run!(RemainingBytesDecoder::new().length(n).chain(RemainingBytesDecoder::new().length(a)))
        }
        _ => run!(JsonDecoder::<Value>::new().length(n).peekable()),
    };
    // None of these sizes is there.
    ensure!(n <= m as u64 || got.1.is_err(), "item-invented", "a frame of {n} bytes from {m}: {:?}", got.1);
    Ok(())
}
pub fn c18(ctx: &Ctx) -> R {
    match ctx.weighted(&[7, 2, 1]) {
        0 => c18_stream(ctx),
        1 => c18_overstated(ctx),
        _ => c18_extreme(ctx),
    }
}

// ---------------------------------------------------------------- C22

/// An item whose serialization may fail in the middle.
#[derive(Clone, Debug, PartialEq)]
enum Tricky<T> {
    Good(T),
    /// fails as a sequence, behind so many elements
    Seq(usize),
    /// fails in a field of a struct
    Field(String),
    /// fails at once
    Now,
}
impl<T: Serialize> Serialize for Tricky<T> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::Error;
        struct Bomb;
        impl Serialize for Bomb {
            fn serialize<S: Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
                Err(S::Error::custom("injected"))
            }
        }
        match self {
            Tricky::Good(v) => v.serialize(s),
            Tricky::Now => Err(S::Error::custom("injected")),
            Tricky::Seq(n) => {
                let mut q = s.serialize_seq(Some(n + 1))?;
                for i in 0..*n {
                    q.serialize_element(&(i as u32))?;
                }
                q.serialize_element(&Bomb)?;
                q.end()
            }
            Tricky::Field(f) => {
                let mut q = s.serialize_struct("S", 2)?;
                q.serialize_field("a", f)?;
                q.serialize_field("b", &Bomb)?;
                q.end()
            }
        }
    }
}

/// The two serializers behind one face.
trait Fmt {
    type Enc<T: Serialize>: Encode<Item = T>;
    type Dec<T: DeserializeOwned>: Decode<Item = T>;
    fn enc<T: Serialize>() -> Self::Enc<T>;
    fn dec<T: DeserializeOwned>() -> Self::Dec<T>;
    fn ser<T: Serialize>(t: &T) -> Option<Vec<u8>>;
    fn de<T: DeserializeOwned>(b: &[u8]) -> Option<T>;
    const NAME: &'static str;
}
struct Json;
impl Fmt for Json {
    type Enc<T: Serialize> = JsonEncoder<T>;
    type Dec<T: DeserializeOwned> = JsonDecoder<T>;
    fn enc<T: Serialize>() -> JsonEncoder<T> {
        JsonEncoder::new()
    }
    fn dec<T: DeserializeOwned>() -> JsonDecoder<T> {
        JsonDecoder::new()
    }
    fn ser<T: Serialize>(t: &T) -> Option<Vec<u8>> {
        serde_json::to_vec(t).ok()
    }
    fn de<T: DeserializeOwned>(b: &[u8]) -> Option<T> {
        serde_json::from_slice(b).ok()
    }
    const NAME: &'static str = "json";
}
struct Bincode;
impl Fmt for Bincode {
    type Enc<T: Serialize> = BincodeEncoder<T>;
    type Dec<T: DeserializeOwned> = BincodeDecoder<T>;
    fn enc<T: Serialize>() -> BincodeEncoder<T> {
        BincodeEncoder::new()
    }
    fn dec<T: DeserializeOwned>() -> BincodeDecoder<T> {
        BincodeDecoder::new()
    }
    fn ser<T: Serialize>(t: &T) -> Option<Vec<u8>> {
        bincode::serialize(t).ok()
    }
    fn de<T: DeserializeOwned>(b: &[u8]) -> Option<T> {
        bincode::deserialize(b).ok()
    }
    const NAME: &'static str = "bincode";
}

fn ser_enc<F: Fmt, T: Serialize + Clone + Debug + PartialEq>(ctx: &Ctx, vals: &[T]) -> R {
    let mut items: Vec<Tricky<T>> = vec![];
    for v in vals {
        if ctx.chance(1, 4) {
            items.push(match ctx.below(3) {
                0 => Tricky::Seq(ctx.size(300)),
                1 => Tricky::Field(gen_string(ctx, ctx.size(300))),
                _ => Tricky::Now,
            });
        }
        items.push(Tricky::Good(v.clone()));
    }
    let mut e = F::enc::<Tricky<T>>();
    let mut drain = Drain::new(ctx, None);
    for (i, it) in items.iter().enumerate() {
        let want = F::ser(it);
        ctx.note(|| format!("{} item {}: {}", F::NAME, short(it), want.as_ref().map_or("fails".to_owned(), |w| format!("{} bytes", w.len()))));
        ensure!(e.is_idle(), "not-idle", "not idle in front of item {i}");
        let started = e.start_encoding(it.clone());
        let mut failed = false;
        if let Err(x) = started {
            ensure!(want.is_none(), "refused", "item {i} is refused with {:?}, its serializer accepts it", kind_of(&x));
            ensure!(kind_of(&x) == ErrorKind::InvalidInput, "wrong-kind", "an item that cannot be serialized is refused with {:?}", kind_of(&x));
            failed = true;
        }
        let base = drain.out.len();
        let mut stall = 0;
        while !e.is_idle() {
            if ctx.chance(1, 8) {
                // Refused while busy.
                ctx.fault("start-while-busy");
                match e.start_encoding(Tricky::Now) {
                    Ok(()) => fail!("busy-accepts", "an item is accepted while another is being encoded"),
                    Err(x) => ensure!(kind_of(&x) == ErrorKind::EncoderFull, "busy-kind", "refused with {:?}", kind_of(&x)),
                }
            }
            let hint = want.as_ref().map_or(20, |w| w.len().saturating_sub(drain.out.len() - base));
            let r = drain.step(&mut e, hint)?;
            if let Some(k) = r.err {
                ensure!(want.is_none(), "encode-fails", "encoding item {i} fails with {k:?}, its serializer does not");
                ensure!(!failed, "error-twice", "the failed item {i} is reported twice");
                failed = true;
                ensure!(k == ErrorKind::InvalidInput, "wrong-kind", "a failing serializer is reported as {k:?}");
                ctx.fault("serializer-error");
                ensure!(e.is_idle(), "not-idle", "not idle behind a failed item");
            }
            stall = if r.n == 0 { stall + 1 } else { 0 };
            ensure!(stall < 600, "stall", "no progress in item {i}");
        }
        let got = &drain.out[base..];
        match want {
            Some(w) => {
                ensure!(!failed, "encode-fails", "item {i} failed");
                ensure!(*got == w[..], "wrong-bytes", "item {i} encoded as {}, its serializer gives {}", short(&got), short(&w));
                ctx.count_item();
            }
            None => {
                ensure!(failed, "error-lost", "item {i} cannot be serialized, encoding reports success");
                ensure!(got.is_empty(), "item-from-failure", "{} bytes of the failed item {i} were produced", got.len());
            }
        }
    }
    Ok(())
}

/// Texts at the edges of the JSON grammar.
const ODD_JSON: &[&str] = &[
    "-0", "-0.0", "0", "00", "01", "1.", ".5", "+1", "1e5", "1E+5", "1e-400", "1e400", "-1e400", "1.0", "0.1", "123456789.123456789",
    "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "3.141592653589793238462643383279",
    "\"\"", "\"\\ud83d\\ude00\"", "\"\\ud83d\"", "\"\\ude00\"", "\"\\u00e9\"", "\"\\u00\"", "\"\\/\"", "\"\\x\"", "\"\u{1}\"", "\"\t\"", "\"a",
    "nul", "null", "Null", "true", "TRUE", "false", "NaN", "Infinity", "'a'", "0x1", "1_000", "// c\n1", "/**/1", "1 2", "1,", ",1",
    "[]", "[1,]", "[,1]", "[1 2]", "[1", "]", "{}", "{\"a\":1,\"a\":2}", "{\"a\":1,}", "{a:1}", "{\"a\" 1}", "{\"a\":}", "{\"a\"", "{1:2}", "", " ",
    "\"A\"", "{\"B\":1}", "{\"B\":null}", "[1,2,3]", "[1,-2]", "[4294967296]", "[1.5]", "[300,null,true,\"x\"]", "[5,7,false,\"\u{df}\"]",
    "{\"id\":1,\"name\":\"\",\"tags\":[],\"opt\":null,\"map\":{},\"tree\":\"A\"}",
    "{\"tree\":\"A\",\"id\":1,\"name\":\"\",\"tags\":[],\"map\":{\"x\":1,\"x\":2},\"more\":[{}]}",
    "{\"id\":1,\"id\":2,\"name\":\"\",\"tags\":[],\"opt\":null,\"map\":{},\"tree\":\"A\"}",
    "[1,\"\",[],null,{},\"A\"]",
];

fn ser_dec<F: Fmt, T: Serialize + DeserializeOwned + Clone + Debug + PartialEq>(ctx: &Ctx, vals: &[T]) -> R {
    let mut d = F::dec::<T>();
    let framed = ctx.below(3) == 0;
    for (i, v) in vals.iter().enumerate() {
        let mut data = F::ser(v).expect("harness: serialize");
        if F::NAME == "json" && ctx.below(4) == 0 {
            data = serde_json::to_vec_pretty(v).expect("harness: serialize");
        }
        match ctx.below(6) {
            0 => mutate(ctx, &mut data),
            1 => {
                let n = ctx.below(4);
                data.extend_from_slice([&b" \n"[..], b"\t", b"}", b"\0"][n]);
                ctx.fault("append");
            }
            3 if F::NAME == "json" => {
                ctx.fault("odd-text");
                let t = ODD_JSON[ctx.below(ODD_JSON.len())];
                let t = [t.to_owned(), format!("[{t}]"), format!(" {t}\r\n"), format!("{{\"a\":{t}}}"), format!("\u{feff}{t}")];
                data = t[ctx.weighted(&[8, 2, 2, 2, 1])].clone().into_bytes();
            }
            2 if ctx.below(4) == 0 => {
                ctx.fault("deep");
                let n = [100, 127, 128, 129, 400][ctx.below(5)];
                data = vec![b'['; n];
                if ctx.below(2) == 0 {
                    data.extend(vec![b']'; n]);
                }
            }
            _ => {}
        }
        let want = F::de::<T>(&data);
        ctx.note(|| format!("{} stream {i}: {} -> {}", F::NAME, short(&data), short(&want)));
        let got = if framed {
            let rest_len = ctx.below(20);
            let mut stream = data.clone();
            stream.extend(ctx.bytes(rest_len));
            let mut l = (&mut d as &mut dyn Decode<Item = T>).length(data.len() as u64);
            let mut feed = Feed::new(ctx, &stream, gen_cut(ctx), gen_eos(ctx, true, false));
            let r = ser_drive(ctx, &mut l, &mut feed)?;
            if let Ok(ref v) = r {
                ensure!(feed.pos == data.len(), "wrong-extent", "{} bytes consumed of a frame of {} for {}", feed.pos, data.len(), short(v));
            }
            r
        } else {
            let mode = announce(ctx, false);
            let mut feed = Feed::new(ctx, &data, gen_cut(ctx), mode);
            let r = ser_drive(ctx, &mut d, &mut feed)?;
            if let Ok(ref v) = r {
                ensure!(feed.pos == data.len(), "wrong-extent", "{} of {} bytes consumed for {}", feed.pos, data.len(), short(v));
            }
            r
        };
        match (got, want) {
            (Ok(g), Some(w)) => {
                ensure!(g == w, "item-wrong", "{}: decoded {}, the parser gives {}", F::NAME, short(&g), short(&w));
                ctx.count_item();
            }
            (Err(k), None) => {
                ensure!(k == ErrorKind::InvalidInput, "wrong-kind", "{}: what the parser rejects is rejected with {k:?}", F::NAME);
                ctx.probe("both-reject");
            }
            (Ok(g), None) => fail!("accept-differs", "{}: decoded {}, the parser rejects {}", F::NAME, short(&g), short(&data)),
            (Err(k), Some(w)) => fail!("accept-differs", "{}: rejected with {k:?}, the parser gives {}", F::NAME, short(&w)),
        }
    }
    Ok(())
}
fn ser_drive<T: Debug, D: Decode<Item = T> + ?Sized>(ctx: &Ctx, d: &mut D, feed: &mut Feed) -> R<Result<T, ErrorKind>> {
    let mut stall = 0;
    while !d.is_idle() {
        if ctx.chance(1, 6) {
            ctx.fault("early-finish");
            match d.finish_decoding() {
                Ok(v) => fail!("early-item", "an item before the end: {}", short(&v)),
                Err(e) => ensure!(kind_of(&e) == ErrorKind::IncompleteDecoding, "early-kind", "too early a request fails with {:?}", kind_of(&e)),
            }
        }
        let (buf, eos) = feed.next();
        match d.decode(buf, eos) {
            Ok(n) => {
                ensure!(n <= buf.len(), "overrun", "{n} of {} bytes", buf.len());
                feed.took(n);
                ctx.ev("ser-decode", n as u64, u64::from(d.is_idle()));
                stall = if n == 0 { stall + 1 } else { 0 };
                ensure!(stall < 60, "stall", "no progress at byte {}", feed.pos);
            }
            Err(e) => {
                ensure!(!d.is_idle(), "item-from-failure", "complete behind the error {:?}", kind_of(&e));
                return Ok(Err(kind_of(&e)));
            }
        }
    }
    match d.finish_decoding() {
        Ok(v) => {
            ensure!(!d.is_idle(), "item-twice", "still complete behind the item");
            if let Ok(v) = d.finish_decoding() {
                fail!("item-twice", "a second item from one stream: {}", short(&v));
            }
            Ok(Ok(v))
        }
        Err(e) => Ok(Err(kind_of(&e))),
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Rec {
    id: u64,
    name: String,
    tags: Vec<String>,
    opt: Option<i32>,
    map: BTreeMap<String, f64>,
    tree: Bt5,
}
fn gen_rec(ctx: &Ctx) -> Rec {
    let tree = match gen_bin(ctx, 5, 60) {
        BinVal::T5(t) => t,
        _ => unreachable!(),
    };
    Rec {
        id: ctx.u64(),
        name: gen_string(ctx, ctx.size(200)),
        tags: (0..ctx.below(5)).map(|_| gen_string(ctx, ctx.below(9))).collect(),
        opt: if ctx.below(2) == 0 { None } else { Some(ctx.u64() as i32) },
        map: (0..ctx.below(4)).map(|i| (format!("k{i}"), f64::from(ctx.below(1 << 20) as u32) / 16.0)).collect(),
        tree,
    }
}

/// All kinds of data a serializer tells apart.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wide {
    z: f32,
    a: f64,
    unit: (),
    big: (i128, u128),
    small: (i8, u8, i16, u16, i32, u32, i64, u64),
    c: char,
    nest: Option<Option<Box<Kind>>>,
    kinds: Vec<Kind>,
    map: std::collections::HashMap<u32, Marker>,
    pair: Pair,
    bytes: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Marker;
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Pair(u8, String);
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Kind {
    Unit,
    New(String),
    Tuple(u8, Option<u8>),
    Struct { y: bool, x: Vec<Kind> },
}
impl PartialEq for Wide {
    fn eq(&self, o: &Wide) -> bool {
        (self.z.to_bits(), self.a.to_bits()) == (o.z.to_bits(), o.a.to_bits())
            && (&self.unit, &self.big, &self.small, &self.c, &self.nest) == (&o.unit, &o.big, &o.small, &o.c, &o.nest)
            && (&self.kinds, &self.map, &self.pair, &self.bytes) == (&o.kinds, &o.map, &o.pair, &o.bytes)
    }
}
fn gen_kind(ctx: &Ctx, depth: usize) -> Kind {
    match ctx.below(if depth == 0 { 3 } else { 4 }) {
        0 => Kind::Unit,
        1 => Kind::New(gen_string(ctx, ctx.size(60))),
        2 => Kind::Tuple(ctx.below(256) as u8, if ctx.below(2) == 0 { None } else { Some(ctx.below(256) as u8) }),
        _ => Kind::Struct { y: ctx.below(2) == 0, x: (0..ctx.below(3)).map(|_| gen_kind(ctx, depth - 1)).collect() },
    }
}
fn gen_wide(ctx: &Ctx) -> Wide {
    let r = ctx.u64();
    Wide {
        z: match ctx.below(4) {
            0 => 0.1,
            1 => f32::from_bits(ctx.u64() as u32),
            2 => [0.0, -0.0, f32::MIN_POSITIVE, f32::MAX, f32::INFINITY, f32::NAN, 1e-45][ctx.below(7)],
            _ => ctx.below(1000) as f32 / 7.0,
        },
        a: match ctx.below(4) {
            0 => 0.1,
            1 => f64::from_bits(ctx.u64()),
            2 => [0.0, -0.0, f64::MIN_POSITIVE, f64::MAX, f64::INFINITY, f64::NAN, 5e-324][ctx.below(7)],
            _ => ctx.below(1000) as f64 / 7.0,
        },
        unit: (),
        big: (-(i128::from(r) << ctx.below(64)), u128::from(r) << ctx.below(65)),
        small: (r as i8, (r >> 8) as u8, r as i16, (r >> 9) as u16, r as i32, (r >> 3) as u32, (r >> 1) as i64, r),
        c: gen_string(ctx, 4).chars().next().unwrap_or('c'),
        nest: [None, Some(None), Some(Some(Box::new(Kind::Unit))), Some(Some(Box::new(gen_kind(ctx, 1))))][ctx.below(4)].clone(),
        kinds: (0..ctx.below(4)).map(|_| gen_kind(ctx, 2)).collect(),
        // One entry: the order of more of them is not determined.
        map: (0..ctx.below(2)).map(|_| (ctx.below(500) as u32, Marker)).collect(),
        pair: Pair(r as u8, gen_string(ctx, ctx.below(20))),
        bytes: ctx.bytes(ctx.size(300)),
    }
}

fn ser_case<F: Fmt, T: Serialize + DeserializeOwned + Clone + Debug + PartialEq>(ctx: &Ctx, g: impl Fn() -> T) -> R {
    let vals: Vec<T> = (0..1 + ctx.below(4)).map(|_| g()).collect();
    if ctx.below(2) == 0 {
        ser_enc::<F, T>(ctx, &vals)
    } else {
        ser_dec::<F, T>(ctx, &vals)
    }
}
fn ser_any<F: Fmt>(ctx: &Ctx) -> R {
    let k = ctx.below(6);
    ctx.abs(&(F::NAME, k));
    match k {
        0 => ser_case::<F, Rec>(ctx, || gen_rec(ctx)),
        1 => ser_case::<F, Vec<u32>>(ctx, || (0..ctx.size(400)).map(|_| ctx.u64() as u32).collect()),
        2 => {
            // Rarely as large as any limit somebody might think of.
            let cap = [3000, 70_001, 3 << 20][ctx.weighted(&[3000, 30, 1])];
            ser_case::<F, String>(ctx, || gen_string(ctx, if cap > 80_000 { cap - ctx.size(9000) } else { ctx.size(cap) }))
        }
        5 => ser_case::<F, Wide>(ctx, || gen_wide(ctx)),
        3 => ser_case::<F, (u8, Option<i64>, bool, char)>(ctx, || {
            (ctx.below(256) as u8, if ctx.below(2) == 0 { None } else { Some(ctx.u64() as i64) }, ctx.below(2) == 0, 'ß')
        }),
        _ => ser_case::<F, Bt5>(ctx, || match gen_bin(ctx, 5, 60) {
            BinVal::T5(t) => t,
            _ => unreachable!(),
        }),
    }
}
pub fn c22(ctx: &Ctx) -> R {
    match ctx.below(6) {
        5 => super::mono::custom(ctx),
        0 | 1 => ser_any::<Json>(ctx),
        2 | 3 => ser_any::<Bincode>(ctx),
        _ => ser_case::<Json, Value>(ctx, || gen_json(ctx, 3)),
    }
}

// ---------------------------------------------------------------- C23

fn one_shot_enc(ctx: &Ctx) -> R {
    let c = enc_case(ctx);
    let env = Env::new(ctx);
    let mut e = enc_codec(&c.sc, &env);
    let mut drain = Drain::new(ctx, None);
    let mut start = 0;
    for (i, v) in c.vals.iter().enumerate() {
        let want = &c.data[start..c.ends[i]];
        start = c.ends[i];
        // One encoder serves both ways, in any order.
        for _ in 0..1 + ctx.below(2) {
            if ctx.below(3) == 0 {
                start_ok(&mut e, v.clone())?;
                run_encode(ctx, &mut e, &env, &mut drain, want)?;
            } else {
                ctx.nontrivial();
                let r = e.encode_into_bytes(v.clone());
                env.check()?;
                match r {
                    Ok(b) => ensure!(b == want, "wrong-bytes", "item {i} in one shot: {}, incrementally {}", short(&b), short(&want)),
                    Err(x) => fail!("one-shot-fails", "item {i} fails in one shot with {:?}", kind_of(&x)),
                }
                ensure!(e.is_idle(), "not-idle", "not idle behind the one-shot item {i}");
                ctx.ev("one-shot", want.len() as u64, 0);
            }
        }
        ctx.count_item();
    }
    Ok(())
}
/// A sliced encoder whose grant may be too small for the item.
fn one_shot_granted(ctx: &Ctx) -> R {
    let c = enc_case(ctx);
    let env = Env::new(ctx);
    let mut e = enc_codec(&c.sc, &env).slice();
    let len = c.ends[0];
    let g = [ctx.below(len + 1), len.saturating_sub(1), len, len + 1 + ctx.below(5)][ctx.below(4)];
    e.set_consumable_bytes(g as u64);
    let r = e.encode_into_bytes(c.vals[0].clone());
    env.check()?;
    ctx.ev("one-shot-granted", g as u64, len as u64);
    match r {
        Ok(b) => {
            ensure!(b == c.data[..len], "wrong-bytes", "in one shot with {g} bytes granted: {}, incrementally {}", short(&b), short(&&c.data[..len]));
            ensure!(g >= len, "beyond-grant", "{len} bytes with {g} granted");
        }
        Err(x) => {
            ctx.fault("grant-too-small");
            ensure!(g < len || g == 0, "one-shot-fails", "fails in one shot with {:?}, {g} bytes granted for {len}", kind_of(&x));
        }
    }
    ctx.count_item();
    Ok(())
}
fn pre_enc(ctx: &Ctx) -> R {
    let c = enc_case(ctx);
    let env = Env::new(ctx);
    let mut e = enc_codec(&c.sc, &env).pre_encode();
    let mut drain = Drain::new(ctx, None);
    let mut start = 0;
    ctx.nontrivial();
    for (i, v) in c.vals.iter().enumerate() {
        let want = &c.data[start..c.ends[i]];
        start = c.ends[i];
        ensure!(e.is_idle(), "not-idle", "not idle in front of item {i}");
        if let Err(x) = e.start_encoding(v.clone()) {
            fail!("start-refused", "item {i} is refused with {:?}", kind_of(&x));
        }
        env.check()?;
        let base = drain.out.len();
        let mut stall = 0;
        loop {
            let left = (want.len() - (drain.out.len() - base)) as u64;
            ensure!(e.exact_requiring_bytes() == left, "exact-size", "{left} bytes are left, the exact size is said to be {}", e.exact_requiring_bytes());
            ensure!(e.requiring_bytes() == ByteCount::Finite(left), "exact-size", "{left} bytes are left, required are {:?}", e.requiring_bytes());
            if e.is_idle() {
                break;
            }
            let r = drain.step(&mut e, left as usize)?;
            if let Some(k) = r.err {
                fail!("encode-fails", "item {i} fails with {k:?}");
            }
            let got = &drain.out[base..];
            ensure!(got.len() <= want.len() && *got == want[..got.len()], "wrong-bytes", "item {i}: {} instead of {}", short(&got), short(&want));
            stall = if r.n == 0 { stall + 1 } else { 0 };
            ensure!(stall < 600, "stall", "no progress in item {i}");
        }
        ensure!(drain.out.len() - base == want.len(), "wrong-bytes", "item {i} went idle after {} of {} bytes", drain.out.len() - base, want.len());
        ctx.count_item();
    }
    Ok(())
}
fn last_enc(ctx: &Ctx) -> R {
    let c = enc_case(ctx);
    let env = Env::new(ctx);
    let mut e = enc_codec(&c.sc, &env);
    let mut drain = Drain::new(ctx, None);
    ctx.nontrivial();
    let k = c.vals.len();
    // All but the last item; the one in front of it may be under way.
    let mut want_from = 0;
    for i in 0..k - 1 {
        want_from = if i == 0 { 0 } else { c.ends[i - 1] };
        start_ok(&mut e, c.vals[i].clone())?;
        if i + 2 < k || ctx.below(2) == 0 {
            run_encode(ctx, &mut e, &env, &mut drain, &c.data[want_from..c.ends[i]])?;
        } else {
            for _ in 0..ctx.below(3) {
                if !e.is_idle() {
                    let r = drain.step(&mut e, c.ends[i] - drain.out.len())?;
                    env.check()?;
                    if let Some(x) = r.err {
                        fail!("encode-fails", "item {i} fails with {x:?}");
                    }
                }
            }
        }
    }
    let _ = want_from;
    let mut l = e.last(c.vals[k - 1].clone());
    let mut stall = 0;
    ctx.ev("last", drain.out.len() as u64, c.data.len() as u64);
    while !l.is_idle() {
        if let ByteCount::Finite(n) = l.requiring_bytes() {
            let left = (c.data.len() - drain.out.len()) as u64;
            ensure!(n == left, "exact-size", "{left} bytes are left, required are {n}");
        }
        let before = drain.out.len();
        let r = drain.step(&mut l, c.data.len() - drain.out.len())?;
        env.check()?;
        if let Some(x) = r.err {
            fail!("encode-fails", "the last item fails with {x:?}");
        }
        ensure!(
            drain.out.len() <= c.data.len() && drain.out[before..] == c.data[before..drain.out.len()],
            "wrong-bytes",
            "bytes {before}.. differ from those of the items"
        );
        stall = if r.n == 0 { stall + 1 } else { 0 };
        ensure!(stall < 600, "stall", "no progress at byte {} of {}", drain.out.len(), c.data.len());
    }
    ensure!(drain.out == c.data, "wrong-bytes", "{} bytes instead of {}", drain.out.len(), c.data.len());
    ctx.count_item();
    Ok(())
}
fn endless(ctx: &Ctx) -> R {
    ctx.nontrivial();
    ctx.fault("endless-item");
    let b = ctx.below(256) as u8;
    let kind = match ctx.below(3) {
        0 => PaddingEncoder::new().encode_into_bytes(b).map_err(|e| kind_of(&e)).err(),
        1 => TupleEncoder::new((U8Encoder::new(), PaddingEncoder::new())).encode_into_bytes((b, b)).map_err(|e| kind_of(&e)).err(),
        _ => {
            let mut p = PaddingEncoder::new().pre_encode();
            p.start_encoding(b).map_err(|e| kind_of(&e)).err()
        }
    };
    ensure!(kind == Some(ErrorKind::InvalidInput), "endless", "encoding an endless item in one shot gives {kind:?}");
    // Bounded by a frame it is finite.
    let n = ctx.size(2000);
    match PaddingEncoder::new().length(n as u64).encode_into_bytes(b) {
        Ok(v) => ensure!(v == vec![b; n], "wrong-bytes", "padding of {n}: {}", short(&v)),
        Err(e) => fail!("one-shot-fails", "padding of {n} bytes fails with {:?}", kind_of(&e)),
    }
    // Items given at construction.
    let x = ctx.below(65536) as u16;
    let mut e = U16beEncoder::with_item(x).map_err(|_| crate::core::Viol { class: "start-refused".into(), msg: "with_item".into() })?;
    let mut d = Drain::new(ctx, None);
    while !e.is_idle() {
        let r = d.step(&mut e, 2)?;
        ensure!(r.err.is_none(), "encode-fails", "{:?}", r.err);
    }
    ensure!(d.out == x.to_be_bytes(), "wrong-bytes", "{:?} for {x}", d.out);
    let bytes = ctx.bytes(n);
    match BytesEncoder::with_item(bytes.clone()) {
        Ok(mut e) => {
            ensure!(e.exact_requiring_bytes() == n as u64, "exact-size", "{} for {n} bytes", e.exact_requiring_bytes());
            let mut out = vec![];
            use bytecodec::io::IoEncodeExt;
            ensure!(e.encode_all(&mut out).is_ok() && out == bytes, "wrong-bytes", "{} for {}", short(&out), short(&bytes));
        }
        Err(e) => fail!("start-refused", "with_item fails with {:?}", kind_of(&e)),
    }
    Ok(())
}
fn one_shot_dec(ctx: &Ctx) -> R {
    let c = dec_case(ctx);
    let env = Env::new(ctx);
    let mut d = dec(&c.sc, &env);
    let mut start = 0;
    ctx.nontrivial();
    for (i, v) in c.vals.iter().enumerate() {
        let item = &c.data[start..c.ends[i]];
        start = c.ends[i];
        let last = i + 1 == c.vals.len();
        let mut data = item.to_vec();
        match ctx.below(if last { 5 } else { 1 }) {
            0 | 1 => {}
            2 => {
                if !data.is_empty() {
                    data.truncate(ctx.below(data.len()));
                    ctx.fault("truncate");
                }
            }
            3 => {
                let n = 1 + ctx.below(20);
                data.extend(ctx.bytes(n));
                ctx.fault("append");
            }
            _ => mutate(ctx, &mut data),
        }
        let want = match ref_dec(&c.sc, &data, 0) {
            Ok((v, p)) if p == data.len() => Ok(v),
            Ok((_, p)) => Err(format!("{} bytes are left over", data.len() - p)),
            Err(e) => Err(format!("{e:?}")),
        };
        ctx.note(|| format!("bytes {} for {}", short(&data), short(v)));
        let got = d.decode_from_bytes(&data);
        env.check()?;
        ctx.ev("from-bytes", data.len() as u64, u64::from(got.is_ok()));
        match (got, want) {
            (Ok(g), Ok(w)) => ensure!(g == w, "item-wrong", "{} instead of {}", short(&g), short(&w)),
            (Err(e), Ok(w)) => fail!("valid-rejected", "{:?} instead of {}", kind_of(&e), short(&w)),
            (Ok(g), Err(e)) => fail!("accepts", "{} although {e}", short(&g)),
            (Err(x), Err(e)) => {
                if e.ends_with("left over") {
                    ensure!(kind_of(&x) == ErrorKind::InvalidInput, "wrong-kind", "{:?} although {e}", kind_of(&x));
                }
                return Ok(());
            }
        }
        ctx.count_item();
    }
    Ok(())
}
/// An encoder built together with its item, from its default: the same bytes, and as good as new afterwards.
fn with_item<E: Encode + Default>(ctx: &Ctx, name: &str, items: Vec<(E::Item, Vec<u8>)>) -> R {
    ctx.note(|| format!("{name}: {} items, the first one when it is built", items.len()));
    let mut e: Option<E> = None;
    for (i, (item, want)) in items.into_iter().enumerate() {
        let r = match e {
            None => E::with_item(item).map(|x| e = Some(x)),
            Some(ref mut e) => e.start_encoding(item),
        };
        if let Err(x) = r {
            fail!("valid-rejected", "{name}: item {i} is refused with {:?}", kind_of(&x));
        }
        let e = e.as_mut().expect("built");
        ensure!(want.is_empty() || !e.is_idle(), "item-lost", "{name}: idle with an item of {} bytes", want.len());
        let cap = if ctx.below(3) == 0 { Some(want.len()) } else { None };
        let mut drain = Drain::new(ctx, cap);
        let mut stall = 0;
        while !e.is_idle() {
            let s = drain.step(e, want.len().saturating_sub(drain.out.len()))?;
            if let Some(k) = s.err {
                fail!("encode-fails", "{name}: {k:?} after {} of {} bytes", drain.out.len(), want.len());
            }
            stall = if s.n == 0 { stall + 1 } else { 0 };
            ensure!(stall < 60 || s.offered == 0 && stall < 500, "stall", "{name}: no progress after {} bytes", drain.out.len());
        }
        ensure!(drain.out == want, "wrong-bytes", "{name}: item {i} gives {} instead of {}", short(&drain.out), short(&want));
        ctx.count_item();
    }
    Ok(())
}
/// A decoder built from its default decodes like any other.
fn by_default<D: Decode + Default>(ctx: &Ctx, name: &str, to_eos: bool, items: Vec<(D::Item, Vec<u8>)>) -> R
where
    D::Item: Debug + PartialEq,
{
    ctx.note(|| format!("{name}: {} items by a decoder built from its default", items.len()));
    let mut d = D::default();
    for (i, (want, data)) in items.into_iter().enumerate() {
        let mut feed = Feed::new(ctx, &data, gen_cut(ctx), gen_eos(ctx, !to_eos, false));
        let mut stall = 0;
        while !d.is_idle() {
            let (buf, eos) = feed.next();
            match d.decode(buf, eos) {
                Ok(n) => {
                    feed.took(n);
                    stall = if n == 0 { stall + 1 } else { 0 };
                    ensure!(stall < 60, "stall", "{name}: no progress at byte {}", feed.pos);
                }
                Err(e) => fail!("valid-rejected", "{name}: item {i} is refused with {:?}", kind_of(&e)),
            }
        }
        ensure!(feed.pos == data.len(), "wrong-extent", "{name}: {} of {} bytes", feed.pos, data.len());
        match d.finish_decoding() {
            Ok(v) => ensure!(v == want, "wrong-item", "{name}: item {i} is {} instead of {}", short(&v), short(&want)),
            Err(e) => fail!("valid-rejected", "{name}: item {i} is refused at its end with {:?}", kind_of(&e)),
        }
        ctx.count_item();
    }
    Ok(())
}
fn defaults(ctx: &Ctx) -> R {
    let k = 1 + ctx.below(3);
    let bytes = |ctx: &Ctx| {
        let n = ctx.size(200);
        ctx.bytes(n)
    };
    let text = |ctx: &Ctx| {
        let n = ctx.size(200);
        gen_string(ctx, n)
    };
    macro_rules! n {
        ($($x:expr),*) => { (0..k).map(|_| { $($x)* }).collect::<Vec<_>>() };
    }
    match ctx.below(18) {
        0 => with_item::<U16beEncoder>(ctx, "u16", n!({ let x = ctx.draw(65536) as u16; (x, x.to_be_bytes().to_vec()) })),
        1 => with_item::<BytesEncoder<Vec<u8>>>(ctx, "bytes", n!({ let b = bytes(ctx); (b.clone(), b) })),
        2 => with_item::<Utf8Encoder<String>>(ctx, "text", n!({ let s = text(ctx); (s.clone(), s.into_bytes()) })),
        3 => with_item::<TupleEncoder<(U8Encoder, BytesEncoder<Vec<u8>>)>>(ctx, "tuple", n!({
            let b = bytes(ctx);
            ((b.len() as u8, b.clone()), [&[b.len() as u8][..], &b].concat())
        })),
        4 => with_item::<Repeat<U8Encoder, std::vec::IntoIter<u8>>>(ctx, "repeat", n!({ let b = bytes(ctx); (b.clone().into_iter(), b) })),
        5 => with_item::<Optional<Utf8Encoder<String>>>(ctx, "optional", n!({
            let s = if ctx.below(3) == 0 { None } else { Some(text(ctx)) };
            (s.clone(), s.unwrap_or_default().into_bytes())
        })),
        6 => with_item::<PreEncode<Repeat<U16beEncoder, std::vec::IntoIter<u16>>>>(ctx, "pre-encoded", n!({
            let b: Vec<u16> = bytes(ctx).into_iter().map(|x| u16::from(x) * 257).collect();
            (b.clone().into_iter(), b.iter().flat_map(|x| x.to_be_bytes()).collect())
        })),
        7 => with_item::<JsonEncoder<Value>>(ctx, "json", n!({ let v = gen_json(ctx, 2); (v.clone(), serde_json::to_vec(&v).expect("json")) })),
        8 => with_item::<BincodeEncoder<Rec>>(ctx, "bincode", n!({ let v = gen_rec(ctx); (v.clone(), bincode::serialize(&v).expect("bincode")) })),
        9 => with_item::<NullEncoder>(ctx, "null", n!(((), vec![]))),
        10 => by_default::<U16beDecoder>(ctx, "u16", false, n!({ let x = ctx.draw(65536) as u16; (x, x.to_be_bytes().to_vec()) })),
        11 => by_default::<RemainingBytesDecoder>(ctx, "rest", true, n!({ let b = bytes(ctx); (b.clone(), b) })),
        12 => by_default::<Utf8Decoder>(ctx, "text", true, n!({ let s = text(ctx); (s.clone(), s.into_bytes()) })),
        13 => by_default::<TupleDecoder<(U16beDecoder, RemainingBytesDecoder)>>(ctx, "tuple", true, n!({
            let b = bytes(ctx);
            ((515, b.clone()), [&[2u8, 3][..], &b].concat())
        })),
        14 => by_default::<Peekable<MaybeEos<CopyableBytesDecoder<[u8; 5]>>>>(ctx, "peekable", false, n!({
            let b: [u8; 5] = std::array::from_fn(|_| ctx.draw(256) as u8);
            (b, b.to_vec())
        })),
        15 => by_default::<Collect<U16beDecoder, Vec<u16>>>(ctx, "collect", true, n!({
            let b: Vec<u16> = bytes(ctx).into_iter().map(|x| u16::from(x) * 257).collect();
            (b.clone(), b.iter().flat_map(|x| x.to_be_bytes()).collect())
        })),
        16 => by_default::<JsonDecoder<Value>>(ctx, "json", true, n!({ let v = gen_json(ctx, 2); let b = serde_json::to_vec(&v).expect("json"); (v, b) })),
        _ => by_default::<BincodeDecoder<Rec>>(ctx, "bincode", true, n!({ let v = gen_rec(ctx); let b = bincode::serialize(&v).expect("bincode"); (v, b) })),
    }
}
pub fn c23(ctx: &Ctx) -> R {
    match ctx.weighted(&[10, 8, 8, 2, 12, 1, 3]) {
        6 => defaults(ctx),
        5 => one_shot_granted(ctx),
        0 => one_shot_enc(ctx),
        1 => pre_enc(ctx),
        2 => last_enc(ctx),
        3 => endless(ctx),
        _ => one_shot_dec(ctx),
    }
}
