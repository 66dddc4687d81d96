//! Builds real bytecodec codecs from a schema, with probe nodes between the levels.
use crate::hand::{HandDec, HandEnc};
use crate::core::{viol, BudgetExceeded, Ctx, Viol, R};
use crate::schema::*;
use bytecodec::bincode_codec::{BincodeDecoder, BincodeEncoder};
use bytecodec::bytes::*;
use bytecodec::combinator::Slice;
use bytecodec::slice::OwnedSlice;
use bytecodec::fixnum::*;
use bytecodec::json_codec::{JsonDecoder, JsonEncoder};
use bytecodec::null::{NullDecoder, NullEncoder};
use bytecodec::padding::{PaddingDecoder, PaddingEncoder};
use bytecodec::tuple::{TupleDecoder, TupleEncoder};
use bytecodec::{ByteCount, Decode, DecodeExt, Encode, EncodeExt, Eos, Error, ErrorKind, Result, SizedEncode};
use serde_json::Value;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

/// Shared between the probe nodes of one composition.
pub struct Shared {
    pub ctx: Ctx,
    idle_streak: Cell<u64>,
    viol: RefCell<Option<Viol>>,
    /// check advertised counts at every level (C06)
    pub counts: Cell<bool>,
    /// check consumption contract at every level (C04/C05)
    pub greedy: Cell<bool>,
    pub builds: Cell<u64>,
    /// parts work under limited grants now and then
    pub granted: Cell<bool>,
    /// parts hide their need now and then
    pub vague: Cell<bool>,
}
#[derive(Clone)]
pub struct Env(pub Rc<Shared>);
impl Env {
    pub fn new(ctx: &Ctx) -> Self {
        Env(Rc::new(Shared {
            ctx: ctx.clone(),
            idle_streak: Cell::new(0),
            viol: RefCell::new(None),
            counts: Cell::new(false),
            greedy: Cell::new(false),
            builds: Cell::new(0),
            granted: Cell::new(false),
            vague: Cell::new(true),
        }))
    }
    fn tick(&self, progress: bool) {
        if progress {
            self.0.idle_streak.set(0);
        } else {
            let n = self.0.idle_streak.get() + 1;
            self.0.idle_streak.set(n);
            if n > 60_000 {
                std::panic::panic_any(BudgetExceeded("codec calls without progress"));
            }
        }
    }
    pub fn report(&self, class: &str, msg: String) {
        let mut v = self.0.viol.borrow_mut();
        if v.is_none() {
            *v = Some(Viol { class: class.to_owned(), msg });
        }
    }
    /// The first violation a probe node has seen.
    pub fn check(&self) -> R {
        match self.0.viol.borrow_mut().take() {
            Some(v) => viol(&v.class, v.msg),
            None => Ok(()),
        }
    }
}

pub type BoxDec = Box<dyn Decode<Item = Val>>;
pub type BoxEnc = Box<dyn SizedEncode<Item = Val>>;

/// Probe around a decoder.
pub struct PD {
    inner: BoxDec,
    env: Env,
    name: &'static str,
    to_eos: bool,
    consumed: u64,
    claim: u64,
    claimed_zero_at: Option<u64>,
}
impl PD {
    fn observe(&mut self) {
        let idle = self.inner.is_idle();
        match self.inner.requiring_bytes() {
            ByteCount::Finite(n) => {
                if idle && n != 0 {
                    self.env.report("count-idle", format!("{}: idle decoder requires {n} bytes", self.name));
                }
                if n == 0 {
                    self.claimed_zero_at.get_or_insert(self.consumed);
                }
                self.claim = self.claim.max(self.consumed.saturating_add(n));
            }
            other => {
                if idle {
                    self.env.report("count-idle", format!("{}: idle decoder requires {other:?}", self.name));
                }
                if other == ByteCount::Infinite && !self.to_eos {
                    self.env.report("count-infinite", format!("{}: requires infinitely many bytes for an item that does not run to the end of the stream", self.name));
                }
            }
        }
        if idle && !self.to_eos && self.claim > self.consumed {
            self.env.report(
                "count-too-high",
                format!("{}: complete after {} bytes although {} were claimed to be needed", self.name, self.consumed, self.claim),
            );
        }
    }
}
impl Decode for PD {
    type Item = Val;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        let counts = self.env.0.counts.get();
        let greedy = self.env.0.greedy.get();
        if counts {
            self.observe();
        }
        let idle0 = greedy && self.inner.is_idle();
        let r = self.inner.decode(buf, eos);
        self.env.tick(matches!(r, Ok(n) if n > 0));
        if let Ok(n) = r {
            if n > buf.len() {
                self.env.report("overrun", format!("{}: consumed {n} of {} bytes", self.name, buf.len()));
            }
            if greedy {
                if idle0 && n > 0 {
                    self.env.report("idle-consumes", format!("{}: idle decoder consumed {n} bytes", self.name));
                }
                if n < buf.len() && !self.inner.is_idle() {
                    self.env.report(
                        "not-greedy",
                        format!("{}: consumed {n} of {} bytes and is still not idle", self.name, buf.len()),
                    );
                }
            }
            self.consumed += n as u64;
            if counts {
                if let Some(at) = self.claimed_zero_at {
                    if self.consumed > at {
                        self.env.report("count-zero", format!("{}: consumed bytes after claiming to need none", self.name));
                    }
                }
                self.observe();
            }
        }
        r
    }
    fn finish_decoding(&mut self) -> Result<Val> {
        let r = self.inner.finish_decoding();
        self.env.tick(r.is_ok() && self.consumed > 0);
        if r.is_ok() {
            self.consumed = 0;
            self.claim = 0;
            self.claimed_zero_at = None;
        }
        r
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.inner.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.inner.is_idle()
    }
}

/// Gives a codec that is not `SizedEncode` the type of one; the harness never asks it for an exact size.
pub struct Uns<E>(pub E);
impl<E: Encode> Encode for Uns<E> {
    type Item = E::Item;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        self.0.encode(buf, eos)
    }
    fn start_encoding(&mut self, item: Self::Item) -> Result<()> {
        self.0.start_encoding(item)
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}
impl<E: Encode> SizedEncode for Uns<E> {
    fn exact_requiring_bytes(&self) -> u64 {
        panic!("harness: exact size of an unsized encoder")
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Endless {
    Never,
    Sometimes,
    Always,
}
fn endless(sc: &Sc) -> Endless {
    match sc {
        Sc::Pad(..) => Endless::Always,
        Sc::Tup(v, _) => v.last().map_or(Endless::Never, |x| endless(x)),
        Sc::Map(x) | Sc::TryMap(x) | Sc::MapErr(x) | Sc::MaxB(_, x) | Sc::Slice(x) => endless(x),
        Sc::Len(..) | Sc::Pre(..) => Endless::Never,
        s if s.any(&|x| matches!(x, Sc::Pad(..))) => Endless::Sometimes,
        _ => Endless::Never,
    }
}

/// Probe around an encoder.
pub struct PE {
    inner: BoxEnc,
    pub sized: bool,
    env: Env,
    name: &'static str,
    /// whether the item ends only with the output
    endless: Endless,
    produced: u64,
    /// (produced at the time, total claimed)
    claim: Option<u64>,
    active: bool,
}
impl PE {
    fn observe(&mut self) {
        let idle = self.inner.is_idle();
        let req = self.inner.requiring_bytes();
        if idle && req != ByteCount::Finite(0) {
            self.env.report("count-idle", format!("{}: idle encoder requires {req:?}", self.name));
        }
        if self.sized {
            let ex = self.inner.exact_requiring_bytes();
            if req != ByteCount::Finite(ex) {
                self.env.report("count-exact", format!("{}: requires {req:?} but exactly {ex}", self.name));
            }
        }
        if !self.active {
            return;
        }
        if req == ByteCount::Infinite && self.endless == Endless::Never {
            self.env.report("count-infinite", format!("{}: infinitely many bytes advertised for an item that ends", self.name));
        }
        if req != ByteCount::Infinite && self.endless == Endless::Always && !idle {
            self.env.report("count-finite", format!("{}: {req:?} advertised for an item without end", self.name));
        }
        if let ByteCount::Finite(n) = req {
            let total = self.produced.saturating_add(n);
            match self.claim {
                None => self.claim = Some(total),
                Some(t) if t != total => {
                    self.env.report("count-drift", format!("{}: claimed {t} bytes in total, now {total}", self.name));
                }
                _ => {}
            }
        }
        if idle {
            if let Some(t) = self.claim {
                if t != self.produced {
                    self.env.report("count-wrong", format!("{}: claimed {t} bytes, produced {}", self.name, self.produced));
                }
            }
            self.active = false;
        }
    }
}
impl Encode for PE {
    type Item = Val;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        let counts = self.env.0.counts.get();
        let greedy = self.env.0.greedy.get();
        if counts {
            self.observe();
        }
        let idle0 = greedy && self.inner.is_idle();
        let r = self.inner.encode(buf, eos);
        self.env.tick(matches!(r, Ok(n) if n > 0));
        if let Ok(n) = r {
            if n > buf.len() {
                self.env.report("overrun", format!("{}: claims {n} bytes written to a buffer of {}", self.name, buf.len()));
            }
            if greedy {
                if idle0 && n > 0 {
                    self.env.report("idle-produces", format!("{}: idle encoder produced {n} bytes", self.name));
                }
                if n < buf.len() && !self.inner.is_idle() {
                    self.env.report("not-greedy", format!("{}: wrote {n} of {} bytes and is still not idle", self.name, buf.len()));
                }
            }
            self.produced += n as u64;
            if counts {
                self.observe();
            }
        }
        r
    }
    fn start_encoding(&mut self, item: Val) -> Result<()> {
        self.env.tick(true);
        let r = self.inner.start_encoding(item);
        if r.is_ok() {
            self.produced = 0;
            self.claim = None;
            self.active = true;
            if self.env.0.counts.get() {
                self.observe();
            }
        }
        r
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.inner.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.inner.is_idle()
    }
}
impl SizedEncode for PE {
    fn exact_requiring_bytes(&self) -> u64 {
        self.inner.exact_requiring_bytes()
    }
}

fn pd<D: Decode<Item = Val> + 'static>(d: D, sc: &Sc, env: &Env, name: &'static str) -> PD {
    env.0.builds.set(env.0.builds.get() + 1);
    let inner: BoxDec = match env.0.ctx.draw(16) {
        8.. if env.0.granted.get() => Box::new(Granted::new(d.slice(), env)),
        15 => Box::new(ByRef(RefCell::new(d))),
        14 if matches!(sc, Sc::Fix(_)) => Box::new(Plain(d)),
        13 if env.0.vague.get() => Box::new(Vague(d, env.0.ctx.below(2) == 1)),
        _ => Box::new(d),
    };
    PD {
        inner,
        env: env.clone(),
        name,
        to_eos: sc.to_eos(),
        consumed: 0,
        claim: 0,
        claimed_zero_at: None,
    }
}

/// A codec of somebody else's that relies on the default for being idle: nothing more is required.
struct Plain<T>(T);
impl<D: Decode> Decode for Plain<D> {
    type Item = D::Item;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        self.0.decode(buf, eos)
    }
    fn finish_decoding(&mut self) -> Result<D::Item> {
        self.0.finish_decoding()
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
}
impl<E: Encode> Encode for Plain<E> {
    type Item = E::Item;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        self.0.encode(buf, eos)
    }
    fn start_encoding(&mut self, item: E::Item) -> Result<()> {
        self.0.start_encoding(item)
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
}
impl<E: SizedEncode> SizedEncode for Plain<E> {
    fn exact_requiring_bytes(&self) -> u64 {
        self.0.exact_requiring_bytes()
    }
}

/// A codec of somebody else's that does not know how many bytes it needs (or only that it needs one, `true`).
pub struct Vague<T>(pub T, pub bool);
impl<D: Decode> Decode for Vague<D> {
    type Item = D::Item;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        self.0.decode(buf, eos)
    }
    fn finish_decoding(&mut self) -> Result<D::Item> {
        self.0.finish_decoding()
    }
    fn requiring_bytes(&self) -> ByteCount {
        match self.0.requiring_bytes() {
            ByteCount::Finite(0) => ByteCount::Finite(0),
            ByteCount::Finite(_) if self.1 => ByteCount::Finite(1),
            _ => ByteCount::Unknown,
        }
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}
impl<E: Encode> Encode for Vague<E> {
    type Item = E::Item;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        self.0.encode(buf, eos)
    }
    fn start_encoding(&mut self, item: E::Item) -> Result<()> {
        self.0.start_encoding(item)
    }
    fn requiring_bytes(&self) -> ByteCount {
        match self.0.requiring_bytes() {
            ByteCount::Finite(n) if n > 0 => ByteCount::Unknown,
            r => r,
        }
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}
impl<E: SizedEncode> SizedEncode for Vague<E> {
    fn exact_requiring_bytes(&self) -> u64 {
        self.0.exact_requiring_bytes()
    }
}

/// Drives a codec through the implementations of the traits for `&mut`.
pub struct ByRef<T>(RefCell<T>);
impl<D: Decode> Decode for ByRef<D> {
    type Item = D::Item;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        <&mut D as Decode>::decode(&mut self.0.get_mut(), buf, eos)
    }
    fn finish_decoding(&mut self) -> Result<D::Item> {
        <&mut D as Decode>::finish_decoding(&mut self.0.get_mut())
    }
    fn requiring_bytes(&self) -> ByteCount {
        <&mut D as Decode>::requiring_bytes(&&mut *self.0.borrow_mut())
    }
    fn is_idle(&self) -> bool {
        <&mut D as Decode>::is_idle(&&mut *self.0.borrow_mut())
    }
}
impl<E: Encode> Encode for ByRef<E> {
    type Item = E::Item;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        <&mut E as Encode>::encode(&mut self.0.get_mut(), buf, eos)
    }
    fn start_encoding(&mut self, item: E::Item) -> Result<()> {
        <&mut E as Encode>::start_encoding(&mut self.0.get_mut(), item)
    }
    fn requiring_bytes(&self) -> ByteCount {
        <&mut E as Encode>::requiring_bytes(&&mut *self.0.borrow_mut())
    }
    fn is_idle(&self) -> bool {
        <&mut E as Encode>::is_idle(&&mut *self.0.borrow_mut())
    }
}
impl<E: SizedEncode> SizedEncode for ByRef<E> {
    fn exact_requiring_bytes(&self) -> u64 {
        <&mut E as SizedEncode>::exact_requiring_bytes(&&mut *self.0.borrow_mut())
    }
}

/// A sliced codec whose grant is chosen anew for every call.
///
/// If the grant covers the whole piece, a call that announces the end completes the item or fails.
pub struct Granted<T> {
    pub inner: Slice<T>,
    env: Env,
    zero: bool,
}
impl<T> Granted<T> {
    pub fn new(inner: Slice<T>, env: &Env) -> Self {
        Granted { inner, env: env.clone(), zero: false }
    }
    fn grant(&mut self, len: usize) -> u64 {
        let ctx = &self.env.0.ctx;
        let n = match ctx.weighted(&[3, 5, 2, 3, if self.zero { 0 } else { 1 }]) {
            0 => u64::MAX,
            1 => len as u64,
            2 => len as u64 + 1 + ctx.draw(9),
            3 => 1 + ctx.draw(1 + len as u64),
            _ => 0,
        };
        self.zero = n == 0;
        if n < len as u64 {
            ctx.fault("partial-grant");
        } else if n == len as u64 && len > 0 {
            ctx.probe("grant-ends-with-piece");
        }
        self.inner.set_consumable_bytes(n);
        n
    }
    fn judge(&self, grant: u64, len: usize, n: usize, idle: bool, eos: Eos) {
        if n as u64 > grant {
            self.env.report("beyond-grant", format!("{n} bytes with a grant of {grant}"));
        }
        if self.inner.consumable_bytes() != grant.saturating_sub(n as u64) {
            self.env.report("grant-count", format!("grant of {grant}, {n} bytes used, {} left", self.inner.consumable_bytes()));
        }
        if eos.is_reached() && grant >= len as u64 && !idle && !self.env.0.granted.get() {
            self.env.report("eos-missed", format!("the end was announced with the last {len} bytes, all of them granted, and success reported inside an item"));
        }
    }
}
impl<D: Decode> Decode for Granted<D> {
    type Item = D::Item;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        let g = self.grant(buf.len());
        let r = self.inner.decode(buf, eos);
        if let Ok(n) = r {
            self.judge(g, buf.len(), n, self.inner.is_idle(), eos);
        }
        r
    }
    fn finish_decoding(&mut self) -> Result<D::Item> {
        self.inner.finish_decoding()
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.inner.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.inner.is_idle()
    }
}
impl<E: Encode> Encode for Granted<E> {
    type Item = E::Item;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        let g = self.grant(buf.len());
        let r = self.inner.encode(buf, eos);
        if let Ok(n) = r {
            self.judge(g, buf.len(), n, self.inner.is_idle(), eos);
        }
        r
    }
    fn start_encoding(&mut self, item: E::Item) -> Result<()> {
        self.inner.start_encoding(item)
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.inner.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.inner.is_idle()
    }
}
impl<E: SizedEncode> SizedEncode for Granted<E> {
    fn exact_requiring_bytes(&self) -> u64 {
        self.inner.exact_requiring_bytes()
    }
}

/// Wraps any decoder of values in a probe node.
pub fn probe_dec<D: Decode<Item = Val> + 'static>(d: D, to_eos: bool, env: &Env, name: &'static str) -> PD {
    PD { inner: Box::new(d), env: env.clone(), name, to_eos, consumed: 0, claim: 0, claimed_zero_at: None }
}
pub fn probe_enc<E: SizedEncode<Item = Val> + 'static>(e: E, sized: bool, env: &Env, name: &'static str) -> PE {
    PE { inner: Box::new(e), sized, env: env.clone(), name, endless: Endless::Sometimes, produced: 0, claim: None, active: false }
}

macro_rules! arr_dec {
    ($n:expr, $sc:expr, $env:expr, [$($k:literal),*]) => {
        match $n {
            $($k => pd(CopyableBytesDecoder::new([0u8; $k]).map(|b: [u8; $k]| Val::B(b.to_vec())), $sc, $env, "bytes"),)*
            n => unreachable!("harness: array size {n}"),
        }
    };
}

pub fn fix_dec(f: Fix, sc: &Sc, env: &Env) -> PD {
    macro_rules! m {
        ($be:ident, $le:ident, $f:expr) => {
            if f.le { pd($le::new().map($f), sc, env, "fixnum") } else { pd($be::new().map($f), sc, env, "fixnum") }
        };
    }
    match f.t {
        FixT::U8 => m!(U8Decoder, U8Decoder, |x| Val::U(u64::from(x))),
        FixT::I8 => m!(I8Decoder, I8Decoder, |x| Val::I(i64::from(x))),
        FixT::U16 => m!(U16beDecoder, U16leDecoder, |x| Val::U(u64::from(x))),
        FixT::I16 => m!(I16beDecoder, I16leDecoder, |x| Val::I(i64::from(x))),
        FixT::U24 => m!(U24beDecoder, U24leDecoder, |x| Val::U(u64::from(x))),
        FixT::U32 => m!(U32beDecoder, U32leDecoder, |x| Val::U(u64::from(x))),
        FixT::I32 => m!(I32beDecoder, I32leDecoder, |x| Val::I(i64::from(x))),
        FixT::U40 => m!(U40beDecoder, U40leDecoder, Val::U),
        FixT::U48 => m!(U48beDecoder, U48leDecoder, Val::U),
        FixT::U56 => m!(U56beDecoder, U56leDecoder, Val::U),
        FixT::U64 => m!(U64beDecoder, U64leDecoder, Val::U),
        FixT::I64 => m!(I64beDecoder, I64leDecoder, Val::I),
        FixT::F32 => m!(F32beDecoder, F32leDecoder, |x: f32| Val::F32(x.to_bits())),
        FixT::F64 => m!(F64beDecoder, F64leDecoder, |x: f64| Val::F64(x.to_bits())),
    }
}

pub fn fix_enc(f: Fix, env: &Env) -> PE {
    macro_rules! m {
        ($be:ident, $le:ident, $f:expr) => {
            if f.le { pe($le::new().map_from($f), true, env, "fixnum") } else { pe($be::new().map_from($f), true, env, "fixnum") }
        };
    }
    match f.t {
        FixT::U8 => m!(U8Encoder, U8Encoder, |v: Val| v.u() as u8),
        FixT::I8 => m!(I8Encoder, I8Encoder, |v: Val| v.raw() as i64 as i8),
        FixT::U16 => m!(U16beEncoder, U16leEncoder, |v: Val| v.u() as u16),
        FixT::I16 => m!(I16beEncoder, I16leEncoder, |v: Val| v.raw() as i64 as i16),
        FixT::U24 => m!(U24beEncoder, U24leEncoder, |v: Val| v.u() as u32),
        FixT::U32 => m!(U32beEncoder, U32leEncoder, |v: Val| v.u() as u32),
        FixT::I32 => m!(I32beEncoder, I32leEncoder, |v: Val| v.raw() as i64 as i32),
        FixT::U40 => m!(U40beEncoder, U40leEncoder, |v: Val| v.u()),
        FixT::U48 => m!(U48beEncoder, U48leEncoder, |v: Val| v.u()),
        FixT::U56 => m!(U56beEncoder, U56leEncoder, |v: Val| v.u()),
        FixT::U64 => m!(U64beEncoder, U64leEncoder, |v: Val| v.u()),
        FixT::I64 => m!(I64beEncoder, I64leEncoder, |v: Val| v.raw() as i64),
        FixT::F32 => m!(F32beEncoder, F32leEncoder, |v: Val| f32::from_bits(v.raw() as u32)),
        FixT::F64 => m!(F64beEncoder, F64leEncoder, |v: Val| f64::from_bits(v.raw())),
    }
}

fn refuse<T>(what: &str) -> Result<T> {
    Err(ErrorKind::InvalidInput.into_err(what))
}
pub trait IntoErr {
    fn into_err(self, what: &str) -> Error;
}
impl IntoErr for ErrorKind {
    fn into_err(self, what: &str) -> Error {
        use trackable::error::ErrorKindExt;
        self.cause(what.to_owned()).into()
    }
}
pub fn invalid(what: &str) -> Error {
    ErrorKind::InvalidInput.into_err(what)
}

/// Whether a sequence of parts is one that a user has written.
fn by_hand(env: &Env) -> bool {
    let ctx = &env.0.ctx;
    if ctx.by_hand() {
        ctx.chance(3, 4)
    } else {
        ctx.chance(1, 8)
    }
}

pub fn dec(sc: &S, env: &Env) -> PD {
    match &**sc {
        Sc::Fix(f) => fix_dec(*f, sc, env),
        Sc::Null => pd(NullDecoder.map(|()| Val::Unit), sc, env, "null"),
        Sc::Arr(n) => arr_dec!(*n, sc, env, [0, 1, 2, 3, 4, 5, 7, 16, 33, 300]),
        Sc::One(n) if env.0.ctx.chance(1, 3) => {
            // The item is a window of a larger buffer, whose other bytes stay as they are.
            let n = *n;
            let (a, b) = (env.0.ctx.below(4), env.0.ctx.below(4));
            let d = BytesDecoder::new(OwnedSlice::new(vec![0x77u8; a + n + b], a, a + n));
            let e = env.clone();
            let f = move |s: OwnedSlice<Vec<u8>>| {
                let v = s.as_ref().to_vec();
                let all = s.into_inner();
                if all.len() != a + n + b || all[..a].iter().chain(&all[a + n..]).any(|&x| x != 0x77) {
                    e.report("outside-slice", format!("bytes outside of the window {a}..{} changed: {all:?}", a + n));
                }
                Val::B(v)
            };
            pd(d.map(f), sc, env, "oneshot-window")
        }
        Sc::One(n) => pd(BytesDecoder::new(vec![0u8; *n]).map(Val::B), sc, env, "oneshot-bytes"),
        Sc::Str(n) => pd(Utf8Decoder::with_bytes_decoder(BytesDecoder::new(vec![0u8; *n])).map(Val::S), sc, env, "oneshot-utf8"),
        Sc::StrL(n) => {
            let d = RemainingBytesDecoder::new().length(*n as u64);
            pd(Utf8Decoder::with_bytes_decoder(d).map(Val::S), sc, env, "utf8-length")
        }
        Sc::Len(n, x) => pd(dec(x, env).length(*n), sc, env, "length"),
        Sc::Pre(f, x) => {
            let (x, e) = (x.clone(), env.clone());
            let f = fix_dec(*f, &Sc::Null, env);
            pd(f.and_then(move |n| dec(&x, &e).length(n.u())), sc, env, "length-prefixed")
        }
        Sc::Cnt(f, x) => {
            let (x, e) = (x.clone(), env.clone());
            let f = fix_dec(*f, &Sc::Null, env);
            pd(f.and_then(move |n| dec(&x, &e).collectn::<Vec<Val>>(n.u() as usize)).map(Val::L), sc, env, "count-prefixed")
        }
        Sc::CollN(n, x) => pd(dec(x, env).collectn::<Vec<Val>>(*n).map(Val::L), sc, env, "collectn"),
        Sc::Tup(xs, chain) => {
            let mut v: Vec<PD> = xs.iter().map(|x| dec(x, env)).collect();
            if by_hand(env) {
                return pd(HandDec::new(v, env), sc, env, "by-hand");
            }
            let mut it = v.drain(..);
            let mut nx = || it.next().expect("harness");
            macro_rules! t {
                ($($i:ident),*) => {{
                    let t = TupleDecoder::new(($({ let $i = nx(); $i }),*));
                    pd(t.map(|($($i),*)| Val::L(vec![$($i),*])), sc, env, "tuple")
                }};
            }
            match xs.len() {
                2 if *chain => {
                    let a = nx();
                    let b = nx();
                    pd(a.chain(b).map(|(a, b)| Val::L(vec![a, b])), sc, env, "chain")
                }
                2 => t!(a, b),
                3 => t!(a, b, c),
                4 => t!(a, b, c, d),
                5 => t!(a, b, c, d, e),
                6 => t!(a, b, c, d, e, f),
                7 => t!(a, b, c, d, e, f, g),
                8 => t!(a, b, c, d, e, f, g, h),
                n => unreachable!("harness: tuple arity {n}"),
            }
        }
        Sc::Map(x) => pd(dec(x, env).map(|v| Val::Tag(Box::new(v))), sc, env, "map"),
        Sc::TryMap(x) => {
            let y = x.clone();
            let f = move |v: Val| if rejected(&y, &v) { refuse("rejected value") } else { Ok(v) };
            pd(dec(x, env).try_map(f), sc, env, "try_map")
        }
        Sc::MapErr(x) => pd(dec(x, env).map_err(|e: Error| e), sc, env, "map_err"),
        Sc::Omit(o, x) => pd(dec(x, env).omit(*o).map(|o| Val::O(o.map(Box::new))), sc, env, "omit"),
        Sc::Flag(x) => {
            let (x, e) = (x.clone(), env.clone());
            let d = fix_dec(Fix { t: FixT::U8, le: false }, &Sc::Null, env);
            pd(d.and_then(move |f| dec(&x, &e).omit(f.u() == 0)).map(|o| Val::O(o.map(Box::new))), sc, env, "flag")
        }
        Sc::MaxB(m, x) => pd(dec(x, env).max_bytes(*m), sc, env, "max_bytes"),
        Sc::Slice(x) => {
            let mut d = dec(x, env).slice();
            d.set_consumable_bytes(u64::MAX);
            pd(d, sc, env, "slice")
        }
        Sc::Peek(x) => pd(dec(x, env).peekable(), sc, env, "peekable"),
        Sc::Maybe(x) => pd(dec(x, env).maybe_eos(), sc, env, "maybe_eos"),
        Sc::Rest => pd(RemainingBytesDecoder::new().map(Val::B), sc, env, "remaining-bytes"),
        Sc::Utf8 => pd(Utf8Decoder::new().map(Val::S), sc, env, "utf8"),
        Sc::Pad(b, strict) => pd(PaddingDecoder::new(if *strict { Some(*b) } else { None }).map(|()| Val::Unit), sc, env, "padding"),
        Sc::Coll(x) => pd(dec(x, env).collect::<Vec<Val>>().map(Val::L), sc, env, "collect"),
        Sc::Json => pd(JsonDecoder::<Value>::new().map(Val::J), sc, env, "json"),
        Sc::Bin(k) => match k {
            0 => pd(BincodeDecoder::<Bt0>::new().map(|x| Val::Bin(BinVal::T0(x))), sc, env, "bincode"),
            1 => pd(BincodeDecoder::<Bt1>::new().map(|x| Val::Bin(BinVal::T1(x))), sc, env, "bincode"),
            2 => pd(BincodeDecoder::<Bt2>::new().map(|x| Val::Bin(BinVal::T2(x))), sc, env, "bincode"),
            3 => pd(BincodeDecoder::<Bt3>::new().map(|x| Val::Bin(BinVal::T3(x))), sc, env, "bincode"),
            4 => pd(BincodeDecoder::<Bt4>::new().map(|x| Val::Bin(BinVal::T4(x))), sc, env, "bincode"),
            _ => pd(BincodeDecoder::<Bt5>::new().map(|x| Val::Bin(BinVal::T5(x))), sc, env, "bincode"),
        },
    }
}

fn pe<E: SizedEncode<Item = Val> + 'static>(e: E, sized: bool, env: &Env, name: &'static str) -> PE {
    match env.0.ctx.draw(16) {
        8.. if env.0.granted.get() => return probe_enc(Granted::new(bytecodec::EncodeExt::slice(e), env), sized, env, name),
        15 => return probe_enc(ByRef(RefCell::new(e)), sized, env, name),
        14 if name == "fixnum" => return probe_enc(Plain(e), sized, env, name),
        13 if !sized && env.0.vague.get() => return probe_enc(Vague(e, false), sized, env, name),
        _ => {}
    }
    probe_enc(e, sized, env, name)
}

macro_rules! bin_enc {
    ($t:ident, $v:ident, $env:expr) => {
        pe(
            Uns(BincodeEncoder::<$t>::new().map_from(|v: Val| match v {
                Val::Bin(BinVal::$v(x)) => x,
                v => panic!("harness: {v:?}"),
            })),
            false,
            $env,
            "bincode",
        )
    };
}

pub fn enc_codec(sc: &S, env: &Env) -> PE {
    // What is encoded ahead of time must not be suspended.
    let g = env.0.granted.get();
    if matches!(**sc, Sc::Peek(_) | Sc::Pre(..)) {
        env.0.granted.set(false);
    }
    let mut e = enc_codec_of(sc, env);
    env.0.granted.set(g);
    e.endless = endless(sc);
    e
}
fn enc_codec_of(sc: &S, env: &Env) -> PE {
    match &**sc {
        Sc::Fix(f) => fix_enc(*f, env),
        Sc::Null => pe(NullEncoder.map_from(|_: Val| ()), true, env, "null"),
        Sc::Arr(4) => pe(
            BytesEncoder::<[u8; 4]>::new().map_from(|v: Val| {
                let b = v.b();
                [b[0], b[1], b[2], b[3]]
            }),
            true,
            env,
            "bytes",
        ),
        Sc::Arr(_) | Sc::One(_) | Sc::Rest if env.0.ctx.chance(1, 4) => {
            let (a, b) = (env.0.ctx.below(4), env.0.ctx.below(4));
            let f = move |v: Val| {
                let v = v.b();
                let mut w = vec![0x77u8; a];
                w.extend_from_slice(&v);
                w.extend(vec![0x78u8; b]);
                OwnedSlice::new(w, a, a + v.len())
            };
            pe(BytesEncoder::<OwnedSlice<Vec<u8>>>::new().map_from(f), true, env, "bytes-window")
        }
        Sc::Arr(_) | Sc::One(_) | Sc::Rest => pe(BytesEncoder::<Vec<u8>>::new().map_from(|v: Val| v.b()), true, env, "bytes"),
        Sc::Str(_) | Sc::StrL(_) | Sc::Utf8 => pe(Utf8Encoder::<String>::new().map_from(|v: Val| v.s()), true, env, "utf8"),
        Sc::Len(n, x) => pe(enc_codec(x, env).length(*n), true, env, "length"),
        Sc::Pre(f, x) => {
            let y = x.clone();
            let body = enc_codec(x, env);
            let head = fix_enc(*f, env);
            let fun = move |v: Val| {
                let n = if v.contains_bad() { 0 } else { enc(&y, &v).len() as u64 };
                (Val::U(n), v)
            };
            if body.sized {
                pe(TupleEncoder::new((head, body)).map_from(fun), true, env, "length-prefixed")
            } else {
                pe(TupleEncoder::new((head, body.pre_encode())).map_from(fun), true, env, "length-prefixed")
            }
        }
        Sc::Cnt(f, x) => {
            let head = fix_enc(*f, env);
            let body = enc_codec(x, env).repeat::<std::vec::IntoIter<Val>>();
            let fun = |v: Val| {
                let l = v.l();
                (Val::U(l.len() as u64), l.into_iter())
            };
            pe(Uns(TupleEncoder::new((head, body)).map_from(fun)), false, env, "count-prefixed")
        }
        Sc::CollN(_, x) | Sc::Coll(x) => {
            let body = enc_codec(x, env).repeat::<std::vec::IntoIter<Val>>();
            pe(Uns(body.map_from(|v: Val| v.l().into_iter())), false, env, "repeat")
        }
        Sc::Tup(xs, chain) => {
            let mut v: Vec<PE> = xs.iter().map(|x| enc_codec(x, env)).collect();
            let sized = v.iter().all(|e| e.sized);
            if by_hand(env) {
                return pe(HandEnc::new(v, env), sized, env, "by-hand");
            }
            let mut it = v.drain(..);
            let mut nx = || it.next().expect("harness");
            macro_rules! t {
                ($($i:ident),*) => {{
                    let t = TupleEncoder::new(($({ let $i = nx(); $i }),*));
                    pe(t.map_from(|v: Val| {
                        let mut it = v.l().into_iter();
                        ($({ let $i = it.next().expect("harness"); $i }),*)
                    }), sized, env, "tuple")
                }};
            }
            match xs.len() {
                2 if *chain => {
                    let a = nx();
                    let b = nx();
                    pe(
                        a.chain(b).map_from(|v: Val| {
                            let mut it = v.l().into_iter();
                            (it.next().expect("harness"), it.next().expect("harness"))
                        }),
                        sized,
                        env,
                        "chain",
                    )
                }
                2 => t!(a, b),
                3 => t!(a, b, c),
                4 => t!(a, b, c, d),
                5 => t!(a, b, c, d, e),
                6 => t!(a, b, c, d, e, f),
                7 => t!(a, b, c, d, e, f, g),
                8 => t!(a, b, c, d, e, f, g, h),
                n => unreachable!("harness: tuple arity {n}"),
            }
        }
        Sc::Map(x) => {
            let e = enc_codec(x, env);
            let s = e.sized;
            pe(
                e.map_from(|v: Val| match v {
                    Val::Tag(b) => *b,
                    v => panic!("harness: {v:?}"),
                }),
                s,
                env,
                "map_from",
            )
        }
        Sc::TryMap(x) => {
            let e = enc_codec(x, env);
            let s = e.sized;
            let y = x.clone();
            pe(
                e.try_map_from(move |v: Val| if v == Val::Bad || rejected(&y, &v) { refuse("rejected value") } else { Ok(v) }),
                s,
                env,
                "try_map_from",
            )
        }
        Sc::MapErr(x) => {
            let e = enc_codec(x, env);
            let s = e.sized;
            pe(e.map_err(|e: Error| e), s, env, "map_err")
        }
        Sc::Omit(_, x) => {
            let e = enc_codec(x, env);
            let s = e.sized;
            pe(e.optional().map_from(|v: Val| v.o()), s, env, "optional")
        }
        Sc::Flag(x) => {
            let e = enc_codec(x, env);
            let s = e.sized;
            let head = fix_enc(Fix { t: FixT::U8, le: false }, env);
            let t = TupleEncoder::new((head, e.optional()));
            pe(
                t.map_from(|v: Val| {
                    let o = v.o();
                    (Val::U(u64::from(o.is_some())), o)
                }),
                s,
                env,
                "flag",
            )
        }
        Sc::MaxB(m, x) => {
            let e = enc_codec(x, env);
            let s = e.sized;
            pe(e.max_bytes(*m), s, env, "max_bytes")
        }
        Sc::Slice(x) => {
            let e = enc_codec(x, env);
            let s = e.sized;
            let mut e = e.slice();
            e.set_consumable_bytes(u64::MAX);
            pe(e, s, env, "slice")
        }
        Sc::Peek(x) => pe(enc_codec(x, env).pre_encode(), true, env, "pre_encode"),
        Sc::Maybe(x) => enc_codec(x, env),
        Sc::Pad(..) => pe(
            Uns(PaddingEncoder::new().map_from(|v: Val| match v {
                Val::Pad(b, _) => b,
                v => panic!("harness: {v:?}"),
            })),
            false,
            env,
            "padding",
        ),
        Sc::Json => pe(
            Uns(JsonEncoder::<Value>::new().map_from(|v: Val| match v {
                Val::J(j) => j,
                v => panic!("harness: {v:?}"),
            })),
            false,
            env,
            "json",
        ),
        Sc::Bin(k) => match k {
            0 => bin_enc!(Bt0, T0, env),
            1 => bin_enc!(Bt1, T1, env),
            2 => bin_enc!(Bt2, T2, env),
            3 => bin_enc!(Bt3, T3, env),
            4 => bin_enc!(Bt4, T4, env),
            _ => bin_enc!(Bt5, T5, env),
        },
    }
}
