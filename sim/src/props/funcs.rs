//! C25: user-supplied functions run once per item, and every error passes each `map_err` once.
use crate::core::{kind_of, short, Ctx, R};
use crate::feed::*;
use crate::schema::Val;
use crate::{ensure, fail};
use bytecodec::bytes::{BytesDecoder, BytesEncoder, Utf8Decoder};
use bytecodec::fixnum::{U16beDecoder, U16beEncoder, U8Decoder, U8Encoder};
use bytecodec::tuple::{TupleDecoder, TupleEncoder};
use bytecodec::{ByteCount, Decode, DecodeExt, Encode, EncodeExt, Eos, Error, ErrorKind, Result};
use std::cell::RefCell;
use std::rc::Rc;

/// A leaf byte that the fallible functions refuse.
const BAD: u8 = 0xee;

#[derive(Debug, Clone)]
enum N {
    U8,
    U16,
    Bytes(usize),
    Text(usize),
    Map(usize, Box<N>),
    TryMap(usize, Box<N>),
    MapErr(usize, Box<N>),
    /// the head decides, the function is called with it; the flag: the body is omitted for even heads
    AndThen(usize, Box<N>, bool, Box<N>),
    Tuple(Vec<N>),
    Count(usize, Box<N>),
    Length(Box<N>),
    Peek(Box<N>),
    Max(Box<N>),
    Opt(Box<N>),
    Repeat(usize, Box<N>),
    Chain(Box<N>, Box<N>),
    Pre(Box<N>),
}

/// What the functions saw.
#[derive(Default)]
struct Log {
    calls: Vec<Vec<Val>>,
    errs: Vec<(usize, ErrorKind)>,
    odd: Option<String>,
}
type L = Rc<RefCell<Log>>;
fn saw(log: &L, id: usize, v: &Val) {
    log.borrow_mut().calls[id].push(v.clone());
}

/// The error of a user function: one of the crate's kinds, or an I/O error on its way to one.
enum MyErr {
    Kind(ErrorKind),
    Io(std::io::ErrorKind),
}
impl From<MyErr> for Error {
    fn from(e: MyErr) -> Error {
        match e {
            MyErr::Kind(k) => k.into(),
            MyErr::Io(k) => std::io::Error::new(k, "refused").into(),
        }
    }
}
fn refusal(id: usize) -> ErrorKind {
    use ErrorKind::*;
    [InvalidInput, Other, UnexpectedEos, DecoderTerminated, InconsistentState, Other][id % 6]
}
/// The error a function refuses with; its kind is `refusal(id)`.
fn refuses(id: usize) -> MyErr {
    match id % 6 {
        2 => MyErr::Io(std::io::ErrorKind::UnexpectedEof),
        5 => MyErr::Io(std::io::ErrorKind::TimedOut),
        _ => MyErr::Kind(refusal(id)),
    }
}
fn turned(id: usize, k: ErrorKind) -> ErrorKind {
    [k, k, ErrorKind::Other, ErrorKind::InvalidInput, k, ErrorKind::InconsistentState][id % 6]
}
fn marked(id: usize, v: Val) -> Val {
    Val::L(vec![Val::U(id as u64), v])
}
fn unmarked(v: Val) -> Val {
    v.l().pop().expect("harness: a marked value")
}
fn bad(v: &Val) -> bool {
    match v {
        Val::U(n) => n & 0xff == u64::from(BAD),
        Val::B(b) => b.contains(&BAD),
        Val::L(v) => v.iter().any(bad),
        Val::O(Some(v)) => bad(v),
        _ => false,
    }
}
fn first(v: &Val) -> u64 {
    match v {
        Val::U(n) => *n,
        Val::B(b) => b.first().copied().unwrap_or(0).into(),
        Val::S(s) => s.len() as u64,
        Val::L(v) => v.last().map_or(0, first),
        Val::O(o) => o.as_ref().map_or(0, |v| first(v)),
        _ => 0,
    }
}

struct Gen<'a> {
    ctx: &'a Ctx,
    ids: usize,
    enc: bool,
}
impl Gen<'_> {
    fn id(&mut self) -> usize {
        self.ids += 1;
        self.ids - 1
    }
    fn node(&mut self, depth: usize) -> N {
        let ctx = self.ctx;
        if depth == 0 {
            return match ctx.below(4) {
                0 => N::U8,
                1 => N::U16,
                2 => N::Bytes(1 + if ctx.chance(1, 400) { ctx.size(1500) } else { ctx.below(4) }),
                _ if self.enc => N::Bytes(1 + ctx.below(9)),
                _ => N::Text(1 + if ctx.chance(1, 400) { ctx.size(1500) } else { ctx.below(4) }),
            };
        }
        let d = depth - 1;
        let f = ctx.weighted(&[4, 4, 5, 4, 3, 3, 2, 1, 1]);
        match (f, self.enc) {
            (0, _) => N::Map(self.id(), Box::new(self.node(d))),
            (1, _) => N::TryMap(self.id(), Box::new(self.node(d))),
            (2, _) => N::MapErr(self.id(), Box::new(self.node(d))),
            (3, false) => {
                let id = self.id();
                let head = self.node(d.min(1));
                N::AndThen(id, Box::new(head), ctx.below(3) == 0, Box::new(self.node(d)))
            }
            (3, true) | (5, true) => N::Repeat(self.id(), Box::new(self.node(d))),
            (4, _) => {
                let n = 2 + ctx.below(2);
                N::Tuple((0..n).map(|_| self.node(d)).collect())
            }
            (5, false) => {
                let n = self.node(d);
                N::Count(if slight(&n) { ctx.count(200, |ctx| ctx.below(4)) } else { ctx.below(4) }, Box::new(n))
            }
            (6, false) => {
                let n = self.node(d);
                if size(&n).is_some() {
                    N::Length(Box::new(n))
                } else {
                    n
                }
            }
            (6, true) => N::Chain(Box::new(self.node(d)), Box::new(self.node(d))),
            (7, false) => N::Peek(Box::new(self.node(d))),
            (7, true) => {
                if ctx.below(2) == 0 {
                    N::Pre(Box::new(self.node(d)))
                } else {
                    N::Opt(Box::new(self.node(d)))
                }
            }
            _ => N::Max(Box::new(self.node(d))),
        }
    }
}
/// Cheap enough to be there hundreds of times.
fn slight(n: &N) -> bool {
    match n {
        N::U8 | N::U16 => true,
        N::Bytes(k) | N::Text(k) => *k <= 9,
        N::Map(_, x) | N::TryMap(_, x) | N::MapErr(_, x) | N::Peek(x) | N::Max(x) | N::Pre(x) | N::Opt(x) => slight(x),
        _ => false,
    }
}
/// Size, if it is fixed.
fn size(n: &N) -> Option<usize> {
    match n {
        N::U8 => Some(1),
        N::U16 => Some(2),
        N::Bytes(k) | N::Text(k) => Some(*k),
        N::Map(_, x) | N::TryMap(_, x) | N::MapErr(_, x) | N::Length(x) | N::Peek(x) | N::Max(x) => size(x),
        N::AndThen(_, _, true, _) => None,
        N::AndThen(_, h, false, b) => Some(size(h)? + size(b)?),
        N::Tuple(v) => v.iter().map(size).sum(),
        N::Count(k, x) => Some(k * size(x)?),
        _ => None,
    }
}
/// Bytes a decoder of `n` takes at most.
fn bound(n: &N) -> usize {
    match n {
        N::AndThen(_, h, _, b) => bound(h) + bound(b),
        N::Tuple(v) => v.iter().map(bound).sum(),
        N::Count(k, x) => k * bound(x),
        N::Map(_, x) | N::TryMap(_, x) | N::MapErr(_, x) | N::Length(x) | N::Peek(x) | N::Max(x) => bound(x),
        n => size(n).unwrap_or(0),
    }
}
fn ids(n: &N, out: &mut Vec<usize>) {
    match n {
        N::Map(i, x) | N::TryMap(i, x) | N::MapErr(i, x) | N::Repeat(i, x) => {
            out.push(*i);
            ids(x, out);
        }
        N::AndThen(i, h, _, b) => {
            out.push(*i);
            ids(h, out);
            ids(b, out);
        }
        N::Tuple(v) => v.iter().for_each(|x| ids(x, out)),
        N::Chain(a, b) => {
            ids(a, out);
            ids(b, out);
        }
        N::Count(_, x) | N::Length(x) | N::Peek(x) | N::Max(x) | N::Opt(x) | N::Pre(x) => ids(x, out),
        _ => {}
    }
}

/// The expected failure of an item.
#[derive(Debug)]
struct Fail {
    kind: ErrorKind,
    /// every `map_err` on the way out and what it is given
    chain: Vec<(usize, ErrorKind)>,
    /// the error may be raised further out than the leaf (the end of the stream)
    suffix: bool,
    /// functions called exactly as often as the reference says
    exact: Vec<usize>,
    /// functions of later siblings, which may have been called already
    free: Vec<usize>,
    /// several parts fail: which one is reported is not fixed
    weak: bool,
    /// comes up before the next sibling sees any byte
    at_once: bool,
    pos: Option<usize>,
}
impl Fail {
    fn new(kind: ErrorKind, pos: Option<usize>) -> Fail {
        Fail { kind, chain: vec![], suffix: false, exact: vec![], free: vec![], weak: false, at_once: false, pos }
    }
    fn through(mut self, id: usize) -> Fail {
        self.chain.push((id, self.kind));
        self.kind = turned(id, self.kind);
        self
    }
}
type Calls = Vec<Vec<Val>>;

/// Reference: decodes one item and says which functions are called with what.
fn rdec(n: &N, b: &[u8], pos: &mut usize, calls: &mut Calls) -> std::result::Result<Val, Box<Fail>> {
    let take = |pos: &mut usize, k: usize| {
        if b.len() - *pos < k {
            let mut f = Fail::new(ErrorKind::UnexpectedEos, None);
            f.suffix = true;
            f.at_once = true;
            return Err(Box::new(f));
        }
        *pos += k;
        Ok(b[*pos - k..*pos].to_vec())
    };
    match n {
        N::U8 => Ok(Val::U(take(pos, 1)?[0].into())),
        N::U16 => {
            let v = take(pos, 2)?;
            Ok(Val::U(u64::from(v[0]) << 8 | u64::from(v[1])))
        }
        N::Bytes(k) => Ok(Val::B(take(pos, *k)?)),
        N::Text(k) => {
            let v = take(pos, *k)?;
            String::from_utf8(v).map(Val::S).map_err(|_| Box::new(Fail::new(ErrorKind::InvalidInput, Some(*pos))))
        }
        N::Map(id, x) => {
            let v = rdec(x, b, pos, calls)?;
            calls[*id].push(v.clone());
            Ok(marked(*id, v))
        }
        N::TryMap(id, x) => {
            let v = rdec(x, b, pos, calls)?;
            calls[*id].push(v.clone());
            if bad(&v) {
                let mut f = Fail::new(refusal(*id), Some(*pos));
                f.exact.push(*id);
                ids(x, &mut f.exact);
                return Err(Box::new(f));
            }
            Ok(marked(*id, v))
        }
        N::MapErr(id, x) => rdec(x, b, pos, calls).map_err(|f| Box::new(f.through(*id))),
        N::AndThen(id, h, omit, body) => {
            let v = rdec(h, b, pos, calls).map_err(|mut f| {
                f.at_once = true;
                f.pos = None;
                f
            })?;
            calls[*id].push(v.clone());
            if *omit && first(&v) % 2 == 0 {
                return Ok(marked(*id, Val::O(None)));
            }
            let x = rdec(body, b, pos, calls)?;
            Ok(marked(*id, Val::O(Some(Box::new(x)))))
        }
        N::Tuple(v) => {
            let mut out = vec![];
            for (i, x) in v.iter().enumerate() {
                match rdec(x, b, pos, calls) {
                    Ok(x) => out.push(x),
                    Err(mut f) => {
                        if !f.at_once {
                            let mut p = f.pos;
                            for y in &v[i + 1..] {
                                ids(y, &mut f.free);
                                let mut scratch = calls.clone();
                                p = p.and_then(|mut p| rdec(y, b, &mut p, &mut scratch).ok().map(|_| p));
                            }
                            f.pos = p;
                            f.weak |= p.is_none() && i + 1 < v.len();
                        }
                        return Err(f);
                    }
                }
            }
            Ok(Val::L(out))
        }
        N::Count(k, x) => {
            let mut out = vec![];
            for _ in 0..*k {
                out.push(rdec(x, b, pos, calls).map_err(|mut f| {
                    f.at_once = true;
                    f.pos = None;
                    f
                })?);
            }
            Ok(Val::L(out))
        }
        N::Peek(x) => rdec(x, b, pos, calls).map_err(|mut f| {
            f.at_once = true;
            f
        }),
        N::Length(x) | N::Max(x) => rdec(x, b, pos, calls),
        _ => unreachable!("harness: not a decoder"),
    }
}

type BD = Box<dyn Decode<Item = Val>>;
fn mk(n: &N, log: &L) -> BD {
    let l = log.clone();
    match n {
        N::U8 => Box::new(U8Decoder::new().map(|x| Val::U(x.into()))),
        N::U16 => Box::new(U16beDecoder::new().map(|x| Val::U(x.into()))),
        N::Bytes(k) => Box::new(FixedVec(BytesDecoder::new(vec![0; *k]), *k).map(Val::B)),
        N::Text(k) => Box::new(Utf8Decoder::new().length(*k as u64).map(Val::S)),
        N::Map(id, x) => {
            let id = *id;
            Box::new(mk(x, log).map(move |v| {
                saw(&l, id, &v);
                marked(id, v)
            }))
        }
        N::TryMap(id, x) => {
            let id = *id;
            Box::new(mk(x, log).try_map(move |v| {
                saw(&l, id, &v);
                if bad(&v) {
                    Err(refuses(id))
                } else {
                    Ok(marked(id, v))
                }
            }))
        }
        N::MapErr(id, x) => {
            let id = *id;
            Box::new(mk(x, log).map_err(move |e: Error| {
                let k = kind_of(&e);
                l.borrow_mut().errs.push((id, k));
                MyErr::Kind(turned(id, k))
            }))
        }
        N::AndThen(id, h, omit, body) => {
            let (id, omit, body) = (*id, *omit, body.clone());
            let d = mk(h, log).and_then(move |v| {
                saw(&l, id, &v);
                mk(&body, &l).omit(omit && first(&v) % 2 == 0)
            });
            Box::new(d.map(move |o| marked(id, Val::O(o.map(Box::new)))))
        }
        N::Tuple(v) => match &v[..] {
            [a, b] => Box::new(TupleDecoder::new((mk(a, log), mk(b, log))).map(|(a, b)| Val::L(vec![a, b]))),
            [a, b, c] => Box::new(TupleDecoder::new((mk(a, log), mk(b, log), mk(c, log))).map(|(a, b, c)| Val::L(vec![a, b, c]))),
            _ => unreachable!("harness: tuple"),
        },
        N::Count(k, x) => {
            let k = *k;
            Box::new(Again(mk(x, log).collectn::<Vec<Val>>(k), k).map(Val::L))
        }
        N::Length(x) => Box::new(mk(x, log).length(size(x).expect("fixed") as u64)),
        N::Peek(x) => Box::new(mk(x, log).peekable()),
        N::Max(x) => Box::new(mk(x, log).max_bytes(1 << 20)),
        _ => unreachable!("harness: not a decoder"),
    }
}
/// `BytesDecoder` and `CollectN` are set up anew for each item by their user.
struct FixedVec(BytesDecoder<Vec<u8>>, usize);
impl Decode for FixedVec {
    type Item = Vec<u8>;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        self.0.decode(buf, eos)
    }
    fn finish_decoding(&mut self) -> Result<Vec<u8>> {
        let v = self.0.finish_decoding()?;
        self.0 = BytesDecoder::new(vec![0; self.1]);
        Ok(v)
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}
struct Again<D>(bytecodec::combinator::CollectN<D, Vec<Val>>, usize);
impl<D: Decode<Item = Val>> Decode for Again<D> {
    type Item = Vec<Val>;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        self.0.decode(buf, eos)
    }
    fn finish_decoding(&mut self) -> Result<Vec<Val>> {
        let v = self.0.finish_decoding()?;
        self.0.set_remaining_items(self.1);
        Ok(v)
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}

/// The calls seen so far are the beginning of the expected ones, function by function.
fn prefix(log: &L, want: &Calls, least: &[usize], exact: bool, free: &[usize]) -> R {
    let l = log.borrow();
    if let Some(ref m) = l.odd {
        fail!("odd-call", "{m}");
    }
    for (id, (got, want)) in l.calls.iter().zip(want).enumerate() {
        if free.contains(&id) {
            continue;
        }
        let ok = got.len() <= want.len() && got[..] == want[..got.len()] && got.len() >= least[id] && (!exact || got.len() == want.len());
        ensure!(
            ok,
            "calls",
            "function {id} was called with {} instead of {}{}",
            short(got),
            if exact { "" } else { "a beginning of " },
            short(want)
        );
    }
    Ok(())
}
/// The `map_err` functions saw the error one after the other, up to the outermost one.
fn passed(got: &[(usize, ErrorKind)], f: &Fail) -> R {
    let k = got.len();
    let ok = if f.suffix {
        k <= f.chain.len() && f.chain[f.chain.len() - k..].iter().map(|x| x.0).eq(got.iter().map(|x| x.0))
    } else {
        got == &f.chain[..]
    };
    ensure!(ok, "map-err", "the error was given to {got:?} instead of {:?}", f.chain);
    Ok(())
}
/// Kinds handed on from one `map_err` to the next, starting with `k`.
fn handed(got: &[(usize, ErrorKind)], mut k: ErrorKind, last: ErrorKind) -> R {
    for &(id, seen) in got {
        ensure!(seen == k, "map-err-kind", "map_err {id} was given {seen:?} instead of {k:?} ({got:?})");
        k = turned(id, k);
    }
    ensure!(last == k, "map-err-kind", "the error arrives as {last:?} instead of {k:?} ({got:?})");
    Ok(())
}
/// An error of the whole codec passes the outermost `map_err`s.
fn from_root(root: &N, got: &[(usize, ErrorKind)]) -> R {
    let mut chain = vec![];
    let mut n = root;
    while let N::MapErr(id, x) = n {
        chain.push(*id);
        n = x;
    }
    chain.reverse();
    let mut all: Vec<usize> = got.iter().map(|x| x.0).collect();
    ensure!(all.ends_with(&chain), "map-err", "an error of the whole codec was given to {got:?} instead of {chain:?}");
    all.sort_unstable();
    let n = all.len();
    all.dedup();
    ensure!(all.len() == n, "map-err", "one error was given to a map_err twice: {got:?}");
    Ok(())
}
fn lens(c: &Calls) -> Vec<usize> {
    c.iter().map(Vec::len).collect()
}

fn decoding(ctx: &Ctx) -> R {
    let mut g = Gen { ctx, ids: 0, enc: false };
    let depth = ctx.below(6);
    let mut n = g.node(depth);
    for _ in 0..ctx.below(3) {
        n = N::MapErr(g.id(), Box::new(n));
    }
    let count = g.ids;
    let k = if slight(&n) { ctx.count(400, |ctx| 1 + ctx.below(4)) } else { 1 + ctx.below(4) };
    let mode = ctx.below(3);
    // The stream: enough for all items; damaged or cut short.
    let mut data = vec![];
    for _ in 0..bound(&n) * k {
        data.push(match ctx.below(if mode == 1 { 40 } else { 32 }) {
            0..=15 => b'a' + ctx.below(26) as u8,
            16..=31 => ctx.below(128) as u8,
            32..=36 => BAD,
            _ => 0xff,
        });
    }
    let mut calls: Calls = vec![vec![]; count];
    let mut pos = 0;
    for _ in 0..k {
        let p = pos;
        if rdec(&n, &data, &mut pos, &mut calls).is_err() {
            pos = p + bound(&n);
            break;
        }
    }
    data.truncate(pos);
    if mode == 2 && !data.is_empty() {
        ctx.fault("truncated");
        let cut = ctx.below(data.len());
        data.truncate(cut);
    }
    ctx.note(|| format!("decoder {n:?}, {k} items from {}", short(&data)));
    let log: L = Rc::new(RefCell::new(Log { calls: vec![vec![]; count], errs: vec![], odd: None }));
    let mut d = mk(&n, &log);
    let mut calls: Calls = vec![vec![]; count];
    let mut feed = Feed::new(ctx, &data, gen_cut(ctx), [EosMode::Late, EosMode::WithLast, EosMode::Finite, EosMode::Mixed][ctx.below(4)]);
    let mut pos = 0;
    for i in 0..k {
        let least = lens(&calls);
        let want = rdec(&n, &data, &mut pos, &mut calls);
        let none = vec![];
        let free = want.as_ref().err().map_or(&none, |f| &f.free);
        let mut stall = 0;
        let err = loop {
            if d.is_idle() {
                break None;
            }
            if ctx.chance(1, 6) {
                ctx.fault("early-finish");
                let at = log.borrow().errs.len();
                match d.finish_decoding() {
                    Ok(v) => fail!("early-item", "an item before completion: {}", short(&v)),
                    Err(e) => {
                        let got = log.borrow().errs[at..].to_vec();
                        from_root(&n, &got)?;
                        handed(&got, ErrorKind::IncompleteDecoding, kind_of(&e))?;
                        log.borrow_mut().errs.truncate(at);
                    }
                }
            }
            let (buf, eos) = feed.next();
            let r = d.decode(buf, eos);
            match r {
                Ok(m) => {
                    feed.took(m);
                    ctx.ev("funcs", m as u64, u64::from(d.is_idle()));
                    stall = if m == 0 { stall + 1 } else { 0 };
                    ensure!(stall < 60, "stall", "no progress at {}", feed.pos);
                }
                Err(e) => break Some(e),
            }
            let weak = want.as_ref().err().is_some_and(|f| f.weak);
            if !weak {
                prefix(&log, &calls, &least, false, free)?;
            }
            ensure!(log.borrow().errs.is_empty(), "map-err", "map_err was called although nothing failed: {:?}", log.borrow().errs);
        };
        let res = match err {
            Some(e) => Err(e),
            None => d.finish_decoding(),
        };
        match (res, want) {
            (Ok(v), Ok(w)) => {
                ctx.count_item();
                ensure!(v == w, "wrong-item", "item {i} is {} instead of {}", short(&v), short(&w));
                ensure!(feed.pos == pos, "wrong-extent", "{} bytes used instead of {pos}", feed.pos);
                prefix(&log, &calls, &least, true, &[])?;
                ensure!(log.borrow().errs.is_empty(), "map-err", "map_err was called although nothing failed: {:?}", log.borrow().errs);
            }
            (Err(e), Err(f)) => {
                ctx.fault("refused-by-function");
                if f.weak {
                    return Ok(());
                }
                let got = log.borrow().errs.clone();
                passed(&got, &f)?;
                if f.suffix {
                    handed(&got, ErrorKind::UnexpectedEos, kind_of(&e))?;
                } else {
                    ensure!(kind_of(&e) == f.kind, "wrong-kind", "the error arrives as {:?} instead of {:?}", kind_of(&e), f.kind);
                }
                prefix(&log, &calls, &least, false, &f.free)?;
                for id in f.exact {
                    let n = log.borrow().calls[id].len();
                    ensure!(n == calls[id].len(), "calls", "function {id} was called {n} times instead of {}", calls[id].len());
                }
                return Ok(());
            }
            (Ok(v), Err(f)) => fail!("error-lost", "an item {} instead of the error {f:?}", short(&v)),
            (Err(e), Ok(w)) => fail!("valid-rejected", "{:?} instead of the item {}", kind_of(&e), short(&w)),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- encoding

/// The elements of a repeated encoder: notes who asks for them.
struct Pull {
    id: usize,
    vals: std::vec::IntoIter<Val>,
    ended: bool,
    log: L,
}
impl Iterator for Pull {
    type Item = Val;
    fn next(&mut self) -> Option<Val> {
        if self.ended {
            self.log.borrow_mut().odd = Some(format!("iterator {} is asked again after its end", self.id));
            return None;
        }
        match self.vals.next() {
            Some(v) => {
                saw(&self.log, self.id, &v);
                Some(v)
            }
            None => {
                self.ended = true;
                None
            }
        }
    }
}

fn gen_val(ctx: &Ctx, n: &N, refuse: u64) -> Val {
    let byte = |ctx: &Ctx| if refuse > 0 && ctx.draw(32) < refuse { BAD } else { ctx.below(200) as u8 };
    match n {
        N::U8 => Val::U(byte(ctx).into()),
        N::U16 => Val::U(u64::from(byte(ctx)) << 8 | u64::from(byte(ctx))),
        N::Bytes(k) => {
            let k = ctx.below(2 * *k + 1);
            Val::B((0..k).map(|_| byte(ctx)).collect())
        }
        N::Map(id, x) | N::TryMap(id, x) => marked(*id, gen_val(ctx, x, refuse)),
        N::MapErr(_, x) | N::Max(x) | N::Pre(x) => gen_val(ctx, x, refuse),
        N::Tuple(v) => Val::L(v.iter().map(|x| gen_val(ctx, x, refuse)).collect()),
        N::Chain(a, b) => Val::L(vec![gen_val(ctx, a, refuse), gen_val(ctx, b, refuse)]),
        N::Opt(x) => Val::O(if ctx.below(3) == 0 { None } else { Some(Box::new(gen_val(ctx, x, refuse))) }),
        N::Repeat(_, x) => {
            let k = if slight(x) { ctx.count(300, |ctx| ctx.below(5)) } else { ctx.below(5) };
            Val::L((0..k).map(|_| gen_val(ctx, x, refuse)).collect())
        },
        _ => unreachable!("harness: not an encoder"),
    }
}
/// Failures of an item: while it is started (`true`) or while its bytes are produced, with the offset.
struct Refs<'a> {
    bytes: Vec<u8>,
    calls: &'a mut Calls,
    /// leaf by leaf: where it starts and the `map_err`s around it, innermost first
    leaves: Vec<(usize, Vec<usize>)>,
    path: Vec<usize>,
}
fn renc(n: &N, v: &Val, r: &mut Refs) -> std::result::Result<(), Box<Fail>> {
    let leaf = |r: &mut Refs, b: &[u8]| {
        if !b.is_empty() {
            let p = r.path.iter().rev().copied().collect();
            r.leaves.push((r.bytes.len(), p));
            r.bytes.extend_from_slice(b);
        }
    };
    let inner = || if let Val::L(l) = v { &l[1] } else { unreachable!("harness: not marked") };
    let list = || if let Val::L(l) = v { &l[..] } else { unreachable!("harness: not a list") };
    match n {
        N::U8 => leaf(r, &[v.u() as u8]),
        N::U16 => leaf(r, &(v.u() as u16).to_be_bytes()),
        N::Bytes(_) => leaf(r, if let Val::B(b) = v { b } else { unreachable!("harness: not bytes") }),
        N::Map(id, x) => {
            r.calls[*id].push(v.clone());
            renc(x, inner(), r)?;
        }
        N::TryMap(id, x) => {
            r.calls[*id].push(v.clone());
            if bad(inner()) {
                let mut f = Fail::new(refusal(*id), None);
                f.exact.push(*id);
                return Err(Box::new(f));
            }
            renc(x, inner(), r)?;
        }
        N::MapErr(id, x) => {
            r.path.push(*id);
            let res = renc(x, v, r);
            r.path.pop();
            res.map_err(|f| Box::new(f.through(*id)))?;
        }
        N::Max(x) | N::Pre(x) => renc(x, v, r)?,
        N::Opt(x) => {
            if let Val::O(Some(v)) = v {
                renc(x, v, r)?;
            }
        }
        N::Tuple(xs) => {
            for (x, v) in xs.iter().zip(list()) {
                renc(x, v, r)?;
            }
        }
        N::Chain(a, b) => {
            renc(a, &list()[0], r)?;
            renc(b, &list()[1], r)?;
        }
        N::Repeat(id, x) => {
            for v in list() {
                r.calls[*id].push(v.clone());
                renc(x, v, r).map_err(|mut f| {
                    f.exact.push(*id);
                    f
                })?;
            }
        }
        _ => unreachable!("harness: not an encoder"),
    }
    Ok(())
}
/// How many parts of an item are refused.
fn refusals(n: &N, v: &Val) -> usize {
    let inner = || if let Val::L(l) = v { &l[1] } else { unreachable!("harness: not marked") };
    let list = || if let Val::L(l) = v { &l[..] } else { unreachable!("harness: not a list") };
    match n {
        N::Map(_, x) => refusals(x, inner()),
        N::TryMap(_, x) => {
            if bad(inner()) {
                1
            } else {
                refusals(x, inner())
            }
        }
        N::MapErr(_, x) | N::Max(x) | N::Pre(x) => refusals(x, v),
        N::Opt(x) => {
            if let Val::O(Some(v)) = v {
                refusals(x, v)
            } else {
                0
            }
        }
        N::Tuple(xs) => xs.iter().zip(list()).map(|(x, v)| refusals(x, v)).sum(),
        N::Chain(a, b) => refusals(a, &list()[0]) + refusals(b, &list()[1]),
        N::Repeat(_, x) => list().iter().map(|v| refusals(x, v)).sum(),
        _ => 0,
    }
}

type BE = Box<dyn Encode<Item = Val>>;
fn mke(n: &N, log: &L) -> BE {
    let l = log.clone();
    match n {
        N::U8 => Box::new(U8Encoder::new().map_from(|v: Val| v.u() as u8)),
        N::U16 => Box::new(U16beEncoder::new().map_from(|v: Val| v.u() as u16)),
        N::Bytes(_) => Box::new(BytesEncoder::<Vec<u8>>::new().map_from(|v: Val| v.b())),
        N::Map(id, x) => {
            let id = *id;
            Box::new(mke(x, log).map_from(move |v: Val| {
                saw(&l, id, &v);
                unmarked(v)
            }))
        }
        N::TryMap(id, x) => {
            let id = *id;
            Box::new(mke(x, log).try_map_from(move |v: Val| {
                saw(&l, id, &v);
                let v = unmarked(v);
                if bad(&v) {
                    Err(refuses(id))
                } else {
                    Ok(v)
                }
            }))
        }
        N::MapErr(id, x) => {
            let id = *id;
            Box::new(mke(x, log).map_err(move |e: Error| {
                let k = kind_of(&e);
                l.borrow_mut().errs.push((id, k));
                MyErr::Kind(turned(id, k))
            }))
        }
        N::Tuple(v) => match &v[..] {
            [a, b] => Box::new(TupleEncoder::new((mke(a, log), mke(b, log))).map_from(|v: Val| {
                let mut i = v.l().into_iter();
                (i.next().unwrap(), i.next().unwrap())
            })),
            [a, b, c] => Box::new(TupleEncoder::new((mke(a, log), mke(b, log), mke(c, log))).map_from(|v: Val| {
                let mut i = v.l().into_iter();
                (i.next().unwrap(), i.next().unwrap(), i.next().unwrap())
            })),
            _ => unreachable!("harness: tuple"),
        },
        N::Chain(a, b) => Box::new(mke(a, log).chain(mke(b, log)).map_from(|v: Val| {
            let mut i = v.l().into_iter();
            (i.next().unwrap(), i.next().unwrap())
        })),
        N::Repeat(id, x) => {
            let id = *id;
            Box::new(mke(x, log).repeat().map_from(move |v: Val| Pull { id, vals: v.l().into_iter(), ended: false, log: l.clone() }))
        }
        N::Opt(x) => Box::new(mke(x, log).optional().map_from(|v: Val| v.o())),
        N::Max(x) => Box::new(mke(x, log).max_bytes(1 << 20)),
        N::Pre(x) => Box::new(mke(x, log).pre_encode()),
        _ => unreachable!("harness: not an encoder"),
    }
}

fn encoding(ctx: &Ctx) -> R {
    let mut g = Gen { ctx, ids: 0, enc: true };
    let depth = ctx.below(6);
    let mut n = g.node(depth);
    for _ in 0..ctx.below(3) {
        n = N::MapErr(g.id(), Box::new(n));
    }
    let count = g.ids;
    let log: L = Rc::new(RefCell::new(Log { calls: vec![vec![]; count], errs: vec![], odd: None }));
    let mut e = mke(&n, &log);
    let mut calls: Calls = vec![vec![]; count];
    let mode = ctx.below(3);
    ctx.note(|| format!("encoder {n:?}"));
    let k = if slight(&n) { ctx.count(400, |ctx| 1 + ctx.below(4)) } else { 1 + ctx.below(4) };
    for i in 0..k {
        let v = gen_val(ctx, &n, if mode == 1 { 3 } else { 0 });
        ctx.note(|| format!("item {i}: {}", short(&v)));
        if refusals(&n, &v) > 1 {
            return Ok(());
        }
        let least = lens(&calls);
        let mut r = Refs { bytes: vec![], calls: &mut calls, leaves: vec![], path: vec![] };
        let want = renc(&n, &v, &mut r);
        let (bytes, leaves) = (r.bytes, r.leaves);
        let cap = if mode == 2 && !bytes.is_empty() && ctx.below(3) == 0 { Some(ctx.below(bytes.len())) } else { None };
        let mut drain = Drain::new(ctx, cap);
        let mut err = e.start_encoding(v).err();
        let mut stall = 0;
        let mut room = 0;
        while err.is_none() && !e.is_idle() {
            if ctx.chance(1, 8) {
                // A busy encoder refuses an item; its functions may see it first.
                ctx.fault("busy-start");
                let (at, before) = (log.borrow().errs.len(), log.borrow().calls.clone());
                let other = gen_val(ctx, &n, 0);
                let mut once: Calls = vec![vec![]; count];
                let mut r = Refs { bytes: vec![], calls: &mut once, leaves: vec![], path: vec![] };
                ensure!(renc(&n, &other, &mut r).is_ok(), "harness", "an acceptable item is refused");
                match e.start_encoding(other) {
                    Ok(()) => fail!("busy-accepted", "a busy encoder took an item"),
                    Err(x) => {
                        let got = log.borrow().errs[at..].to_vec();
                        from_root(&n, &got)?;
                        handed(&got, ErrorKind::EncoderFull, kind_of(&x))?;
                    }
                }
                for (id, c) in log.borrow().calls.iter().enumerate() {
                    let new = &c[before[id].len()..];
                    ensure!(once[id].starts_with(new), "calls", "function {id} was called with {} for an item that holds {}", short(&new), short(&once[id]));
                }
                let mut l = log.borrow_mut();
                l.calls = before;
                l.errs.truncate(at);
            }
            // `step` keeps the kind of the error only.
            let s = drain.step(&mut e, bytes.len().saturating_sub(drain.out.len()))?;
            if let Some(kind) = s.err {
                err = Some(kind.into());
                room = s.offered;
                break;
            }
            stall = if s.n == 0 { stall + 1 } else { 0 };
            ensure!(stall < 60 || s.offered == 0 && stall < 500, "stall", "no progress after {} bytes", drain.out.len());
            if want.is_ok() {
                prefix(&log, &calls, &least, false, &[])?;
            }
            ensure!(log.borrow().errs.is_empty(), "map-err", "map_err was called although nothing failed: {:?}", log.borrow().errs);
        }
        let got = log.borrow().errs.clone();
        match (err, want) {
            (None, Ok(())) => {
                ctx.count_item();
                ensure!(cap.is_none(), "eos-missed", "{} of {} bytes with room for {cap:?}, and no error", drain.out.len(), bytes.len());
                ensure!(drain.out == bytes, "wrong-bytes", "{} instead of {}", short(&drain.out), short(&bytes));
                prefix(&log, &calls, &least, true, &[])?;
                ensure!(got.is_empty(), "map-err", "map_err was called although nothing failed: {got:?}");
            }
            (Some(x), Ok(())) => {
                let Some(_) = cap else { fail!("valid-rejected", "{:?} for a valid item", kind_of(&x)) };
                ctx.fault("output-ends");
                // The end is noticed at the leaf whose bytes are missing, or further out.
                let at = drain.out.len();
                let ok = leaves.iter().enumerate().any(|(j, (from, path))| {
                    let to = leaves.get(j + 1).map_or(bytes.len(), |x| x.0);
                    *from <= at + room && at <= to && path.len() >= got.len() && path[path.len() - got.len()..].iter().eq(got.iter().map(|x| &x.0))
                });
                ensure!(ok, "map-err", "at {at}: the error was given to {got:?}, leaves {leaves:?}");
                from_root(&n, &got)?;
                handed(&got, ErrorKind::UnexpectedEos, kind_of(&x))?;
                prefix(&log, &calls, &least, false, &[])?;
                return Ok(());
            }
            (Some(x), Err(f)) => {
                ctx.fault("refused-by-function");
                if cap.is_some() {
                    return Ok(());
                }
                passed(&got, &f)?;
                ensure!(kind_of(&x) == f.kind, "wrong-kind", "the error arrives as {:?} instead of {:?}", kind_of(&x), f.kind);
                // Functions of what comes later in the item are not judged beyond their number.
                let l = log.borrow();
                for (id, c) in l.calls.iter().enumerate() {
                    let w = &calls[id];
                    let m = c.len().min(w.len());
                    ensure!(c[..m] == w[..m] && c.len() >= least[id], "calls", "function {id} was called with {} instead of {}", short(c), short(w));
                }
                for id in f.exact {
                    ensure!(l.calls[id].len() == calls[id].len(), "calls", "function {id} was called {} times instead of {}", l.calls[id].len(), calls[id].len());
                }
                return Ok(());
            }
            (None, Err(f)) => fail!("error-lost", "no error although one part was refused: {f:?}"),
        }
    }
    Ok(())
}

pub fn c25(ctx: &Ctx) -> R {
    ctx.nontrivial();
    if ctx.below(2) == 0 {
        decoding(ctx)
    } else {
        encoding(ctx)
    }
}
