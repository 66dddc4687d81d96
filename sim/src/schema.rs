//! Schemas (random codec compositions), values, and the reference implementation of the wire format.
//!
//! The reference encoder/decoder works on whole byte slices; it shares no code with bytecodec.
use crate::core::Ctx;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FixT {
    U8,
    I8,
    U16,
    I16,
    U24,
    U32,
    I32,
    U40,
    U48,
    U56,
    U64,
    I64,
    F32,
    F64,
}
pub const FIX_T: [FixT; 14] = [
    FixT::U8, FixT::U16, FixT::U32, FixT::U64, FixT::U24, FixT::U40, FixT::U48, FixT::U56, FixT::I8,
    FixT::I16, FixT::I32, FixT::I64, FixT::F32, FixT::F64,
];
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Fix {
    pub t: FixT,
    pub le: bool,
}
impl Fix {
    pub fn width(self) -> usize {
        match self.t {
            FixT::U8 | FixT::I8 => 1,
            FixT::U16 | FixT::I16 => 2,
            FixT::U24 => 3,
            FixT::U32 | FixT::I32 | FixT::F32 => 4,
            FixT::U40 => 5,
            FixT::U48 => 6,
            FixT::U56 => 7,
            FixT::U64 | FixT::I64 | FixT::F64 => 8,
        }
    }
    pub fn signed(self) -> bool {
        matches!(self.t, FixT::I8 | FixT::I16 | FixT::I32 | FixT::I64)
    }
    pub fn float(self) -> bool {
        matches!(self.t, FixT::F32 | FixT::F64)
    }
    pub fn max_u(self) -> u64 {
        if self.width() == 8 {
            u64::MAX
        } else {
            (1u64 << (8 * self.width())) - 1
        }
    }
    /// True if the encoder's item type is wider than the representable range.
    pub fn ranged(self) -> bool {
        matches!(self.t, FixT::U24 | FixT::U40 | FixT::U48 | FixT::U56)
    }
    pub fn put(self, raw: u64, out: &mut Vec<u8>) {
        let w = self.width();
        for i in 0..w {
            let sh = if self.le { 8 * i } else { 8 * (w - 1 - i) };
            out.push((raw >> sh) as u8);
        }
    }
    pub fn get(self, b: &[u8]) -> u64 {
        let w = self.width();
        let mut raw = 0u64;
        for i in 0..w {
            let sh = if self.le { 8 * i } else { 8 * (w - 1 - i) };
            raw |= u64::from(b[i]) << sh;
        }
        raw
    }
    pub fn val(self, raw: u64) -> Val {
        match self.t {
            FixT::I8 => Val::I(i64::from(raw as u8 as i8)),
            FixT::I16 => Val::I(i64::from(raw as u16 as i16)),
            FixT::I32 => Val::I(i64::from(raw as u32 as i32)),
            FixT::I64 => Val::I(raw as i64),
            FixT::F32 => Val::F32(raw as u32),
            FixT::F64 => Val::F64(raw),
            _ => Val::U(raw),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Unit,
    U(u64),
    I(i64),
    F32(u32),
    F64(u64),
    B(Vec<u8>),
    S(String),
    L(Vec<Val>),
    O(Option<Box<Val>>),
    Tag(Box<Val>),
    J(Value),
    Bin(BinVal),
    /// Encode side of padding: byte and count. The decode side yields `Unit`.
    Pad(u8, usize),
    /// An item every `try_map_from` node refuses.
    Bad,
}
impl Val {
    pub fn u(&self) -> u64 {
        match self {
            Val::U(x) => *x,
            Val::I(x) => *x as u64,
            _ => panic!("harness: not an integer: {self:?}"),
        }
    }
    pub fn raw(&self) -> u64 {
        match self {
            Val::U(x) => *x,
            Val::I(x) => *x as u64,
            Val::F32(x) => u64::from(*x),
            Val::F64(x) => *x,
            _ => panic!("harness: not a number: {self:?}"),
        }
    }
    pub fn l(self) -> Vec<Val> {
        match self {
            Val::L(v) => v,
            v => panic!("harness: not a list: {v:?}"),
        }
    }
    pub fn b(self) -> Vec<u8> {
        match self {
            Val::B(v) => v,
            v => panic!("harness: not bytes: {v:?}"),
        }
    }
    pub fn s(self) -> String {
        match self {
            Val::S(v) => v,
            v => panic!("harness: not a string: {v:?}"),
        }
    }
    pub fn o(self) -> Option<Val> {
        match self {
            Val::O(v) => v.map(|b| *b),
            v => panic!("harness: not an option: {v:?}"),
        }
    }
    /// What decoding is expected to yield for this (encode side) value.
    pub fn norm(&self) -> Val {
        match self {
            Val::Pad(..) => Val::Unit,
            Val::L(v) => Val::L(v.iter().map(Val::norm).collect()),
            Val::O(o) => Val::O(o.as_ref().map(|b| Box::new(b.norm()))),
            Val::Tag(b) => Val::Tag(Box::new(b.norm())),
            v => v.clone(),
        }
    }
    /// First byte of the encoding of a leaf accepted below `TryMap`.
    pub fn contains_bad(&self) -> bool {
        match self {
            Val::Bad => true,
            Val::L(v) => v.iter().any(Val::contains_bad),
            Val::O(Some(b)) | Val::Tag(b) => b.contains_bad(),
            _ => false,
        }
    }
}

/// The bincode item types used.
pub type Bt0 = (u8, u16, u32);
pub type Bt1 = Option<u64>;
pub type Bt2 = (bool, i64, char);
pub type Bt3 = Vec<u16>;
pub type Bt4 = (String, u8);
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Bt5 {
    A,
    B(i32),
    C { x: u8, y: Vec<u8> },
    D(Box<Bt5>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum BinVal {
    T0(Bt0),
    T1(Bt1),
    T2(Bt2),
    T3(Bt3),
    T4(Bt4),
    T5(Bt5),
}
pub const BIN_KINDS: u8 = 6;

pub type S = Rc<Sc>;
#[derive(Clone, Debug, PartialEq)]
pub enum Sc {
    Fix(Fix),
    Null,
    /// `CopyableBytesDecoder<[u8; N]>`
    Arr(usize),
    /// one-shot `BytesDecoder<Vec<u8>>`
    One(usize),
    /// one-shot `Utf8Decoder::with_bytes_decoder(BytesDecoder)`
    Str(usize),
    /// `Utf8Decoder::with_bytes_decoder(RemainingBytesDecoder.length(n))`
    StrL(usize),
    Len(u64, S),
    Pre(Fix, S),
    Cnt(Fix, S),
    CollN(usize, S),
    Tup(Vec<S>, bool),
    Map(S),
    TryMap(S),
    MapErr(S),
    Omit(bool, S),
    Flag(S),
    MaxB(u64, S),
    Slice(S),
    Peek(S),
    /// `MaybeEos` around the elements of a collection
    Maybe(S),
    Rest,
    Utf8,
    /// padding byte; whether the decoder insists on it
    Pad(u8, bool),
    Coll(S),
    Json,
    Bin(u8),
}
pub const ARR_SIZES: [usize; 10] = [1, 2, 3, 4, 0, 5, 7, 16, 33, 300];
pub const REJECT: u8 = 0xEE;

impl Sc {
    pub fn kids(&self) -> Vec<&S> {
        match self {
            Sc::Tup(v, _) => v.iter().collect(),
            Sc::Len(_, x) | Sc::Pre(_, x) | Sc::Cnt(_, x) | Sc::CollN(_, x) | Sc::Omit(_, x) | Sc::MaxB(_, x) => vec![x],
            Sc::Map(x) | Sc::TryMap(x) | Sc::MapErr(x) | Sc::Flag(x) | Sc::Slice(x) | Sc::Peek(x) | Sc::Maybe(x) | Sc::Coll(x) => vec![x],
            _ => vec![],
        }
    }
    pub fn any(&self, f: &dyn Fn(&Sc) -> bool) -> bool {
        f(self) || self.kids().iter().any(|k| k.any(f))
    }
    /// Runs to the end of the stream (as seen by this node).
    pub fn to_eos(&self) -> bool {
        match self {
            Sc::Rest | Sc::Utf8 | Sc::Pad(..) | Sc::Coll(_) | Sc::Json | Sc::Bin(_) => true,
            Sc::Tup(v, _) => v.last().is_some_and(|x| x.to_eos()),
            Sc::Omit(o, x) => !*o && x.to_eos(),
            Sc::Map(x) | Sc::TryMap(x) | Sc::MapErr(x) | Sc::MaxB(_, x) | Sc::Slice(x) | Sc::Peek(x) | Sc::Maybe(x) | Sc::Flag(x) => x.to_eos(),
            _ => false,
        }
    }
    /// The decoder can decode more than one item.
    pub fn reusable(&self) -> bool {
        match self {
            Sc::One(_) | Sc::Str(_) | Sc::CollN(..) => false,
            Sc::Pre(..) | Sc::Cnt(..) | Sc::Flag(_) => true,
            _ => self.kids().iter().all(|k| k.reusable()),
        }
    }
    pub fn fixed(&self) -> Option<usize> {
        match self {
            Sc::Fix(f) => Some(f.width()),
            Sc::Null => Some(0),
            Sc::Arr(n) | Sc::One(n) | Sc::Str(n) | Sc::StrL(n) => Some(*n),
            Sc::Len(n, _) => Some(*n as usize),
            Sc::Pre(f, x) => x.fixed().map(|n| n + f.width()),
            Sc::CollN(n, x) => x.fixed().map(|s| s * n),
            Sc::Tup(v, _) => v.iter().try_fold(0, |a, x| x.fixed().map(|n| a + n)),
            Sc::Map(x) | Sc::TryMap(x) | Sc::MapErr(x) | Sc::MaxB(_, x) | Sc::Slice(x) | Sc::Peek(x) | Sc::Maybe(x) => x.fixed(),
            Sc::Omit(true, _) => Some(0),
            Sc::Omit(false, x) => x.fixed(),
            _ => None,
        }
    }
    pub fn min(&self) -> usize {
        match self {
            Sc::Pre(f, x) => f.width() + x.min(),
            Sc::Cnt(f, _) => f.width(),
            Sc::Flag(_) => 1,
            Sc::Tup(v, _) => v.iter().map(|x| x.min()).sum(),
            Sc::CollN(n, x) => n * x.min(),
            Sc::Map(x) | Sc::TryMap(x) | Sc::MapErr(x) | Sc::MaxB(_, x) | Sc::Slice(x) | Sc::Peek(x) | Sc::Maybe(x) => x.min(),
            Sc::Omit(true, _) => 0,
            Sc::Omit(false, x) => x.min(),
            Sc::Rest | Sc::Utf8 | Sc::Pad(..) | Sc::Coll(_) => 0,
            Sc::Json => 1,
            Sc::Bin(k) => match k {
                0 => 7,
                1 => 1,
                2 => 10,
                3 => 8,
                4 => 9,
                _ => 4,
            },
            _ => self.fixed().expect("harness: min"),
        }
    }
    /// A value of exactly `n` bytes exists for every `n >= min()`.
    pub fn flexible(&self) -> bool {
        match self {
            Sc::Rest | Sc::Utf8 | Sc::Pad(..) => true,
            Sc::Coll(x) => x.fixed() == Some(1),
            Sc::Tup(v, _) => {
                let (last, init) = v.split_last().expect("harness: empty tuple");
                last.flexible() && init.iter().all(|x| x.fixed().is_some())
            }
            Sc::Map(x) | Sc::MapErr(x) | Sc::MaxB(_, x) | Sc::Slice(x) | Sc::Peek(x) | Sc::Maybe(x) => x.flexible(),
            Sc::Omit(false, x) => x.flexible(),
            _ => false,
        }
    }
    pub fn has_maxb(&self) -> bool {
        self.any(&|s| matches!(s, Sc::MaxB(..)))
    }
    pub fn nodes(&self) -> usize {
        1 + self.kids().iter().map(|k| k.nodes()).sum::<usize>()
    }
    pub fn show(&self) -> String {
        let k = |x: &S| x.show();
        match self {
            Sc::Fix(f) => format!("{:?}{}", f.t, if f.width() == 1 { "" } else if f.le { "le" } else { "be" }),
            Sc::Len(n, x) => format!("length({n}, {})", k(x)),
            Sc::Pre(f, x) => format!("prefixed({}, {})", Sc::Fix(*f).show(), k(x)),
            Sc::Cnt(f, x) => format!("counted({}, {})", Sc::Fix(*f).show(), k(x)),
            Sc::CollN(n, x) => format!("collectn({n}, {})", k(x)),
            Sc::Tup(v, c) => format!("{}({})", if *c { "chain" } else { "tuple" }, v.iter().map(k).collect::<Vec<_>>().join(", ")),
            Sc::Map(x) => format!("map({})", k(x)),
            Sc::TryMap(x) => format!("try_map({})", k(x)),
            Sc::MapErr(x) => format!("map_err({})", k(x)),
            Sc::Omit(o, x) => format!("omit({o}, {})", k(x)),
            Sc::Flag(x) => format!("flag({})", k(x)),
            Sc::MaxB(n, x) => format!("max_bytes({n}, {})", k(x)),
            Sc::Slice(x) => format!("slice({})", k(x)),
            Sc::Peek(x) => format!("peekable/pre_encode({})", k(x)),
            Sc::Maybe(x) => format!("maybe_eos({})", k(x)),
            Sc::Coll(x) => format!("collect/repeat({})", k(x)),
            s => format!("{s:?}"),
        }
    }
    pub fn leaf(&self) -> bool {
        self.kids().is_empty()
    }
}

#[derive(Clone, Copy)]
pub struct GenOpt {
    /// the node may run to the end of its stream
    pub to_eos: bool,
    /// the decoder must be able to decode several items
    pub reusable: bool,
    /// encoders are built too: padding only below `Len`
    pub enc: bool,
    pub pad_ok: bool,
    pub min1: bool,
    pub fixed: bool,
    pub depth: usize,
    /// typical size of leaves
    pub big: usize,
    pub json: bool,
    pub maxb: bool,
}
impl GenOpt {
    pub fn enc(depth: usize) -> Self {
        GenOpt { to_eos: true, reusable: false, enc: true, pad_ok: false, min1: false, fixed: false, depth, big: 600, json: true, maxb: true }
    }
    pub fn dec(depth: usize) -> Self {
        GenOpt { enc: false, pad_ok: true, ..GenOpt::enc(depth) }
    }
}

pub fn gen_fix(ctx: &Ctx) -> Fix {
    let t = FIX_T[ctx.below(FIX_T.len())];
    let le = ctx.below(2) == 1;
    Fix { t, le: le && Fix { t, le }.width() > 1 }
}
fn gen_prefix(ctx: &Ctx, cap: u64) -> Fix {
    let cands: Vec<FixT> = [FixT::U8, FixT::U16, FixT::U24, FixT::U32, FixT::U40, FixT::U48, FixT::U56, FixT::U64]
        .into_iter()
        .filter(|&t| Fix { t, le: false }.max_u() >= cap)
        .collect();
    let t = cands[ctx.below(cands.len().min(4 + ctx.below(5)))];
    let f = Fix { t, le: false };
    Fix { t, le: f.width() > 1 && ctx.below(2) == 1 }
}

pub fn gen_schema(ctx: &Ctx, o: GenOpt) -> S {
    let s = gen_schema_inner(ctx, o);
    if (o.min1 && s.min() == 0) || (o.fixed && s.fixed().is_none()) || (o.reusable && !s.reusable()) || (!o.to_eos && s.to_eos()) {
        return Rc::new(Sc::Fix(gen_fix(ctx)));
    }
    s
}

fn gen_schema_inner(ctx: &Ctx, o: GenOpt) -> S {
    let leaf = o.depth == 0 || ctx.chance(1, 6);
    let down = GenOpt { depth: o.depth.saturating_sub(1), ..o };
    let sub = GenOpt { to_eos: false, min1: false, ..down };
    if leaf {
        let k = ctx.weighted(&[
            30,
            if o.min1 { 0 } else { 3 },
            8,
            if o.reusable { 0 } else { 4 },
            if o.reusable { 0 } else { 3 },
            4,
            if o.to_eos && !o.fixed { 12 } else { 0 },
            if o.to_eos && !o.fixed { 6 } else { 0 },
            if o.to_eos && !o.fixed && (o.pad_ok || !o.enc) { 6 } else { 0 },
            if o.to_eos && !o.fixed && o.json { 3 } else { 0 },
            if o.to_eos && !o.fixed && o.json { 3 } else { 0 },
        ]);
        return Rc::new(match k {
            0 => Sc::Fix(gen_fix(ctx)),
            1 => Sc::Null,
            2 => Sc::Arr(ARR_SIZES[ctx.below(ARR_SIZES.len())]),
            3 => Sc::One(ctx.size(o.big)),
            4 => Sc::Str(ctx.size(o.big)),
            5 => Sc::StrL(ctx.size(o.big)),
            6 => Sc::Rest,
            7 => Sc::Utf8,
            8 => Sc::Pad(ctx.below(256) as u8, ctx.below(2) == 1),
            9 => Sc::Json,
            _ => Sc::Bin(ctx.below(BIN_KINDS as usize) as u8),
        });
    }
    let k = ctx.weighted(&[
        20,
        16,
        if o.fixed { 0 } else { 16 },
        if o.fixed { 0 } else { 8 },
        if o.reusable { 0 } else { 8 },
        5,
        4,
        3,
        4,
        if o.fixed { 0 } else { 5 },
        if o.maxb { 3 } else { 0 },
        3,
        6,
        if o.to_eos && !o.fixed { 10 } else { 0 },
    ]);
    Rc::new(match k {
        0 => {
            let n = ctx.weighted(&[8, 5, 3, 1, 1, 1, 1]) + 2;
            let mut v: Vec<S> = Vec::new();
            for i in 0..n {
                let last = i + 1 == n;
                v.push(gen_schema(ctx, if last { GenOpt { min1: false, ..down } } else { GenOpt { pad_ok: false, ..sub } }));
            }
            let chain = n == 2 && ctx.below(3) == 1;
            Sc::Tup(v, chain)
        }
        1 => {
            // Length frame: flexible content of any size, or fixed-size content of exactly that size.
            let x = gen_schema(ctx, GenOpt { to_eos: true, pad_ok: true, fixed: false, min1: false, ..down });
            if x.flexible() {
                let n = x.min() + ctx.size(o.big);
                let x = if o.maxb && ctx.chance(1, 12) { Rc::new(Sc::MaxB((n + ctx.below(3)) as u64, x)) } else { x };
                Sc::Len(n as u64, x)
            } else if let Some(n) = x.fixed() {
                Sc::Len(n as u64, x)
            } else {
                Sc::Len(ctx.size(o.big) as u64, Rc::new(if ctx.below(2) == 0 { Sc::Rest } else { Sc::Utf8 }))
            }
        }
        2 => {
            let x = gen_schema(ctx, GenOpt { to_eos: true, pad_ok: false, fixed: false, min1: false, reusable: false, ..down });
            let cap = x.min() as u64;
            Sc::Pre(gen_prefix(ctx, cap), x)
        }
        3 => {
            let x = gen_schema(ctx, GenOpt { reusable: true, min1: true, pad_ok: false, ..sub });
            let x = tolerant(ctx, x);
            Sc::Cnt(gen_prefix(ctx, 0), x)
        }
        4 => {
            let x = gen_schema(ctx, GenOpt { reusable: true, pad_ok: false, ..sub });
            let x = tolerant(ctx, x);
            Sc::CollN(many(ctx, &x, |ctx| ctx.size(if x.nodes() > 2 { 6 } else { 24 })), x)
        }
        5 => Sc::Map(gen_schema(ctx, down)),
        6 => {
            let x = gen_schema(ctx, GenOpt { depth: 0, pad_ok: false, json: false, ..down });
            let ok = matches!(*x, Sc::Fix(_) | Sc::Arr(_) | Sc::Rest | Sc::One(_) | Sc::Utf8 | Sc::Str(_) | Sc::StrL(_));
            if ok {
                Sc::TryMap(x)
            } else {
                Sc::TryMap(Rc::new(Sc::Fix(gen_fix(ctx))))
            }
        }
        7 => Sc::MapErr(gen_schema(ctx, down)),
        8 => {
            let om = ctx.below(3) == 2 && !o.min1;
            Sc::Omit(om, gen_schema(ctx, down))
        }
        9 => Sc::Flag(gen_schema(ctx, GenOpt { pad_ok: false, reusable: false, ..down })),
        10 => Sc::MaxB(1 << 62, gen_schema(ctx, down)),
        11 => Sc::Slice(gen_schema(ctx, down)),
        12 => Sc::Peek(gen_schema(ctx, GenOpt { pad_ok: down.pad_ok && !down.enc, ..down })),
        _ => {
            let x = gen_schema(ctx, GenOpt { reusable: true, min1: true, pad_ok: false, ..sub });
            Sc::Coll(tolerant(ctx, x))
        }
    })
}
/// A number of elements: rarely a large one, if they are small.
fn many(ctx: &Ctx, x: &Sc, few: impl FnOnce(&Ctx) -> usize) -> usize {
    if x.nodes() <= 3 && x.min() <= 8 {
        ctx.count(60, few)
    } else {
        few(ctx)
    }
}
/// Sometimes lets the elements of a collection tolerate the end of the stream in front of them.
fn tolerant(ctx: &Ctx, x: S) -> S {
    if x.min() > 0 && ctx.chance(1, 4) {
        Rc::new(Sc::Maybe(x))
    } else {
        x
    }
}

pub fn gen_string(ctx: &Ctx, n: usize) -> String {
    // Exactly n bytes of valid UTF-8, with multi-byte characters.
    let mut s = String::with_capacity(n);
    if n == 0 {
        return s;
    }
    // Characters that a text codec might be tempted to treat specially.
    const SPECIAL: &[char] = &[
        '\u{feff}', '\0', '\n', '\r', '\t', ' ', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', '\u{301}', '\u{7ff}', '\u{800}', '\u{200b}',
        '\u{2028}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{fffe}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '"', '\\', '/', '\u{1b}', '\u{1a}',
        '\u{2060}', 'A', 'I', 'ı', 'ß', '0', '%',
    ];
    let special = if ctx.chance(1, 5) { Some(SPECIAL[ctx.below(SPECIAL.len())]).filter(|c| c.len_utf8() <= n) } else { None };
    let n = n - special.map_or(0, char::len_utf8);
    let mut seed = ctx.u64();
    while s.len() < n {
        seed = crate::core::splitmix(seed);
        let left = n - s.len();
        let c = match (seed >> 8) % 8 {
            0 if left >= 4 => char::from_u32(0x1F300 + (seed >> 16) as u32 % 200).unwrap_or('x'),
            1 if left >= 3 => char::from_u32(0x3040 + (seed >> 16) as u32 % 80).unwrap_or('x'),
            2 if left >= 2 => char::from_u32(0xC0 + (seed >> 16) as u32 % 60).unwrap_or('x'),
            _ => (b'a' + ((seed >> 16) % 26) as u8) as char,
        };
        s.push(c);
    }
    if let Some(c) = special {
        let mut at = [0, s.len(), ctx.below(s.len() + 1)][ctx.below(3)];
        while !s.is_char_boundary(at) {
            at -= 1;
        }
        s.insert(at, c);
    }
    s
}

fn gen_raw(ctx: &Ctx, f: Fix) -> u64 {
    let max = f.max_u();
    match ctx.weighted(&[4, 3, 2, 2]) {
        0 => ctx.u64() & max,
        1 => ctx.draw(4),
        2 => max - ctx.draw(3),
        _ => {
            let bit = ctx.below(8 * f.width());
            (1u64 << bit).wrapping_sub(ctx.draw(2)) & max
        }
    }
}

pub fn gen_json(ctx: &Ctx, depth: usize) -> Value {
    gen_json_up_to(ctx, depth, 300)
}
fn gen_json_up_to(ctx: &Ctx, depth: usize, big: usize) -> Value {
    let k = ctx.weighted(&[3, 3, 6, 3, 6, if depth > 0 { 5 } else { 0 }, if depth > 0 { 4 } else { 0 }]);
    match k {
        0 => Value::Null,
        1 => Value::Bool(ctx.below(2) == 1),
        2 => match ctx.below(3) {
            0 => Value::from(ctx.below(1000) as u64),
            1 => Value::from(ctx.u64()),
            _ => Value::from(ctx.u64() as i64),
        },
        3 => Value::from(f64::from(ctx.below(100_000) as u32) / 8.0),
        4 => {
            let n = ctx.size(big);
            Value::from(gen_json_string(ctx, n))
        }
        5 => Value::Array((0..ctx.below(5)).map(|_| gen_json_up_to(ctx, depth - 1, big)).collect()),
        _ => {
            let mut m = serde_json::Map::new();
            for i in 0..ctx.below(5) {
                let n = ctx.below(6);
                m.insert(format!("{i}{}", gen_json_string(ctx, n)), gen_json_up_to(ctx, depth - 1, big));
            }
            Value::Object(m)
        }
    }
}
fn gen_json_string(ctx: &Ctx, n: usize) -> String {
    let mut s = gen_string(ctx, n);
    if ctx.chance(1, 4) {
        s.push_str("\"\\\n\u{1}/");
    }
    s
}

pub fn gen_bin(ctx: &Ctx, k: u8, big: usize) -> BinVal {
    match k {
        0 => BinVal::T0((ctx.below(256) as u8, ctx.below(65536) as u16, ctx.u64() as u32)),
        1 => BinVal::T1(if ctx.below(2) == 1 { Some(ctx.u64()) } else { None }),
        2 => BinVal::T2((ctx.below(2) == 1, ctx.u64() as i64, char::from_u32(0x21 + ctx.below(500) as u32).unwrap_or('c'))),
        3 => BinVal::T3((0..ctx.size(big.min(70_001))).map(|_| ctx.below(65536) as u16).collect()),
        4 => {
            let n = ctx.size(big.max(200));
            BinVal::T4((gen_string(ctx, n), ctx.below(256) as u8))
        }
        _ => {
            fn g(ctx: &Ctx, d: usize) -> Bt5 {
                match ctx.below(if d == 0 { 3 } else { 4 }) {
                    0 => Bt5::A,
                    1 => Bt5::B(ctx.u64() as i32),
                    2 => {
                        let n = ctx.size(60);
                        Bt5::C { x: ctx.below(256) as u8, y: ctx.bytes(n) }
                    }
                    _ => Bt5::D(Box::new(g(ctx, d - 1))),
                }
            }
            BinVal::T5(g(ctx, 4))
        }
    }
}

/// A valid value for `sc`. `big` bounds the size of variable parts.
pub fn gen_val(ctx: &Ctx, sc: &Sc, big: usize) -> Val {
    match sc {
        Sc::Fix(f) => f.val(gen_raw(ctx, *f)),
        Sc::Null => Val::Unit,
        Sc::Arr(n) | Sc::One(n) => Val::B(ctx.bytes(*n)),
        Sc::Str(n) | Sc::StrL(n) => Val::S(gen_string(ctx, *n)),
        Sc::Len(n, x) => gen_exact(ctx, x, *n as usize, big),
        Sc::Pre(f, x) => {
            let mut b = big.min(f.max_u() as usize);
            loop {
                let v = gen_val(ctx, x, b);
                let mut out = Vec::new();
                ref_enc(x, &v, &mut out);
                if out.len() as u64 <= f.max_u() {
                    return v;
                }
                if b == 0 {
                    // The composition has no value short enough for this prefix: use its smallest one.
                    return min_val(x);
                }
                b /= 8;
            }
        }
        Sc::Cnt(f, x) => {
            let n = many(ctx, x, |ctx| ctx.size(if x.nodes() > 2 { 4 } else { 20 }.min(big)));
            let n = n.min(f.max_u().min(1 << 20) as usize);
            Val::L((0..n).map(|_| gen_val(ctx, x, if n > 40 { 3 } else { big / 4 })).collect())
        }
        Sc::CollN(n, x) => Val::L((0..*n).map(|_| gen_val(ctx, x, if *n > 40 { 3 } else { big / 4 })).collect()),
        Sc::Tup(v, _) => Val::L(v.iter().map(|x| gen_val(ctx, x, big)).collect()),
        Sc::Map(x) => Val::Tag(Box::new(gen_val(ctx, x, big))),
        Sc::TryMap(x) => {
            for _ in 0..3 {
                let v = gen_val(ctx, x, big);
                if !rejected(x, &v) {
                    return v;
                }
            }
            match x.fixed() {
                Some(_) => min_val(x),
                None => min_val(x),
            }
        }
        Sc::MapErr(x) | Sc::MaxB(_, x) | Sc::Slice(x) | Sc::Peek(x) | Sc::Maybe(x) => gen_val(ctx, x, big),
        Sc::Omit(true, _) => Val::O(None),
        Sc::Omit(false, x) => Val::O(Some(Box::new(gen_val(ctx, x, big)))),
        Sc::Flag(x) => {
            if ctx.below(3) == 0 {
                Val::O(None)
            } else {
                Val::O(Some(Box::new(gen_val(ctx, x, big))))
            }
        }
        Sc::Rest => {
            let n = ctx.size(big);
            Val::B(ctx.bytes(n))
        }
        Sc::Utf8 => {
            let n = ctx.size(big);
            Val::S(gen_string(ctx, n))
        }
        Sc::Pad(b, _) => Val::Pad(*b, ctx.size(big)),
        Sc::Coll(x) => {
            let n = many(ctx, x, |ctx| ctx.size(if x.nodes() > 2 { 4 } else { 40 }.min(big)));
            Val::L((0..n).map(|_| gen_val(ctx, x, if n > 40 { 3 } else { big / 4 })).collect())
        }
        Sc::Json => Val::J(gen_json_up_to(ctx, if big > 8 { 2 } else { 0 }, if big >= 300 { big.min(100_000) } else { 300 })),
        Sc::Bin(k) => Val::Bin(gen_bin(ctx, *k, if big >= 300 { big.min(100_000) } else { 60 })),
    }
}

pub fn min_val(sc: &Sc) -> Val {
    match sc {
        Sc::Fix(f) => f.val(0),
        Sc::Null => Val::Unit,
        Sc::Arr(n) | Sc::One(n) => Val::B(vec![0; *n]),
        Sc::Str(n) | Sc::StrL(n) => Val::S("a".repeat(*n)),
        Sc::Len(n, x) => exact_min(x, *n as usize),
        Sc::Pre(_, x) | Sc::MapErr(x) | Sc::MaxB(_, x) | Sc::Slice(x) | Sc::Peek(x) | Sc::Maybe(x) | Sc::TryMap(x) => min_val(x),
        Sc::Cnt(..) | Sc::Coll(_) => Val::L(vec![]),
        Sc::CollN(n, x) => Val::L((0..*n).map(|_| min_val(x)).collect()),
        Sc::Tup(v, _) => Val::L(v.iter().map(|x| min_val(x)).collect()),
        Sc::Map(x) => Val::Tag(Box::new(min_val(x))),
        Sc::Omit(true, _) | Sc::Flag(_) => Val::O(None),
        Sc::Omit(false, x) => Val::O(Some(Box::new(min_val(x)))),
        Sc::Rest => Val::B(vec![]),
        Sc::Utf8 => Val::S(String::new()),
        Sc::Pad(b, _) => Val::Pad(*b, 0),
        Sc::Json => Val::J(Value::from(0)),
        Sc::Bin(0) => Val::Bin(BinVal::T0((0, 0, 0))),
        Sc::Bin(1) => Val::Bin(BinVal::T1(None)),
        Sc::Bin(2) => Val::Bin(BinVal::T2((false, 0, 'a'))),
        Sc::Bin(3) => Val::Bin(BinVal::T3(vec![])),
        Sc::Bin(4) => Val::Bin(BinVal::T4((String::new(), 0))),
        Sc::Bin(_) => Val::Bin(BinVal::T5(Bt5::A)),
    }
}

fn exact_min(sc: &Sc, n: usize) -> Val {
    match sc {
        Sc::Rest => Val::B(vec![0; n]),
        Sc::Utf8 => Val::S("a".repeat(n)),
        Sc::Pad(b, _) => Val::Pad(*b, n),
        Sc::Coll(x) => Val::L((0..n).map(|_| min_val(x)).collect()),
        Sc::Tup(v, _) => {
            let (last, init) = v.split_last().expect("harness");
            let mut used = 0;
            let mut out = Vec::new();
            for x in init {
                used += x.fixed().unwrap_or(0);
                out.push(min_val(x));
            }
            out.push(if last.flexible() { exact_min(last, n - used) } else { min_val(last) });
            Val::L(out)
        }
        Sc::Map(x) if x.flexible() => Val::Tag(Box::new(exact_min(x, n))),
        Sc::Omit(false, x) if x.flexible() => Val::O(Some(Box::new(exact_min(x, n)))),
        Sc::MapErr(x) | Sc::MaxB(_, x) | Sc::Slice(x) | Sc::Peek(x) | Sc::Maybe(x) if x.flexible() => exact_min(x, n),
        s => min_val(s),
    }
}

/// A value whose encoding has exactly `n` bytes (`sc` is flexible, or fixed with that size).
pub fn gen_exact(ctx: &Ctx, sc: &Sc, n: usize, big: usize) -> Val {
    if !sc.flexible() {
        return gen_val(ctx, sc, big);
    }
    match sc {
        Sc::Rest => Val::B(ctx.bytes(n)),
        Sc::Utf8 => Val::S(gen_string(ctx, n)),
        Sc::Pad(b, _) => Val::Pad(*b, n),
        Sc::Coll(x) => {
            if n > 64 {
                exact_min(sc, n)
            } else {
                Val::L((0..n).map(|_| gen_val(ctx, x, 1)).collect())
            }
        }
        Sc::Tup(v, _) => {
            let (last, init) = v.split_last().expect("harness");
            let mut used = 0;
            let mut out = Vec::new();
            for x in init {
                used += x.fixed().expect("harness: flexible tuple");
                out.push(gen_val(ctx, x, big));
            }
            out.push(gen_exact(ctx, last, n - used, big));
            Val::L(out)
        }
        Sc::Map(x) => Val::Tag(Box::new(gen_exact(ctx, x, n, big))),
        Sc::Omit(_, x) => Val::O(Some(Box::new(gen_exact(ctx, x, n, big)))),
        Sc::MapErr(x) | Sc::MaxB(_, x) | Sc::Slice(x) | Sc::Peek(x) | Sc::Maybe(x) => gen_exact(ctx, x, n, big),
        _ => unreachable!("harness: gen_exact"),
    }
}

/// Whether the `TryMap` above `x` refuses `v` (first encoded byte is `REJECT`).
pub fn rejected(x: &Sc, v: &Val) -> bool {
    let first = match (x, v) {
        (Sc::Fix(f), v) => {
            let mut out = Vec::new();
            f.put(v.raw(), &mut out);
            out.first().copied()
        }
        (_, Val::B(b)) => b.first().copied(),
        (_, Val::S(s)) => s.as_bytes().first().copied(),
        _ => None,
    };
    first == Some(REJECT)
}

pub fn enc_bin(b: &BinVal) -> Vec<u8> {
    match b {
        BinVal::T0(x) => bincode::serialize(x),
        BinVal::T1(x) => bincode::serialize(x),
        BinVal::T2(x) => bincode::serialize(x),
        BinVal::T3(x) => bincode::serialize(x),
        BinVal::T4(x) => bincode::serialize(x),
        BinVal::T5(x) => bincode::serialize(x),
    }
    .expect("harness: bincode")
}

pub fn ref_enc(sc: &Sc, v: &Val, out: &mut Vec<u8>) {
    match (sc, v) {
        (Sc::Fix(f), v) => f.put(v.raw(), out),
        (Sc::Null, _) => {}
        (_, Val::B(b)) if matches!(sc, Sc::Arr(_) | Sc::One(_) | Sc::Rest) => out.extend_from_slice(b),
        (_, Val::S(s)) if matches!(sc, Sc::Str(_) | Sc::StrL(_) | Sc::Utf8) => out.extend_from_slice(s.as_bytes()),
        (Sc::Pad(..), Val::Pad(b, n)) => out.extend(std::iter::repeat(*b).take(*n)),
        (Sc::Len(_, x), v) => ref_enc(x, v, out),
        (Sc::Pre(f, x), v) => {
            let mut body = Vec::new();
            ref_enc(x, v, &mut body);
            f.put(body.len() as u64, out);
            out.extend_from_slice(&body);
        }
        (Sc::Cnt(f, x), Val::L(l)) => {
            f.put(l.len() as u64, out);
            for v in l {
                ref_enc(x, v, out);
            }
        }
        (Sc::CollN(_, x), Val::L(l)) | (Sc::Coll(x), Val::L(l)) => {
            for v in l {
                ref_enc(x, v, out);
            }
        }
        (Sc::Tup(xs, _), Val::L(l)) => {
            assert_eq!(xs.len(), l.len(), "harness");
            for (x, v) in xs.iter().zip(l) {
                ref_enc(x, v, out);
            }
        }
        (Sc::Map(x), Val::Tag(v)) => ref_enc(x, v, out),
        (Sc::TryMap(x), v) | (Sc::MapErr(x), v) | (Sc::MaxB(_, x), v) | (Sc::Slice(x), v) | (Sc::Peek(x), v) | (Sc::Maybe(x), v) => ref_enc(x, v, out),
        (Sc::Omit(..), Val::O(None)) => {}
        (Sc::Omit(_, x), Val::O(Some(v))) => ref_enc(x, v, out),
        (Sc::Flag(_), Val::O(None)) => out.push(0),
        (Sc::Flag(x), Val::O(Some(v))) => {
            out.push(1);
            ref_enc(x, v, out);
        }
        (Sc::Json, Val::J(j)) => out.extend(serde_json::to_vec(j).expect("harness: json")),
        (Sc::Bin(_), Val::Bin(b)) => out.extend(enc_bin(b)),
        (s, v) => panic!("harness: ref_enc {s:?} {v:?}"),
    }
}
pub fn enc(sc: &Sc, v: &Val) -> Vec<u8> {
    let mut out = Vec::new();
    ref_enc(sc, v, &mut out);
    out
}

/// Why the reference decoder has no item.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum De {
    /// the stream (or frame) ends inside the item
    Trunc,
    /// content is not acceptable
    Bad,
    /// content did not use its frame exactly
    Frame,
}

fn dbin<T: for<'a> Deserialize<'a>>(b: &[u8]) -> Result<T, De> {
    bincode::deserialize::<T>(b).map_err(|_| De::Bad)
}

/// Decodes one item of `sc` from `b[pos..]`, where `b` ends at the end of the stream or frame.
pub fn ref_dec(sc: &Sc, b: &[u8], pos: usize) -> Result<(Val, usize), De> {
    let need = |n: usize| if b.len() - pos < n { Err(De::Trunc) } else { Ok(()) };
    Ok(match sc {
        Sc::Fix(f) => {
            need(f.width())?;
            (f.val(f.get(&b[pos..])), pos + f.width())
        }
        Sc::Null => (Val::Unit, pos),
        Sc::Arr(n) | Sc::One(n) => {
            need(*n)?;
            (Val::B(b[pos..pos + n].to_vec()), pos + n)
        }
        Sc::Str(n) | Sc::StrL(n) => {
            need(*n)?;
            let s = String::from_utf8(b[pos..pos + n].to_vec()).map_err(|_| De::Bad)?;
            (Val::S(s), pos + n)
        }
        Sc::Len(n, x) => ref_frame(x, b, pos, *n)?,
        Sc::Pre(f, x) => {
            need(f.width())?;
            let n = f.get(&b[pos..]);
            ref_frame(x, b, pos + f.width(), n)?
        }
        Sc::Cnt(f, x) => {
            need(f.width())?;
            let n = f.get(&b[pos..]);
            let mut p = pos + f.width();
            let mut l = Vec::new();
            for _ in 0..n {
                let (v, q) = ref_dec(x, b, p)?;
                l.push(v);
                p = q;
            }
            (Val::L(l), p)
        }
        Sc::CollN(n, x) => {
            let mut p = pos;
            let mut l = Vec::new();
            for _ in 0..*n {
                let (v, q) = ref_dec(x, b, p)?;
                l.push(v);
                p = q;
            }
            (Val::L(l), p)
        }
        Sc::Tup(xs, _) => {
            let mut p = pos;
            let mut l = Vec::new();
            for x in xs {
                let (v, q) = ref_dec(x, b, p)?;
                l.push(v);
                p = q;
            }
            (Val::L(l), p)
        }
        Sc::Map(x) => {
            let (v, p) = ref_dec(x, b, pos)?;
            (Val::Tag(Box::new(v)), p)
        }
        Sc::TryMap(x) => {
            let (v, p) = ref_dec(x, b, pos)?;
            if rejected(x, &v) {
                return Err(De::Bad);
            }
            (v, p)
        }
        Sc::MapErr(x) | Sc::Slice(x) | Sc::Peek(x) | Sc::Maybe(x) => ref_dec(x, b, pos)?,
        Sc::MaxB(_, x) => ref_dec(x, b, pos)?,
        Sc::Omit(true, _) => (Val::O(None), pos),
        Sc::Omit(false, x) => {
            let (v, p) = ref_dec(x, b, pos)?;
            (Val::O(Some(Box::new(v))), p)
        }
        Sc::Flag(x) => {
            need(1)?;
            if b[pos] == 0 {
                (Val::O(None), pos + 1)
            } else {
                let (v, p) = ref_dec(x, b, pos + 1)?;
                (Val::O(Some(Box::new(v))), p)
            }
        }
        Sc::Rest => (Val::B(b[pos..].to_vec()), b.len()),
        Sc::Utf8 => (Val::S(String::from_utf8(b[pos..].to_vec()).map_err(|_| De::Bad)?), b.len()),
        Sc::Pad(x, strict) => {
            if *strict && b[pos..].iter().any(|y| y != x) {
                return Err(De::Bad);
            }
            (Val::Unit, b.len())
        }
        Sc::Coll(x) => {
            let mut p = pos;
            let mut l = Vec::new();
            while p < b.len() {
                let (v, q) = ref_dec(x, b, p)?;
                assert!(q > p, "harness: zero-width element");
                l.push(v);
                p = q;
            }
            (Val::L(l), p)
        }
        Sc::Json => (Val::J(serde_json::from_slice(&b[pos..]).map_err(|_| De::Bad)?), b.len()),
        Sc::Bin(k) => {
            let x = &b[pos..];
            let v = match k {
                0 => BinVal::T0(dbin(x)?),
                1 => BinVal::T1(dbin(x)?),
                2 => BinVal::T2(dbin(x)?),
                3 => BinVal::T3(dbin(x)?),
                4 => BinVal::T4(dbin(x)?),
                _ => BinVal::T5(dbin(x)?),
            };
            (Val::Bin(v), b.len())
        }
    })
}

fn ref_frame(x: &Sc, b: &[u8], pos: usize, n: u64) -> Result<(Val, usize), De> {
    if ((b.len() - pos) as u64) < n {
        return Err(De::Trunc);
    }
    let end = pos + n as usize;
    match ref_dec(x, &b[..end], pos) {
        Ok((v, p)) if p == end => Ok((v, p)),
        Ok(_) => Err(De::Frame),
        // The content ends early inside a complete frame.
        Err(De::Trunc) => Err(De::Frame),
        Err(e) => Err(e),
    }
}
