//! Codecs written by hand, as users of the library write them: with the helper macros, the tagged traits and
//! the implementations of the traits for references and boxes.
use crate::codecs::*;
use crate::schema::Val;
use bytecodec::{bytecodec_try_decode, bytecodec_try_encode};
use bytecodec::{ByteCount, Decode, Encode, Eos, Error, ErrorKind, Result, SizedEncode, TaggedDecode, TryTaggedDecode};
use trackable::track;

/// Parts in sequence, like a tuple of any number of elements.
pub struct HandDec {
    pub parts: Vec<PD>,
    pub env: Env,
    /// the note of the part in progress, as the macro was told
    arm: usize,
    at: usize,
}
impl HandDec {
    pub fn new(parts: Vec<PD>, env: &Env) -> Self {
        let arm = env.0.ctx.below(4);
        HandDec { parts, env: env.clone(), arm, at: 0 }
    }
    fn go(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        let mut offset = 0;
        for i in 0..self.parts.len() {
            self.at = i;
            match self.arm {
                0 => bytecodec_try_decode!(self.parts[i], offset, buf, eos),
                1 => bytecodec_try_decode!(self.parts[i], offset, buf, eos, "the part {}", i),
                2 => bytecodec_try_decode!(self.parts[i], offset, buf, eos; i),
                _ => {
                    let mut part = Box::new(&mut self.parts[i]);
                    bytecodec_try_decode!(part, offset, buf, eos, "the boxed part {}", i)
                }
            }
        }
        Ok(offset)
    }
}
fn noted(env: &Env, e: Error, arm: usize, at: usize) -> Error {
    let note = match arm {
        0 => return e,
        1 => format!("the part {at}\n"),
        2 => format!("i={at}"),
        _ => format!("the boxed part {at}\n"),
    };
    let s = e.to_string();
    if !s.contains(&note) {
        env.report("note-lost", format!("the error of part {at} lacks the note {note:?}: {s}"));
    }
    e
}
impl Decode for HandDec {
    type Item = Val;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        self.go(buf, eos).map_err(|e| noted(&self.env, e, self.arm, self.at))
    }
    fn finish_decoding(&mut self) -> Result<Val> {
        if !self.is_idle() {
            return Err(ErrorKind::IncompleteDecoding.into_err("parts are missing"));
        }
        let all: Vec<Result<Val>> = self.parts.iter_mut().map(|p| p.finish_decoding()).collect();
        let mut v = vec![];
        for x in all {
            v.push(track!(x)?);
        }
        Ok(Val::L(v))
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.parts.iter().fold(ByteCount::Finite(0), |n, p| n.add_for_decoding(p.requiring_bytes()))
    }
    fn is_idle(&self) -> bool {
        self.parts.iter().all(|p| p.is_idle())
    }
}

pub struct HandEnc {
    pub parts: Vec<PE>,
    pub env: Env,
    arm: usize,
    at: usize,
}
impl HandEnc {
    pub fn new(parts: Vec<PE>, env: &Env) -> Self {
        let arm = env.0.ctx.below(4);
        HandEnc { parts, env: env.clone(), arm, at: 0 }
    }
    fn go(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        let mut offset = 0;
        for i in 0..self.parts.len() {
            self.at = i;
            match self.arm {
                0 => bytecodec_try_encode!(self.parts[i], offset, buf, eos),
                1 => bytecodec_try_encode!(self.parts[i], offset, buf, eos, "the part {}", i),
                2 => bytecodec_try_encode!(self.parts[i], offset, buf, eos; i),
                _ => {
                    let mut part = Box::new(&mut self.parts[i]);
                    bytecodec_try_encode!(part, offset, buf, eos, "the boxed part {}", i)
                }
            }
        }
        Ok(offset)
    }
}
impl Encode for HandEnc {
    type Item = Val;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        self.go(buf, eos).map_err(|e| noted(&self.env, e, self.arm, self.at))
    }
    fn start_encoding(&mut self, item: Val) -> Result<()> {
        if !self.is_idle() {
            return Err(ErrorKind::EncoderFull.into_err("busy"));
        }
        for (p, x) in self.parts.iter_mut().zip(item.l()) {
            track!(p.start_encoding(x))?;
        }
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.parts.iter().fold(ByteCount::Finite(0), |n, p| n.add_for_encoding(p.requiring_bytes()))
    }
    fn is_idle(&self) -> bool {
        self.parts.iter().all(|p| p.is_idle())
    }
}
impl SizedEncode for HandEnc {
    fn exact_requiring_bytes(&self) -> u64 {
        fn size<E: SizedEncode>(e: E) -> u64 {
            e.exact_requiring_bytes()
        }
        // Through the implementations for boxes.
        self.parts.iter().map(|p| size(Box::new(ByShared(p)))).sum()
    }
}
/// Only the exact size can be asked through a shared reference.
struct ByShared<'a, E>(&'a E);
impl<E: SizedEncode> Encode for ByShared<'_, E> {
    type Item = E::Item;
    fn encode(&mut self, _: &mut [u8], _: Eos) -> Result<usize> {
        panic!("harness: shared")
    }
    fn start_encoding(&mut self, _: E::Item) -> Result<()> {
        panic!("harness: shared")
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}
impl<E: SizedEncode> SizedEncode for ByShared<'_, E> {
    fn exact_requiring_bytes(&self) -> u64 {
        self.0.exact_requiring_bytes()
    }
}

/// One of several codecs, chosen by a tag.
pub struct Union {
    pub alts: Vec<PD>,
    pub cur: Option<usize>,
    /// how often it was told to start
    pub starts: usize,
    /// whether it calls itself idle while no tag has been given
    pub rests: bool,
}
impl Union {
    fn begin(&mut self, tag: u64) -> Result<bool> {
        self.starts += 1;
        if self.cur.is_some() {
            return Err(ErrorKind::IncompleteDecoding.into_err("busy"));
        }
        self.cur = (tag < self.alts.len() as u64).then_some(tag as usize);
        Ok(self.cur.is_some())
    }
}
impl Decode for Union {
    type Item = Val;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        match self.cur {
            Some(i) => self.alts[i].decode(buf, eos),
            None => Err(ErrorKind::InconsistentState.into_err("no tag")),
        }
    }
    fn finish_decoding(&mut self) -> Result<Val> {
        match self.cur {
            Some(i) => {
                if self.alts[i].is_idle() {
                    self.cur = None;
                }
                self.alts[i].finish_decoding()
            }
            None => Err(ErrorKind::IncompleteDecoding.into_err("no tag")),
        }
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.cur.map_or(ByteCount::Unknown, |i| self.alts[i].requiring_bytes())
    }
    fn is_idle(&self) -> bool {
        self.cur.map_or(self.rests, |i| self.alts[i].is_idle())
    }
}
impl TaggedDecode for Union {
    type Tag = u64;
    fn start_decoding(&mut self, tag: u64) -> Result<()> {
        match self.begin(tag) {
            Ok(true) => Ok(()),
            Ok(false) => Err(ErrorKind::InvalidInput.into_err("unknown tag")),
            Err(e) => Err(e),
        }
    }
}
impl TryTaggedDecode for Union {
    type Tag = u64;
    fn try_start_decoding(&mut self, tag: u64) -> Result<bool> {
        self.begin(tag)
    }
}
fn start<T: TaggedDecode + ?Sized>(t: &mut T, tag: T::Tag) -> Result<()> {
    t.start_decoding(tag)
}
fn try_start<T: TryTaggedDecode + ?Sized>(t: &mut T, tag: T::Tag) -> Result<bool> {
    t.try_start_decoding(tag)
}

/// How the body of a tagged message is reached.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Way {
    Plain,
    Boxed,
    Ref,
    BoxedRef,
}
pub const WAYS: [Way; 4] = [Way::Plain, Way::Boxed, Way::Ref, Way::BoxedRef];

/// A tag and what it announces. Messages with an unknown tag are refused, or have no body (`tolerant`).
pub struct Tagged {
    pub tag: PD,
    pub body: Box<Union>,
    pub way: Way,
    pub tolerant: bool,
    pub tagged: Option<u64>,
    pub skipped: bool,
    /// starts that were not part of the stream
    pub strays: usize,
}
impl Tagged {
    pub fn new(tag: PD, alts: Vec<PD>, way: Way, tolerant: bool, rests: bool) -> Self {
        Tagged { tag, body: Box::new(Union { alts, cur: None, starts: 0, rests }), way, tolerant, tagged: None, skipped: false, strays: 0 }
    }
    pub fn start(&mut self, tag: u64) -> Result<bool> {
        if self.tolerant {
            match self.way {
                Way::Plain => try_start(&mut *self.body, tag),
                Way::Boxed => try_start(&mut self.body, tag),
                Way::Ref => try_start(&mut &mut *self.body, tag),
                Way::BoxedRef => {
                    let mut b: Box<dyn TryTaggedDecode<Tag = u64, Item = Val> + '_> = Box::new(&mut self.body);
                    try_start(&mut b, tag)
                }
            }
        } else {
            match self.way {
                Way::Plain => start(&mut *self.body, tag),
                Way::Boxed => start(&mut self.body, tag),
                Way::Ref => start(&mut &mut *self.body, tag),
                Way::BoxedRef => {
                    let mut b: Box<dyn TaggedDecode<Tag = u64, Item = Val> + '_> = Box::new(&mut self.body);
                    start(&mut b, tag)
                }
            }
            .map(|()| true)
        }
    }
}
impl Decode for Tagged {
    type Item = Val;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        let mut offset = 0;
        if self.tagged.is_none() {
            bytecodec_try_decode!(self.tag, offset, buf, eos, "the tag");
            let t = track!(self.tag.finish_decoding())?.u();
            self.tagged = Some(t);
            self.skipped = !track!(self.start(t), "tag={}", t)?;
        }
        if !self.skipped {
            let tag = self.tagged;
            let mut body = &mut self.body;
            let b = &mut body;
            bytecodec_try_decode!(b, offset, buf, eos; tag);
        }
        Ok(offset)
    }
    fn finish_decoding(&mut self) -> Result<Val> {
        if !self.is_idle() {
            return Err(ErrorKind::IncompleteDecoding.into_err("message incomplete"));
        }
        let tag = Val::U(self.tagged.take().unwrap_or(0));
        let body = if self.skipped { None } else { Some(Box::new(track!(self.body.finish_decoding())?)) };
        self.skipped = false;
        Ok(Val::L(vec![tag, Val::O(body)]))
    }
    fn requiring_bytes(&self) -> ByteCount {
        match self.tagged {
            None => self.tag.requiring_bytes(),
            Some(_) if self.skipped => ByteCount::Finite(0),
            Some(_) => self.body.requiring_bytes(),
        }
    }
    fn is_idle(&self) -> bool {
        self.tagged.is_some() && (self.skipped || self.body.is_idle())
    }
}
