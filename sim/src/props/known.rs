//! Fixed histories of genuine defects that were recorded and not repaired (see DESIGN.md and
//! /verif/known-findings.txt). Each returns true while the defect is there.
use bytecodec::fixnum::{U16beEncoder, U24beEncoder, U8Encoder};
use bytecodec::tuple::TupleEncoder;
use bytecodec::{Encode, EncodeExt, Eos, ErrorKind, SizedEncode};

/// `Last::exact_requiring_bytes` leaves out the last item while that has not been started.
pub fn last_exact() -> bool {
    let mut e = U16beEncoder::new().last(7);
    let said = e.exact_requiring_bytes();
    let mut buf = [0u8; 8];
    let n = e.encode(&mut buf, Eos::new(false)).unwrap_or(0);
    said != n as u64
}

/// A tuple whose second element is out of range is refused, but its first element has been started.
pub fn tuple_refused() -> bool {
    let mut e = TupleEncoder::new((U8Encoder::new(), U24beEncoder::new()));
    match e.start_encoding((1, 0x0100_0000)) {
        Err(ref x) if *x.kind() == ErrorKind::InvalidInput => {}
        _ => return false,
    }
    let mut buf = [0u8; 8];
    let wrote = e.encode(&mut buf, Eos::new(false)).unwrap_or(0);
    wrote > 0 || e.start_encoding((1, 2)).is_err()
}

/// A sequence refused by `PreEncode` half way leaves the inner encoder in the middle of it.
pub fn pre_encode_refused() -> bool {
    let mut e = U24beEncoder::new().repeat().pre_encode();
    if e.start_encoding(vec![1u32, 0x0100_0000, 3].into_iter()).is_ok() {
        return false;
    }
    let mut buf = [0u8; 16];
    if e.start_encoding(vec![9u32].into_iter()).is_err() {
        return true;
    }
    let n = e.encode(&mut buf, Eos::new(false)).unwrap_or(0);
    buf[..n] != [0, 0, 9]
}
