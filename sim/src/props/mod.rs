//! One module per group of properties. A scenario is one simulated run.
use crate::core::{Ctx, R};

pub mod basic;
pub mod bufio;
pub mod combi;
pub mod funcs;
pub mod hand;
pub mod huge;
pub mod known;
pub mod misc;
pub mod mono;
pub mod net;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&Ctx) -> R,
    /// runs of the quick tier (upper bound; also limited by wall time)
    pub quick: u64,
    /// real components exercised / stubs
    pub real: &'static str,
    pub stub: &'static str,
    pub rule: &'static str,
}

/// Deterministic demonstrations of known findings: `probe` is true while the finding is there.
pub struct Known {
    pub id: &'static str,
    pub key: &'static str,
    pub what: &'static str,
    pub probe: fn() -> bool,
}

const CODECS: &str = "all of bytecodec's codecs and combinators named by the composition (src/*.rs), serde_json, bincode";
const NOSTUB: &str = "none inside bytecodec; the caller's schedule, the transports and the user closures are simulated";

macro_rules! p {
    ($id:literal, $run:path, $quick:expr, $rule:literal) => {
        Prop { id: $id, run: $run, quick: $quick, real: CODECS, stub: NOSTUB, rule: $rule }
    };
}
pub const PROPS: &[Prop] = &[
    p!("C01", basic::c01, 3_000_000, "random composition, items, cut, end announcement; non-trivial: at least one partial or empty piece or a damaged stream"),
    p!("C02", basic::c02, 3_000_000, "random composition, items, cut of the output; non-trivial: at least one partial or empty buffer or transport fault"),
    p!("C03", net::c03, 1_200_000, "two nodes, random item sequences, buffer and pipe sizes, schedule, transport faults, cut; non-trivial: at least one transport fault, cut or stall"),
    p!("C04", basic::c04, 4_000_000, "random composition, items and following bytes, cut, end announcement; non-trivial: at least one partial piece or surplus call"),
    p!("C05", basic::c05, 3_500_000, "random composition, items, output cut and capacity; non-trivial: at least one partial buffer or surplus call"),
    p!("C06", basic::c06, 3_000_000, "random composition, items, cut, counts observed at every level around every call; non-trivial: at least one partial piece"),
    p!("C07", basic::c07, 5_000_000, "random composition, items, truncation point inside an item, cut, end announcement; non-trivial: the truncation is inside an item"),
    p!("C08", basic::c08, 4_000_000, "random composition, items, capacity of the output, cut; non-trivial: the output ends early or was cut"),
    p!("C09", basic::c09, 4_000_000, "random composition, items, cut, premature requests; non-trivial: at least one premature request or partial piece"),
    p!("C10", basic::c10, 3_000_000, "random composition, items, refused items while idle and busy, cut; non-trivial: at least one refused item or partial buffer"),
    p!("C11", combi::c11, 5_000_000, "random frames and contents (real or observing), cuts, lengths changed between and within items; non-trivial: a partial piece, a misfit or a refused change"),
    p!("C12", combi::c12, 6_000_000, "random composition, limits around the item sizes, cuts, limits changed between and within items; non-trivial: a partial piece, a change or an item over the limit"),
    p!("C13", combi::c13, 2_500_000, "random streams, turns, grants, output buffers and input cuts; non-trivial: more than one turn or a partial piece"),
    p!("C14", bufio::c14, 7_000_000, "random capacities, operations and transport outcomes; non-trivial: at least one fault"),
    p!("C15", bufio::c15, 6_000_000, "random capacities, polls and transport outcomes; non-trivial: at least one fault"),
    p!("C16", net::c16, 700_000, "two nodes with three tasks each, random items, sizes, schedule, wake-ups and transport faults; non-trivial: at least one fault or migrated waker"),
    p!("C17", bufio::c17, 6_000_000, "random composition, items, following bytes, truncation, short reads/writes and errors; non-trivial: at least one fault"),
    p!("C18", misc::c18, 6_000_000, "random composition, damaged and hostile streams, cuts; non-trivial: a damaged or hostile stream or a partial piece"),
    p!("C19", combi::c19, 4_000_000, "random histories of items, damaged items and changes of the configuration; non-trivial: a partial piece, a damaged item or a change"),
    p!("C20", combi::c20, 8_000_000, "random stream, cut, announcement of the end, empty calls, truncation; non-trivial: a partial or empty piece, an end between items, a truncation or a foreign byte"),
    p!("C21", combi::c21, 5_000_000, "random composition, items, interleaving of decode, peek, peek_mut and finish; non-trivial: at least one peek, surplus call or partial piece"),
    p!("C22", misc::c22, 4_000_000, "random items of several types, failing serializers, damaged streams, cuts; non-trivial: a partial piece, failure or damage"),
    p!("C23", misc::c23, 5_000_000, "random composition, items, one-shot, ahead-of-time and incremental in any order, missing and surplus bytes; non-trivial: always"),
    p!("C25", funcs::c25, 4_000_000, "random compositions of functions, items, refusals, truncation, cuts; non-trivial: always"),
    p!("C26", hand::c26, 2_000_000, "random compositions around codecs written with the helper macros, tagged messages reached directly, boxed and by reference, unknown and misplaced tags, truncation, cuts; non-trivial: at least one partial piece, premature or refused request or truncation"),
];
pub const KNOWN: &[Known] = &[
    Known {
        id: "C06",
        key: "last-exact-requiring-bytes",
        what: "Last::exact_requiring_bytes says 0 before the last item has been started",
        probe: known::last_exact,
    },
    Known {
        id: "C10",
        key: "tuple-element-refused",
        what: "a tuple refused for a later element leaves the earlier elements started",
        probe: known::tuple_refused,
    },
    Known {
        id: "C10",
        key: "pre-encode-refused",
        what: "PreEncode of a sequence with an invalid element leaves the inner encoder busy",
        probe: known::pre_encode_refused,
    },
];
