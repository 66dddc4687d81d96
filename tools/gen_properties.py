#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe, "hook_needed": hook}})

p("C01", "Decoding does not depend on how the input stream is cut into pieces",
  "For any decoder assembled from the library's parts and any valid input stream, the decoded items, their order and the number of bytes consumed are those the wire format prescribes, and they are the same for every way of cutting the stream into decode calls, including empty pieces. They are also the same whichever way the end of the stream is announced: not at all until a last (possibly empty) call, together with the last bytes, or as a known number of remaining bytes. An invalid stream is rejected or accepted alike for every cut.",
  ["inputs", "schedules", "programs"],
  "all decoder compositions x all streams x all sequences of piece lengths and end-of-stream announcements",
  "The tests decode each item in one or two fixed pieces; a stream of n bytes has 2^(n-1) cuts, times every composition.",
  ["src/decode.rs", "src/bytes.rs", "src/combinator.rs", "src/fixnum.rs", "src/tuple.rs", "src/monolithic.rs", "src/padding.rs", "src/null.rs", "src/macros.rs"],
  [("per-decoder resume state", "src/bytes.rs CopyableBytesDecoder/BytesDecoder/RemainingBytesDecoder; src/combinator.rs AndThen/Collect/CollectN/Length/Peekable/MaybeEos; src/monolithic.rs MonolithicDecoder"),
   ("step-to-next-part macro", "src/macros.rs bytecodec_try_decode")],
  ["Decode::decode return value", "Decode::finish_decoding result"])

p("C02", "Encoding does not depend on how the output buffers are cut",
  "For any encoder assembled from the library's parts and any accepted sequence of items, the concatenation of the produced bytes is exactly the documented wire encoding of the items, whatever the sizes of the output buffers offered, including empty ones, and however many encode calls it takes.",
  ["inputs", "schedules", "programs"],
  "all encoder compositions x all items x all sequences of output buffer sizes",
  "The tests encode into one large or two fixed buffers.",
  ["src/encode.rs", "src/bytes.rs", "src/combinator.rs", "src/fixnum.rs", "src/tuple.rs", "src/monolithic.rs", "src/padding.rs", "src/null.rs", "src/macros.rs"],
  [("per-encoder resume state", "src/bytes.rs BytesEncoder; src/combinator.rs Repeat/Length/PreEncode/Last; src/monolithic.rs MonolithicEncoder"),
   ("step-to-next-part macro", "src/macros.rs bytecodec_try_encode")],
  ["Encode::encode return value and buffer contents"])

p("C03", "Items survive a buffered connection over a faulty transport, in order, once",
  "Two parties that exchange items over buffered connections receive exactly the items the other side sent, in order, each once, whatever the buffer sizes and however the transport delays, fragments, would-block or transiently fails in both directions. If the connection is cut, the receiver has got a prefix of the sent items, and the cut inside an item is reported as an error instead of an item. Once faults stop, every pending item is delivered within a bounded number of steps.",
  ["inputs", "schedules", "fault_sequences", "crash_points"],
  "all item sequences, buffer sizes, interleavings of the two parties and the transport, and fault sequences",
  "The tests never connect an encoder to a decoder through the buffers; no test has a would-block, a short write or an error.",
  ["src/io.rs", "src/encode.rs", "src/decode.rs", "src/combinator.rs", "src/bytes.rs"],
  [("BufferedIo::execute_io, ReadBuf::fill, WriteBuf::flush, decode_from_read_buf, encode_to_write_buf", "src/io.rs")],
  ["items handed out by finish_decoding at the peer"])

p("C04", "A decoder takes all it needs, nothing beyond its item, nothing when done",
  "On a valid stream a decoder that is still working on an item consumes every byte of the piece it is offered unless the item ends inside the piece, in which case it consumes exactly up to the item's end. It becomes idle exactly when the last byte of the item has been consumed, and while the finished item waits to be collected it consumes nothing and the item is not disturbed by further decode calls.",
  ["inputs", "schedules", "programs"],
  "all compositions x streams x cuts, with surplus bytes behind the item in the same piece and surplus decode calls",
  "Few tests offer surplus bytes, none calls decode again while an item waits.",
  ["src/decode.rs", "src/bytes.rs", "src/combinator.rs", "src/tuple.rs", "src/monolithic.rs", "src/padding.rs", "src/null.rs"],
  [("is_idle()/offset bookkeeping of every decoder", "src/bytes.rs, src/combinator.rs, src/tuple.rs, src/monolithic.rs, src/padding.rs")],
  ["Decode::decode return value", "Decode::is_idle"])

p("C05", "An encoder fills every buffer, counts honestly and goes idle at the last byte",
  "Unless it is deliberately suspended, an encoder that has bytes left fills every buffer it is offered completely or up to the end of its item, and the count it returns is the number of bytes it wrote. It is idle before an item is given to it, becomes idle exactly when the last byte has been handed out, accepts the next item then, and produces nothing while idle. An item without an end of its own (padding, alone or behind other bytes) fills every buffer until the end of the output is announced, and is over then.",
  ["inputs", "schedules", "programs"],
  "all encoder compositions x item sequences x buffer size sequences",
  "Tests check idleness for single items in single buffers of a few encoders; none re-uses an encoder after partial progress.",
  ["src/encode.rs", "src/bytes.rs", "src/combinator.rs", "src/tuple.rs", "src/monolithic.rs", "src/padding.rs", "src/null.rs"],
  [("is_idle()/offset bookkeeping of every encoder", "src/bytes.rs BytesEncoder, src/combinator.rs Repeat/Length/Last/MaxBytes, src/monolithic.rs")],
  ["Encode::encode return value", "Encode::is_idle", "Encode::start_encoding result"])

p("C06", "Advertised byte counts are truthful at every instant",
  "Whenever a decoder advertises a finite number of required bytes, the item really needs at least that many more bytes (unless the stream ends first), zero is advertised only when no more bytes are needed, and an idle decoder or encoder advertises zero. Whenever an encoder advertises a finite or an exact number of required bytes, it is the number of bytes it is still going to produce, at every point of a partially written item. An infinite number is advertised only for an item that has no end of its own.",
  ["inputs", "schedules", "programs"],
  "all compositions x items x partial progress points",
  "Tests query the count at one or two points for a handful of codecs, never during composite items.",
  ["src/byte_count.rs", "src/decode.rs", "src/encode.rs", "src/bytes.rs", "src/combinator.rs", "src/tuple.rs", "src/fixnum.rs", "src/monolithic.rs"],
  [("requiring_bytes / exact_requiring_bytes", "every codec"), ("add_for_decoding / add_for_encoding", "src/byte_count.rs")],
  ["Decode::requiring_bytes", "Encode::requiring_bytes", "SizedEncode::exact_requiring_bytes"])

p("C07", "Input that ends inside an item is reported and never yields an item",
  "If the input stream ends at any point strictly inside an item whose extent is fixed by its own bytes, the decoder reports an unexpected-end-of-stream error no later than the decode call that announces the end with no bytes left after it, and never produces an item from the fragment. This holds for every composition, every cut of the bytes before the end and every way of announcing the end, also for the last element of a collection that otherwise ends with the stream.",
  ["inputs", "crash_points", "schedules", "programs"],
  "every byte position of every stream as the point of truncation x compositions x cuts x announcements",
  "Tests truncate at one position of one or two fixed-size codecs.",
  ["src/bytes.rs", "src/combinator.rs", "src/tuple.rs", "src/fixnum.rs", "src/decode.rs"],
  [("end-of-stream assertions", "src/bytes.rs decode(); src/combinator.rs Length/Collect/CollectN/MaybeEos decode()"), ("Eos propagation", "src/eos.rs, src/combinator.rs Slice/Length")],
  ["Decode::decode error kind"])

p("C08", "Output that ends before the item does is reported and nothing is lost silently",
  "If the output stream is announced to end before an encoder has handed out all bytes of its item, the encode call that is given the last buffer reports an unexpected-end-of-stream error; it never reports success, and the encoder never claims to be idle with bytes still missing. If the item fits exactly, it succeeds. This holds for every composition, every cut of the output before the end and every capacity.",
  ["inputs", "crash_points", "schedules", "programs"],
  "every output capacity below, at and above the encoded size x compositions x cuts",
  "Tests close the output for two encoders at one capacity.",
  ["src/bytes.rs", "src/combinator.rs", "src/tuple.rs", "src/monolithic.rs", "src/encode.rs"],
  [("end-of-stream assertions", "src/bytes.rs BytesEncoder::encode; src/combinator.rs Length::encode; src/monolithic.rs MonolithicEncoder::encode")],
  ["Encode::encode error kind", "Encode::is_idle"])

p("C09", "Asking for an item too early is refused and does no harm",
  "Asking a decoder for its item before the item is complete, at any point and any number of times, is answered with an incomplete-decoding error and has no other effect: decoding then continues and yields the same item from the same bytes as if it had never been asked.",
  ["inputs", "schedules", "programs", "histories"],
  "all compositions x streams x cuts x sets of points at which the item is asked for early",
  "Tests ask early for one codec and never continue afterwards.",
  ["src/bytes.rs", "src/combinator.rs", "src/tuple.rs", "src/monolithic.rs", "src/padding.rs", "src/decode.rs"],
  [("finish_decoding guards", "src/bytes.rs, src/combinator.rs AndThen/Collect/CollectN/Length/MaxBytes/Peekable/MaybeEos, src/tuple.rs, src/monolithic.rs")],
  ["Decode::finish_decoding error kind and later result"])

p("C10", "A refused item leaves no trace in the output",
  "Giving an encoder an item while it is busy is refused with an encoder-full error, and an item outside the representable range is refused with an invalid-input error when it is given; an item refused this way never contributes a byte to the output. The item in progress, if any, is completed unchanged, and the encoder accepts the next valid item afterwards.",
  ["inputs", "schedules", "programs", "histories"],
  "all compositions x item sequences x points in partially written items at which further or invalid items are offered",
  "Tests never offer an item to a busy encoder and try out-of-range values on fresh encoders only.",
  ["src/encode.rs", "src/bytes.rs", "src/combinator.rs", "src/tuple.rs", "src/fixnum.rs", "src/monolithic.rs"],
  [("start_encoding guards", "src/bytes.rs BytesEncoder, src/combinator.rs Length/Repeat/PreEncode/TryMapFrom, src/tuple.rs TupleEncoder, src/fixnum.rs encode_item, src/monolithic.rs, src/padding.rs")],
  ["Encode::start_encoding error kind", "bytes produced by later encode calls"])

p("C11", "Length framing is exact and keeps frames apart",
  "A decoder restricted to n bytes hands its content exactly the next n bytes of the stream followed by an end of stream, takes no byte of what follows, and yields an item only if the content used all n bytes. An encoder restricted to n bytes either produces exactly n bytes or fails. A frame whose content is rejected when the finished item is taken does not change how the next frames are decoded, and the length can be changed between items but not within one.",
  ["inputs", "schedules", "histories", "configurations"],
  "all frame lengths x contents (too short, exact, too long, undecodable) x sequences of frames x cuts",
  "Tests use one length (3) with three fixed items.",
  ["src/combinator.rs", "src/eos.rs", "src/bytes.rs"],
  [("Length decode/encode and remaining_bytes accounting", "src/combinator.rs Length")],
  ["Decode/Encode results", "Length::remaining_bytes, set_expected_bytes"],
  [("remaining_bytes", "bytes of the frame not yet consumed or produced", "src/combinator.rs Length")])

p("C12", "A byte limit refuses exactly the items that exceed it, on every schedule",
  "A decoder or encoder with a byte limit lets every item of at most that many bytes through unchanged and fails with an invalid-input error on every item that is longer, for every cut of the stream, and the limit applies to each item afresh (a limited decoder is offered the bytes of its own item only, since it counts all bytes its content is offered as its item's). The count it reports is the number of bytes of the current item so far, and a limit below that count is refused.",
  ["inputs", "schedules", "histories", "configurations"],
  "all limits x item lengths around the limit x cuts x sequences of items",
  "Tests use limit 3 with single-piece items.",
  ["src/combinator.rs"],
  [("MaxBytes accounting", "src/combinator.rs MaxBytes")],
  ["Decode/Encode results", "MaxBytes::consumed_bytes, set_max_bytes"],
  [("consumed_bytes", "bytes of the current item so far", "src/combinator.rs MaxBytes")])

p("C13", "Sliced streams multiplex without mixing or losing bytes",
  "When several streams are multiplexed by granting each sliced encoder a number of bytes at a time and demultiplexed with the same grants on the other side, every stream's items arrive intact and unmixed for every sequence of grants. A sliced codec never consumes or produces more than it was granted, uses its grant completely while it has work, its remaining grant decreases by exactly what it consumed or produced, and anything it is a part of waits with it and goes on with it. Before its first grant it consumes and produces nothing.",
  ["inputs", "schedules", "programs"],
  "all grant sequences x numbers of streams x compositions x cuts of the shared stream",
  "Tests multiplex two 3-byte strings with one fixed grant sequence.",
  ["src/combinator.rs", "src/eos.rs"],
  [("Slice accounting and Eos::back", "src/combinator.rs Slice, src/eos.rs")],
  ["Slice::consumable_bytes, is_suspended", "items at the receiving side"],
  [("consumable_bytes", "bytes of the current grant left", "src/combinator.rs Slice")])

p("C14", "Synchronous I/O buffers conserve the byte stream under any faults",
  "A read buffer delivers exactly the bytes the source produced and a write buffer passes on exactly the bytes put into it, in order, without loss or duplication, whatever mix of short reads and writes, would-block results, errors, end of stream and partial consumption occurs, and an error leaves the buffered bytes intact so that a retry continues seamlessly. Filling stops only when the buffer is full, the source would block, fails or ends; flushing stops only when the buffer is empty, the sink would block, fails or accepts nothing. The reported stream state is that of the last I/O operation, and the reported length, room, emptiness and fullness agree with the contents and never exceed the capacity.",
  ["inputs", "schedules", "fault_sequences", "histories", "configurations"],
  "all capacities x operation sequences x fault sequences",
  "Tests fill once from a slice and flush once into a vector; no test has a fault, a wrap-around or a full buffer.",
  ["src/io.rs", "src/error.rs"],
  [("ReadBuf::fill/read, WriteBuf::flush/write, decode_from_read_buf, encode_to_write_buf, BufferedIo::execute_io", "src/io.rs")],
  ["bytes at the consumer and the sink", "stream_state(), len(), room(), is_empty(), is_full(), is_eos(), would_block()"],
  [("head, tail", "unread region of the buffer", "src/io.rs ReadBuf/WriteBuf"), ("stream_state", "outcome of last I/O", "src/io.rs")])

p("C15", "Asynchronous I/O buffers conserve bytes and never pend without a waker",
  "Polling a read or write buffer conserves the byte stream exactly as the synchronous operations do, for every interleaving of pending, partial, failing and ended polls. A pending result is returned only when the transport itself just returned pending to the same task (so that a wake-up is registered), a combined read/write poll is pending exactly if both directions are, and an error of either direction is reported and loses nothing that was buffered.",
  ["inputs", "schedules", "fault_sequences", "histories"],
  "all capacities x poll sequences x transport outcomes per poll",
  "There is no test of the asynchronous module at all.",
  ["src/io_async.rs", "src/io.rs"],
  [("poll_fill, poll_flush, execute_io_poll", "src/io_async.rs")],
  ["Poll result, stream_state(), wakers seen by the transport"])

p("C16", "Tasks sharing an asynchronous connection always make progress",
  "When tasks that encode into and decode from a shared buffered connection go to sleep only after registering with the transport or with the connection's write buffer, no wake-up is lost: a task that waits for space in the write buffer is woken when the buffer regains space, whichever way it was flushed and whichever task registered last. Once transport faults stop, all items get through within a bounded number of steps for every schedule.",
  ["schedules", "fault_sequences", "inputs"],
  "all task interleavings x wake-up orders x buffer sizes x transport fault sequences",
  "There is no test of the asynchronous module; lost wake-ups need a particular interleaving.",
  ["src/io.rs", "src/io_async.rs"],
  [("waker memorised by encode_to_write_buf_async and woken on flush", "src/io.rs WriteBuf::flush, src/io_async.rs poll_flush")],
  ["wake-ups of the registered waker", "quiescence of the executor with undelivered items"],
  [("waker", "task waiting for room in the write buffer", "src/io.rs WriteBuf")])

p("C17", "Blocking helpers read minimally, resume after errors and always terminate",
  "Decoding one item from a blocking reader takes exactly the item's bytes from the reader and not one more, for every pattern of short reads. If the reader fails in between, the error is reported, and calling again continues where it stopped and yields the same item; if the reader ends, the call terminates with an error unless the item is complete. Encoding everything to a blocking writer delivers exactly the encoded bytes, or reports an error having delivered a prefix of them.",
  ["inputs", "schedules", "fault_sequences", "programs"],
  "all compositions x streams of several items x short-read/short-write and error patterns x end-of-stream positions",
  "Tests read from in-memory slices that never fail, never return short reads and hold at most a few bytes.",
  ["src/io.rs", "src/error.rs", "src/decode.rs"],
  [("decode_exact, encode_all", "src/io.rs"), ("From<io::Error>", "src/error.rs")],
  ["reader position, results, number of reads", "bytes at the writer"])

p("C18", "Malformed, hostile or corrupted bytes are answered, never crash or hang",
  "Whatever bytes arrive, with any length or count fields and any corruption of a valid stream, decoding ends in an item or an error after a bounded number of steps: it never panics, aborts on a refused memory allocation, recurses without bound or loops, and the result is the same for every cut of the stream. A rejection is reported as an unexpected-end-of-stream or invalid-input error (content that does not fit its frame may also be reported as incomplete or inconsistent). An item that is produced is the one the wire format assigns to those bytes.",
  ["inputs", "fault_sequences", "schedules", "programs"],
  "all byte strings x compositions x cuts x memory limits",
  "Tests feed well-formed input or a single malformed value.",
  ["src/bytes.rs", "src/combinator.rs", "src/byte_count.rs", "src/decode.rs", "src/tuple.rs", "src/monolithic.rs", "src/json_codec.rs", "src/bincode_codec.rs"],
  [("length arithmetic and buffer reservation", "src/combinator.rs Length/MaxBytes, src/bytes.rs RemainingBytesDecoder, src/byte_count.rs")],
  ["process outcome, decode results"])

p("C19", "Codecs carry nothing over from one item to the next",
  "A re-usable encoder or decoder processes each item of a long sequence exactly as a fresh one would, whatever the earlier items, their cuts and the errors reported on taking earlier items were. Reconfiguring a codec between items (length, limit, number of elements, omission, padding byte, target buffer, grants) takes effect for the following item and only in the documented way; a one-shot bytes decoder that has handed out its item answers with a decoder-terminated error until it is given another target.",
  ["histories", "inputs", "schedules", "configurations", "programs"],
  "all item histories x cuts x reconfigurations between items",
  "Tests decode at most two items with one codec.",
  ["src/bytes.rs", "src/combinator.rs", "src/tuple.rs", "src/fixnum.rs", "src/padding.rs", "src/monolithic.rs"],
  [("state reset in finish_decoding / at item end, setters", "src/bytes.rs, src/combinator.rs, src/padding.rs, src/monolithic.rs")],
  ["items and bytes of the later items"])

p("C20", "Decoders that run to the end of the stream see exactly its end",
  "A decoder that collects everything up to the end of the stream (raw bytes, text, padding, repeated elements) completes exactly when the end is announced and not before, however and with however many empty calls it is announced, and its item covers all bytes up to the end and no others. A decoder that tolerates a clean end ignores an end of stream announced between items and reports one announced inside an item, and padding with an unexpected byte is rejected wherever it occurs.",
  ["inputs", "schedules", "crash_points"],
  "all streams x cuts x positions and ways of announcing the end",
  "Tests announce the end together with the only piece of data.",
  ["src/bytes.rs", "src/combinator.rs", "src/padding.rs", "src/monolithic.rs"],
  [("eos flags", "src/bytes.rs RemainingBytesDecoder, src/combinator.rs Collect/MaybeEos, src/padding.rs, src/monolithic.rs")],
  ["Decode::is_idle, results"])

p("C21", "Peeking shows exactly the item that will be handed out and changes nothing",
  "Peeking at a decoder returns nothing until an item is complete and, from then until the item is taken, exactly the item that taking it returns, including changes made through a mutable peek; it consumes no bytes, and decode calls in between do not disturb it. After the item is taken nothing is seen until the next item is complete. An item that is refused on completion is reported by the decode call and never seen.",
  ["inputs", "schedules", "histories", "programs"],
  "all compositions x streams x interleavings of decode, peek, mutable peek and finish",
  "One test peeks once at one three-byte tuple.",
  ["src/combinator.rs"],
  [("Peekable item slot", "src/combinator.rs Peekable")],
  ["Peekable::peek, peek_mut, finish_decoding"])

p("C22", "JSON and bincode codecs match their serializers on every schedule",
  "The JSON and bincode encoders produce, over any cut of the output, exactly the bytes their serializer produces for the item, and the decoders return, over any cut of the input up to the end of the stream or frame, exactly the value the serializer's own slice parser (serde_json::from_slice, bincode::deserialize) returns for the whole input, all of which is consumed, or an error exactly when that parser rejects it. A failure to serialize or parse is reported once, as an invalid-input error, and produces no item. Any other codec made from a function over a reader or writer behaves alike: the function is called once per item, at the end of the stream or at the first buffer, reads or writes exactly the bytes of the stream in any pieces it likes, and its error is the error of the codec.",
  ["inputs", "schedules", "histories"],
  "all values x malformed inputs x cuts of input and output",
  "Tests use one three-number item per codec in at most two pieces.",
  ["src/json_codec.rs", "src/bincode_codec.rs", "src/monolithic.rs"],
  [("MonolithicDecoder buffering, MonolithicEncoder overflow buffer (WriterChain)", "src/monolithic.rs")],
  ["bytes and items versus serde_json / bincode called directly"])

p("C23", "One-shot helpers agree with incremental operation",
  "Encoding an item in one shot into a byte vector, ahead of time when it is started, or with an encoder built together with its first item gives exactly the bytes that incremental encoding over any schedule gives, with the exact size known in the pre-encoded case. Decoding from a complete byte slice gives exactly the item incremental decoding gives, and fails if bytes are missing or, with an invalid-input error, if bytes are left over. Codecs built from their defaults behave like any other.",
  ["inputs", "programs", "schedules"],
  "all compositions x items, against incremental runs over all cuts; all surplus and missing byte counts",
  "Tests call the one-shot helpers once or twice on a two-byte integer.",
  ["src/encode.rs", "src/decode.rs", "src/combinator.rs"],
  [("encode_into_bytes", "src/encode.rs"), ("decode_from_bytes", "src/decode.rs"), ("PreEncode, Last", "src/combinator.rs")],
  ["results of the helpers versus incremental drivers"])

p("C24", "Byte-count and distance-to-end arithmetic follows its documented rules",
  "Adding advertised byte counts for decoding or encoding, comparing them, and moving an end-of-stream distance backwards follow the documented tables for all values.",
  ["inputs"],
  "all pairs of byte counts",
  "Tests evaluate a dozen pairs.",
  ["src/byte_count.rs", "src/eos.rs"],
  [("add_for_decoding, add_for_encoding, partial_cmp", "src/byte_count.rs"), ("Eos::back", "src/eos.rs")],
  ["return values"])

p("C25", "User functions run once per item and every error passes each map_err once",
  "However the streams are cut and whatever fails, the functions given to map, try_map, and_then, map_from and try_map_from are called exactly once for each item that reaches them, in stream order and with that item, and never for an item that is not complete; the iterator given to a repeated encoder is drained once, in order, and not asked again after its end. An error that a part of a codec raises (malformed input, a function that refuses, an early end of the stream, a request that comes too early or while busy) is given exactly once to each map_err function around that part, from the inside out, each receiving the kind its predecessor returned, and reaches the caller with the kind the last one returned (a function that fails with an I/O error causes UnexpectedEos if that is an unexpected end of file and Other if not); without an error no map_err function is called.",
  ["inputs", "programs", "schedules"],
  "all compositions of these functions with the other combinators x items x refusals x cuts x points at which the stream ends",
  "Tests apply one function to one item in one piece.",
  ["src/combinator.rs", "src/tuple.rs", "src/decode.rs", "src/encode.rs", "src/error.rs"],
  [("Map, TryMap, AndThen, MapErr, MapFrom, TryMapFrom, Repeat", "src/combinator.rs"), ("TupleDecoder, TupleEncoder", "src/tuple.rs")],
  ["calls of the functions and their arguments", "error kinds"])

p("C26", "Codecs written by hand with the library's macros and traits fit in",
  "A decoder or encoder that a user writes as a sequence of parts with the helper macros (in each of their forms) behaves exactly like the library's own tuple of those parts, at every cut of the streams and every announcement of their end, anywhere in a composition: parts are served in order, a part that is not finished (also because it is suspended by a limited grant) stops the sequence and is resumed later, nothing is skipped, lost or served twice. An error of a part reaches the caller with its kind and with the note the macro was given. Every operation on a codec has the same effect and the same answer through a mutable reference or a box (of a trait object, too) as directly; in particular a tagged decoder is told to start exactly once with exactly the tag, and its answer (accepted, unknown, refused) is what the caller gets.",
  ["inputs", "programs", "schedules"],
  "all sequences of parts x forms of the macros x ways to reach a codec x cuts x announcements x grants x truncation points",
  "The macros are tested through the tuples only, in one form, and the tagged traits not at all.",
  ["src/macros.rs", "src/decode.rs", "src/encode.rs"],
  [("bytecodec_try_decode, bytecodec_try_encode", "src/macros.rs"), ("Decode, TaggedDecode, TryTaggedDecode for &mut D and Box<D>", "src/decode.rs"), ("Encode, SizedEncode for &mut E and Box<E>", "src/encode.rs")],
  ["items, consumed and produced bytes, errors and their notes"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
