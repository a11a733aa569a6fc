"""The properties (source of properties.jsonl and MANIFEST.json)."""
ENC = "imap-codec/src/codec/encode.rs"
DEC = "imap-codec/src/codec/decode.rs"
PROPS = []
NA = {}


def P(id, title, statement, over, forall, why, files, mech, observe, technique=None, level="other", note="", na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=files, mech=mech,
                      observe=observe, technique=technique, level=level, note=note))
    if na:
        NA[id] = na


AI = "Static abstract interpretation of the type-checked source (THIR extracted by a compiler driver)"

P("P01", "Client messages survive encoding and decoding unchanged",
  "For every client-side message that can be built (a command, authentication data, or the end of IDLE), in every feature configuration, decoding what the encoder wrote, followed by any further bytes, returns exactly that message and leaves exactly those further bytes. This includes every value of every field: numbers, dates, lists of any length, optional parts, and strings needing quoting, escaping or literals.",
  ["inputs", "configurations"], "every message value, every continuation of the byte stream, every set of optional extensions",
  "The tests round-trip a few hand-picked values per message kind; a field value or combination they do not contain (a particular offset, list length, character, or optional part) is never exercised.",
  [ENC, "imap-codec/src/command.rs", "imap-codec/src/search.rs", "imap-codec/src/core.rs", "imap-codec/src/auth.rs", "imap-codec/src/extensions/"],
  [("encoder and parser of each message part are written separately and must agree", ENC + "; imap-codec/src/*.rs")],
  ["CommandCodec/AuthenticateDataCodec/IdleDoneCodec: decode(encode(m) ++ rest)"],
  AI + ": the encoder evaluated on symbolic messages gives output templates, the parser evaluated on each template must return the symbolic message; nested parts proved once and used coinductively",
  note="Sound for all values up to the listed domain assumptions (evidence: assumptions, undecided cases); sequence sets compared up to normalisation, free-form text assumed not to spell a keyword of the same position.")

P("P02", "Server messages survive encoding and decoding unchanged",
  "For every server-side message that can be built (a greeting or a response), in every feature configuration, decoding what the encoder wrote, followed by any further bytes, returns exactly that message and leaves exactly those further bytes. This includes every status code, capability, data item, body structure and field value.",
  ["inputs", "configurations"], "every message value, every continuation of the byte stream, every set of optional extensions",
  "The tests round-trip a few hand-picked values per response kind; field values and combinations they do not contain are never exercised.",
  [ENC, "imap-codec/src/response.rs", "imap-codec/src/body.rs", "imap-codec/src/fetch.rs", "imap-codec/src/envelope.rs", "imap-codec/src/extensions/"],
  [("encoder and parser of each message part are written separately and must agree", ENC + "; imap-codec/src/*.rs")],
  ["GreetingCodec/ResponseCodec: decode(encode(m) ++ rest)"],
  AI + ": the encoder evaluated on symbolic messages gives output templates, the parser evaluated on each template must return the symbolic message; nested parts proved once and used coinductively",
  note="As P01. The encoder of threads (explicit work list) is left undecided. Known findings: referral response code.")

P("P03", "Decoding never panics",
  "Decoding any byte sequence with any of the codecs returns a value or an error; it never panics (no failed unwrap, out-of-bounds access, arithmetic overflow, or violated internal assertion), in debug or release builds and in every feature configuration.",
  ["inputs", "configurations"], "every byte sequence, complete or not, valid or not",
  "A test can only feed chosen inputs; a panic that needs one particular malformed or boundary input stays hidden.",
  ["imap-codec/src/", "imap-types/src/"],
  [("validated constructors called with what the parsers matched", "imap-codec/src/core.rs and all parsers"), ("unwrap/expect/slicing in parsers", "imap-codec/src/*.rs")],
  ["the five decoders and the standalone tag parser"],
  AI + ": every parser is followed on unconstrained input, tracking the byte classes, lengths and number ranges that the combinators guarantee; each possible panic site must be unreachable",
  note="Panics inside third-party code other than through modelled preconditions are out of reach.")

P("P04", "Encoding never panics",
  "Encoding any message that can be built, iterating over the produced fragments and dumping them never panics, in every feature configuration.",
  ["inputs", "configurations"], "every message value of every codec",
  "The tests encode a few hand-picked messages.",
  [ENC, "imap-codec/src/extensions/"],
  [("infallible in-memory writer behind unwrap", ENC)],
  ["the five encoders"],
  AI + ": every encoder function evaluated on fully symbolic values; each possible panic site must be unreachable",
  note="Allocation failure is not considered a panic of the codec.")

P("P05", "Nesting depth while decoding is bounded",
  "Whatever the input, the decoders' recursion depth is bounded by a small constant: nested search keys, body structures, body extensions and threads beyond a fixed limit are rejected with an error instead of consuming more stack. Every recursive step counts towards that limit, and nothing in the input resets it.",
  ["inputs"], "every input, of any length and nesting",
  "The tests try a few depths of one nesting construct; mixed or rarely used nesting paths are not covered, and the failure (stack exhaustion) aborts the process.",
  ["imap-codec/src/search.rs", "imap-codec/src/body.rs", "imap-codec/src/extensions/thread.rs", "imap-codec/src/response.rs"],
  [("explicit recursion budget passed down and checked", "search_key, body, body_extension, thread_list")],
  ["stack depth of decode()"],
  "Call-graph analysis over the type-checked program: every cycle reachable from a decoder must pass a symbolic budget that strictly decreases, is checked at zero before the next call, and starts at a constant of at most 64",
  note="Decided for all cycles of the call graph reachable from the decoders; closures and higher-order combinator arguments are included.")

P("P06", "Message framing recognises lines and literals exactly, however bytes arrive",
  "The message splitter reports, for every byte stream and however it is cut into pieces, exactly the lines and literals of the stream: a line ends at the first line feed; it announces a literal exactly if it ends in {n} or {n+} (n a decimal number of at most 32 bits) directly before the line ending; then exactly n bytes form the literal. Positions, announced length, mode (synchronizing or not) and line ending (LF or CRLF) are reported as they are, and a message ends at the first line that announces no literal.",
  ["inputs", "histories"], "every byte stream, every way of enqueueing it in pieces, every interleaving with progress calls",
  "The tests feed a few streams; an unusual byte sequence before a line end, a length at the 32-bit boundary, or a particular cut is not covered.",
  ["imap-codec/src/fragmentizer.rs"],
  [("incremental line automaton and literal counter", "imap-codec/src/fragmentizer.rs: LineParser, LiteralParser, Fragmentizer::progress")],
  ["Fragmentizer::enqueue_bytes, Fragmentizer::progress"],
  AI + ": the splitter's abstract states are explored jointly with a specification automaton (simulation check), with linear arithmetic for positions and lengths",
  note="All bytes in every reachable abstract state; per call, pieces of one or two bytes in lines and of any length in literals (longer pieces are compositions).")

P("P07", "Message splitter: bytes, size limit, poisoning and decoding outcome",
  "The splitter keeps exactly the bytes of the current message, in order, cut off at the maximum message size; it reports a message as too long exactly if bytes were dropped, as poisoned exactly if it was poisoned, and as complete exactly after its last line. The bytes reported for a fragment are exactly that fragment's bytes that were kept; skipping a message or going on to the next one clears all of this; nothing panics. A message that is too long or poisoned is never decoded, leftover bytes are reported as such, and otherwise the decoder's own result is returned unchanged.",
  ["inputs", "histories"], "every sequence of enqueue, progress, skip, poison and decode calls, every byte stream, every size limit",
  "The tests follow a few call sequences with a few limits.",
  ["imap-codec/src/fragmentizer.rs"],
  [("message buffer, flags and their resets", "imap-codec/src/fragmentizer.rs: Fragmentizer")],
  ["Fragmentizer::message_bytes, fragment_bytes, is_message_complete, is_max_message_size_exceeded, is_message_poisoned, skip_message, poison_message, decode_message"],
  AI + ": the splitter's abstract states are explored jointly with a specification (simulation check), byte blocks of symbolic length; the decoding function with an arbitrary decoder",
  note="As P06.")

P("P08", "Truncated input is reported as incomplete",
  "Whenever the decoder runs out of input - at any point of any message, inside a keyword, number, string, list or literal data - it reports that more data is needed. It never reports a malformed message or a finished one because of where the received bytes happen to end, and what it does report never depends on how many bytes have arrived beyond what it read. (At the end of a literal announcement it reports the literal instead.)",
  ["inputs", "schedules"], "every message and every point at which it can be cut off",
  "The tests try a few truncations of a few messages; the number of cut points times message shapes is unbounded.",
  [DEC, "imap-codec/src/"],
  [("streaming parsers; Incomplete handed on through every alternative, list and option", "imap-codec/src/*.rs"), ("mapping to the decoders' error types", DEC)],
  ["decode() of every proper prefix of a message"],
  AI + ": every parser followed on unconstrained input in which each primitive may lack input; every such path must end in Incomplete",
  note="A function that parses again after lacking input is decided on all its own accepted shapes cut at every point.")

P("P09", "Literal announcements are reported with tag, length and mode",
  "When the input ends directly after a literal announcement ({n} or {n+} and a line ending), the command decoder reports the literal with the tag of the command, the announced length and the announced mode, and the response decoder reports it with the announced length. This is reported only there - not once literal data has begun to arrive - and no enclosing parser swallows or alters it.",
  ["inputs"], "every command and response, every literal position, length and mode",
  "The tests check literals in a few argument positions.",
  [DEC, "imap-codec/src/core.rs", "imap-codec/src/command.rs", "imap-codec/src/extensions/binary.rs"],
  [("failure carrying the announcement, completed with the tag by the command parser", "imap-codec/src/core.rs: literal; imap-codec/src/command.rs: command")],
  ["CommandDecodeError::LiteralFound, ResponseDecodeError::LiteralFound"],
  AI + ": origin and content of every literal report, and its way through every enclosing parser to decode()",
  note="Paths of all parser functions reachable from the decoders.")

P("P10", "Encoded fragments: literals are announced exactly, messages end in CRLF",
  "In what the encoder produces, every literal fragment directly follows a line fragment that ends in {n} or {n+} and CRLF, where n is the number of bytes of that literal fragment and + is present exactly if the fragment's mode is non-synchronizing (and the message's literal is); every such announcement is followed by such a fragment, also for empty literals. Every encoded message ends in CRLF. Iterating over the fragments and dumping them give the same bytes, in order, none lost or repeated.",
  ["inputs", "configurations"], "every message value of every codec",
  "The tests look at the fragments of a few messages.",
  [ENC, "imap-codec/src/extensions/binary.rs"],
  [("accumulator split into fragments around literal data", ENC + ": EncodeContext, Encoded")],
  ["Encoder::encode, Encoded::next, Encoded::dump"],
  AI + ": every encoder evaluated on symbolic messages, its fragments compared with the rule",
  note="The encoder of threads (explicit work list) is left undecided; it writes no literals.")

P("P11", "Field values cannot break lines",
  "No field value can put a line break into an encoded message outside literal data: CR and LF occur there only as the CRLF that ends a literal announcement or the message. This holds for all values that can be built without the constructors documented as unvalidated, and for all values obtained by decoding.",
  ["inputs", "configurations"], "every message value of every codec",
  "Command injection needs a value in a rarely used field that nobody thought of; tests cannot enumerate fields and values.",
  [ENC, "imap-types/src/core.rs", "imap-types/src/mailbox.rs", "imap-types/src/response.rs", "imap-codec/src/extensions/utf8.rs"],
  [("text types that exclude line breaks, base64, quoting, literals", "imap-types/src/core.rs; " + ENC)],
  ["Encoder::encode"],
  AI + ": field contents in the encoders' symbolic output, with the character classes derived from the constructors of their types; parsers that build unvalidated text followed on unconstrained input",
  note="Known findings: QuotedUtf8 and Code::Referral hold unvalidated text.")

P("P12", "Validated types accept exactly what IMAP allows, unchanged",
  "Atom, AtomExt, Tag, Quoted, Text, Literal, ListCharString, QuotedChar, IString, AString, NString, Charset, Mailbox, MailboxOther, ListMailbox, DateTime, NaiveDate and the minimum-length vectors accept exactly the values their IMAP definition allows (character set at every position, minimal length, INBOX in any case kept apart, year range, whole seconds and minutes, minimal element count) through each of their conversions (try_from, from), validate, and deserialization, whatever the type converted from; an accepted value is kept unchanged. Only the constructors named unvalidated can build other values.",
  ["inputs"], "every text, date, list or character handed to every constructor",
  "The tests try a few valid and a few invalid samples per type; a byte at an untested position, a length bound, or a conversion from a rarely used source type is not covered.",
  ["imap-types/src/core.rs", "imap-types/src/mailbox.rs", "imap-types/src/datetime.rs", "imap-types/src/utils.rs"],
  [("validate() and the conversions of each type", "imap-types/src/core.rs, mailbox.rs, datetime.rs"), ("character classes", "imap-types/src/utils.rs: indicators")],
  ["TryFrom/From/Deserialize/validate of the types"],
  AI + ": every constructor followed on a symbolic input; the byte classes, lengths and number ranges of its accepting and rejecting paths compared with the IMAP definitions; all other functions that build such a type enumerated",
  note="Vectors: lists of up to five elements, minimal lengths one to three. Elements of nested types are covered by their own constructors.")

P("P13", "Keywords are read in either letter case",
  "Protocol keywords are case-insensitive: if, in the encoding of any message of any of the five codecs that reads back exactly, the letters of the keywords and other constant text the encoder itself writes (command and response names, data items, search and sort keys, capabilities, flags, status attributes, month names, NIL, INBOX ...) are changed to the other case, the decoder still returns exactly the same message. Text that comes from the message keeps its case.",
  ["inputs"], "every message, with its constant letters in the other case (all letters, and every second one)",
  "The tests read nearly all keywords in the upper-case spelling the encoder writes; only a few are tried in another case.",
  ["imap-codec/src", "imap-types/src"],
  [("keyword parsers (tag_no_case, keyword conversions)", "imap-codec/src, From<Atom>/TryFrom impls in imap-types/src")],
  ["tag_no_case users", "From<Atom> of the keyword enums"],
  AI + ": the encoder's symbolic output templates with the constant letters changed, followed through the decoder, compared with the symbolic message")

P("P14", "Secrets stay out of printed messages and errors",
  "In a build without debug assertions, with any features, printing (Debug or any other formatting) a command, authentication data, or a fragmentizer's decoding error never shows the password of LOGIN, the initial response of AUTHENTICATE, the data of an authentication exchange, or the undecoded bytes: these are held in the Secret wrapper, whose printing reads nothing of what it wraps; only declassify() exposes it, and nothing declassified is formatted. Decoding errors carry nothing of the message but the tag and the literal's length and mode.",
  ["inputs"], "every message and error value, every format specification, release builds with and without the optional features",
  "The tests run with debug assertions, where secrets are printed by design; and they look at a few values and one format.",
  ["imap-types/src/secret.rs", "imap-types/src/auth.rs", "imap-types/src/command.rs", "imap-codec/src/fragmentizer.rs"],
  [("Secret", "imap-types/src/secret.rs"), ("DecodeMessageError", "imap-codec/src/fragmentizer.rs"), ("CommandBody::Login, CommandBody::Authenticate", "imap-types/src/command.rs")],
  ["Secret::fmt", "declassify callers", "Debug impls"],
  "information-flow analysis over the type-checked release build: readers of wrapped values against everything the printing functions reach; types of all places holding secrets")
P("P17", "Generated tags never repeat and are valid",
  "No two tags generated in a process are the same: not by one generator, not by different generators, not by generators used in different threads, and not across clones or resets. Every generated tag is a valid tag. (Within 2^64 tags per generator.)",
  ["schedules", "histories"], "every number of generators, every interleaving of their creation and use",
  "The tests draw a few tags from one thread; a prefix drawn twice under contention, a truncated number, or two numbers run together needs a particular schedule or count.",
  ["imap-types/src/core.rs"],
  [("TagGenerator::new, TagGenerator::generate", "imap-types/src/core.rs")],
  ["TagGenerator"],
  AI + ": the generator's two functions evaluated on symbolic numbers; injectivity of the text, atomicity of the prefix and advance of the counter checked; all other ways to build, copy or write a generator enumerated")
P("P20", "Numbers are decoded exactly or refused",
  "A number in a received message (message and UID numbers, counts, sizes, modification sequences, partial ranges, literal lengths, date and time fields) is decoded to exactly the value written, and the decoder takes exactly that many bytes where it is a length; a number that does not fit its field makes the decoder refuse it. It is never cut, wrapped, masked, saturated, clamped or replaced by a default.",
  ["inputs"], "every numeral of any length, in every parser reachable from the five decoders",
  "The tests use small numbers and a few limits; a value that is cut or clamped shows only beyond the size of its field.",
  ["imap-codec/src"],
  [("number, number64, nz_number, digit parsers", "imap-codec/src/core.rs, imap-codec/src/datetime.rs"), ("literal, literal8", "imap-codec/src/core.rs, imap-codec/src/extensions/binary.rs")],
  ["number", "number64", "nz_number", "literal"],
  AI + ": every parser followed on unconstrained input; the symbolic numbers in each result compared with the numerals consumed")
P("P18", "Results depend on nothing but the arguments",
  "Decoding, encoding, fragmenting, validating and converting are pure: the same call on the same values gives the same result whatever was processed before, on whichever thread, at whatever time. No function (the tag generator aside) uses mutable global or thread-local state, interior mutability, the clock, the environment, randomness, files, the network, memory addresses, or the iteration order of a hash table, and there is no unsafe code.",
  ["histories", "schedules"], "every function and type of both crates",
  "The tests make each call once, in one order, in a fresh process; a result that depends on an earlier call or on another thread passes them.",
  ["imap-codec/src", "imap-types/src"],
  [("all functions reachable from the codecs, the message splitter and the types", "imap-codec/src, imap-types/src")],
  ["any function of the two crates"],
  "effect analysis over the call graph of the type-checked source: every function and every field type searched for the listed effects",
  note="A function that sorts after iterating over a hash table is taken to yield an order of its own. External crates are trusted apart from the listed functions.")
