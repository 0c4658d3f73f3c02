//! The properties: workload, size of a run, and what a run must have observed to count.

use crate::mon::{Ctx, Res};
use crate::{p_access, p_call, p_cli, p_codec, p_derive, p_event, p_json, p_state, p_text, p_types};

pub struct Prop {
	pub id: &'static str,
	pub case: fn(&mut Ctx) -> Res,
	pub quick: u64,
	pub thorough: u64,
	pub rule: &'static str,
	/// Buckets that a run must have filled (with the minimum), or it is inconclusive.
	pub floors: &'static [(&'static str, u64)],
	pub assumptions: &'static [&'static str],
}

const ZERO: &str = "empty tuples, and zero-length fixed arrays of dynamic elements, are outside the property (Solidity has neither)";
const MODEL: &str = "the reference model in /verif/monitor/src/model.rs states the Solidity ABI specification correctly";

pub static PROPS: &[Prop] = &[
	Prop {
		id: "C01",
		case: p_codec::c01,
		quick: 1_200_000,
		thorough: 36_000_000,
		rule: "a case is a list of types and conforming values (systematic small types, boundary sizes, deep, wide, random, a few of up to 17 MB); encode() is compared byte for byte with the reference encoder, is_dynamic at every node; non-trivial: the list has a dynamic or nested type; distinct by types and encoding",
		floors: &[("encodings compared", 5000), ("is_dynamic compared", 5000), ("params: dynamic tuple", 200), ("params: dynamic fixed array", 200), ("workload: large", 8)],
		assumptions: &[MODEL, "encodings of 4 GiB and more are outside the property", ZERO],
	},
	Prop {
		id: "C02",
		case: p_codec::c02,
		quick: 700_000,
		thorough: 21_000_000,
		rule: "as C01; encode() then decode() must return the values, also with trailing bytes and through Function::encode_input/decode_input/decode_output; non-trivial: the list has a dynamic or nested type; distinct by types and encoding",
		floors: &[("round trips", 5000), ("round trips with trailing bytes", 4000), ("function input round trips", 4000), ("workload: large", 8)],
		assumptions: &["encodings of 4 GiB and more are outside the property", ZERO],
	},
	Prop {
		id: "C03",
		case: p_codec::c03,
		quick: 2_000_000,
		thorough: 60_000_000,
		rule: "a case is a list of types (degenerate ones included) and hostile bytes (mutated, truncated, foreign and random encodings, plausible words), given to decode, decode_input, decode_output and parse_log; a panic, crash, hang, or a returned value not conforming to its type is a violation; non-trivial: types and bytes are non-empty; distinct by both",
		floors: &[("decode: values", 1000), ("decode: error", 1000), ("parse_log: values", 100), ("parse_log: error", 1000)],
		assumptions: &["cases denoting more than 400000 words and values (aliasing offsets in deeply nested types) are skipped", "the workload reaches what a hostile caller would send"],
	},
	Prop {
		id: "C04",
		case: p_codec::c04,
		quick: 4_000_000,
		thorough: 120_000_000,
		rule: "a case is a list of types and hostile or valid bytes; decode must accept exactly when the reference decoder does, with its values; then bytes outside the designated ranges are changed and nothing may change; non-trivial: types and bytes are non-empty; distinct by both",
		floors: &[("compared: must be refused", 3000), ("compared: must be accepted", 3000), ("compared: undesignated bytes changed", 1000)],
		assumptions: &[MODEL, ZERO, "cases denoting more than 400000 words and values are skipped"],
	},
	Prop {
		id: "C05",
		case: p_codec::c05,
		quick: 4_000_000,
		thorough: 120_000_000,
		rule: "a case is a list of types and bytes with lying lengths and offsets; a counting allocator and the thread's CPU clock meter the decode call, judged against a budget of 256 bytes per byte of data and type node, times the words of data per further dynamic level, and if accepted of 2 KB per word and value denoted; non-trivial: every case; distinct by types and data",
		floors: &[("metered: refused", 3000), ("metered: accepted", 500), ("metered: against the values denoted", 500), ("data: deep valid", 500), ("data: empty elements", 300), ("data: one huge word", 1000), ("data: long fixed array", 500), ("dynamic levels: 1", 500), ("dynamic levels: 2", 500)],
		assumptions: &["work is measured as bytes allocated and CPU time (limit 0.2 or 0.5 s plus a share of the budget, best of three)", "cases denoting more than 400000 words and values are skipped"],
	},
	Prop {
		id: "C06",
		case: p_call::c06,
		quick: 1_500_000,
		thorough: 45_000_000,
		rule: "a case is a function or constructor and values that conform or nearly do; encode_input must succeed exactly for conforming values and give selector (or code) plus the reference encoding; non-trivial: there are inputs; distinct by name, types and values",
		floors: &[("encode_input: conforming", 2000), ("encode_input: not conforming", 2000), ("constructor: conforming", 2000)],
		assumptions: &[MODEL, ZERO],
	},
	Prop {
		id: "C07",
		case: p_call::c07,
		quick: 2_000_000,
		thorough: 60_000_000,
		rule: "a case is a list of types and values that conform or nearly do (one place changed in the value or the type); types_check and type_check of matching and crossed pairs are compared with the reference; non-trivial: there are types; distinct by types and values",
		floors: &[("types_check: conforming", 2000), ("types_check: not conforming", 2000), ("type_check: conforming", 2000), ("type_check: not conforming", 2000)],
		assumptions: &["a byte string shorter than its fixed size conforms within its last word, as the repository's tests say"],
	},
	Prop {
		id: "C08",
		case: p_types::c08,
		quick: 400_000,
		thorough: 12_000_000,
		rule: "a case is a type with any sizes, up to 100 levels deep; all written forms are compared with the reference names and read back through Reader and three serde paths; non-trivial: an array or tuple; distinct by name",
		floors: &[("names written", 3000), ("names read back", 3000), ("aliases read", 500), ("JSON forms read", 500)],
		assumptions: &[],
	},
	Prop {
		id: "C09",
		case: p_types::c09,
		quick: 4_000_000,
		thorough: 120_000_000,
		rule: "a case is a string: mutated names, pieces, free text, deep or repeated brackets, all short strings over a small alphabet, numbers; the outcome is compared with a recursive-descent recogniser; non-trivial: non-empty; distinct by the string",
		floors: &[("well-formed names", 3000), ("malformed names", 3000), ("input: deep nesting", 200)],
		assumptions: &["spellings the property leaves open (leading zeros or a plus sign in numbers, `()`) are only checked for totality"],
	},
	Prop {
		id: "C10",
		case: p_json::c10,
		quick: 200_000,
		thorough: 6_000_000,
		rule: "a case is a generated document written as text (key order, spacing, escapes, unknown keys vary), loaded by four routes and compared field by field, items and parameters also on their own; or one with a single defect that must be refused; or the same bytes from a source that stutters, fails, ends early, goes on or has bytes changed; non-trivial: has entries; distinct by the text",
		floors: &[("documents loaded", 2000), ("spoilt documents", 500), ("single items read", 2000), ("entries: event", 1000), ("keys: shuffled", 500), ("unknown keys: yes", 500), ("sources: stuttering", 200), ("sources: failing", 200), ("sources: truncated", 200), ("sources: more after the document", 200), ("sources: a byte changed", 400), ("sources: a byte changed, accepted", 20)],
		assumptions: &["serde_json parses JSON correctly"],
	},
	Prop {
		id: "C11",
		case: p_json::c11,
		quick: 120_000,
		thorough: 3_600_000,
		rule: "a case is a generated contract, loaded, serialized by one of four routes, its JSON compared with the standard shape and loaded again; items and parameters also on their own, and into sinks that stutter or fail; non-trivial: has entries; distinct by document",
		floors: &[("contracts serialized", 2000), ("contracts reloaded", 2000), ("single items round-tripped", 2000), ("parameters round-tripped", 2000), ("sinks: failing", 500), ("sinks: stuttering", 500)],
		assumptions: &["serde_json parses JSON correctly"],
	},
	Prop {
		id: "C12",
		case: p_json::c12,
		quick: 200_000,
		thorough: 6_000_000,
		rule: "a case is a contract (loaded or built) full of overloads; every declared name and near misses are looked up by all four lookups, iterators are drained twice, and the contract compared afterwards; non-trivial: has functions or events; distinct by document",
		floors: &[("lookups: declared", 3000), ("lookups: undeclared", 3000), ("lookups: overloaded function", 300), ("lookups: overloaded event", 100), ("iterations", 2000)],
		assumptions: &[],
	},
	Prop {
		id: "C13",
		case: p_event::c13,
		quick: 1_500_000,
		thorough: 45_000_000,
		rule: "a case is an event and a choice per topic (wildcard, value, alternatives; conforming or not); the filter, its JSON form and topic conversions are compared with the reference, and matched against a log emitted by the EVM model; non-trivial: has indexed parameters; distinct by event and choices",
		floors: &[("filters: built", 3000), ("filters: must be refused", 500), ("filters: of odd events", 500), ("indexed: array", 300), ("indexed: tuple", 200), ("indexed: string or bytes", 500), ("events: anonymous", 500)],
		assumptions: &[MODEL, "indexed fixed bytes longer than 32 are outside the property"],
	},
	Prop {
		id: "C14",
		case: p_event::c14,
		quick: 2_500_000,
		thorough: 75_000_000,
		rule: "a case is an event and a log emitted for it by the EVM model, or one with topics or data changed; parse_log is compared with the reference; non-trivial: two or more parameters; distinct by event and log",
		floors: &[("logs: parsed", 3000), ("logs: must be refused", 1000), ("refused because: signature topic", 100), ("refused because: number of topics", 100), ("refused because: data", 100)],
		assumptions: &[MODEL],
	},
	Prop {
		id: "C15",
		case: p_text::c15,
		quick: 4_000_000,
		thorough: 120_000_000,
		rule: "a case is a list type and a text (a rendered value, mutated, pieces, free text), parsed by both tokenizers and compared with the reference grammar; non-trivial: every case; distinct by type and text",
		floors: &[("strict: denotes a value", 2000), ("strict: must be refused", 2000), ("lenient: denotes a value", 2000), ("lenient: must be refused", 2000)],
		assumptions: &["brackets of a kind the type has no lists for are only checked for totality and type"],
	},
	Prop {
		id: "C16",
		case: p_text::c16,
		quick: 8_000_000,
		thorough: 240_000_000,
		rule: "a case is a scalar type and a text (rendered, mutated, around the limits of the integer types, odd spellings), parsed by both tokenizers and compared with reference arithmetic; non-trivial: not a string type; distinct by type and text",
		floors: &[("strict: denotes a value", 3000), ("strict: must be refused", 3000), ("lenient: denotes a value", 3000), ("lenient: must be refused", 3000), ("texts: around a limit", 1000)],
		assumptions: &[],
	},
	Prop {
		id: "C17",
		case: p_cli::c17,
		quick: 60_000,
		thorough: 1_800_000,
		rule: "a case is one command of the tool, run as its own process on generated ABI files, names or signatures, types, texts, topics and hex data, right or spoilt in one place; exit status, stdout and stderr are compared with what the reference says; non-trivial: every case; distinct by arguments and output",
		floors: &[("encode params: result", 500), ("encode function: result", 500), ("decode params: result", 500), ("decode function: result", 500), ("decode log: result", 500), ("encode function: ambiguous name", 50), ("decode log: ambiguous name", 50), ("encode function: number of params", 50), ("decode params: hex", 50), ("decode log: topic", 50)],
		assumptions: &[MODEL, "values that the argument parser would take for options are left out"],
	},
	Prop {
		id: "C18",
		case: p_derive::c18,
		quick: 24_000,
		thorough: 240_000,
		rule: "generated ABI files are compiled into bindings (8 driver crates, both editions); a case is one generated item of one driver with random arguments, output bytes or logs (right, mutated, truncated, foreign); call data, outputs, filters, events and logs are compared with the reference; non-trivial: the item has parameters; distinct by call data or log",
		floors: &[("calls encoded", 5000), ("outputs decoded", 2000), ("outputs refused", 500), ("constructors encoded", 200), ("events described", 1000), ("filters built", 1000), ("logs parsed", 1000), ("logs refused", 300)],
		assumptions: &[MODEL, "the ABIs have no overloads, tuples or names that become the same Rust identifier", "a filter has at most three indexed parameters"],
	},
	Prop {
		id: "C19",
		case: p_state::c19,
		quick: 16_000,
		thorough: 480_000,
		rule: "a case is a contract full of near-equal overloads and 12 to 40 calls on it; they are made in random order with repetitions, on one thread and from 2 to 8 threads at once with random delays (all threads through the same calls in a quarter of the cases), at times as the first calls of a new process; every result is compared with the reference; non-trivial: every concurrent history; distinct by case and by the observed global order of calls",
		floors: &[("concurrent histories", 500), ("calls begun while another was in progress", 5000), ("fresh processes", 20), ("alone: changed in place", 500), ("alone: objects at reused addresses", 500), ("together: parse_log", 500), ("together: filter", 500), ("together: encode_input in place", 500)],
		assumptions: &[MODEL, "interleavings are those the scheduler and the injected delays produce"],
	},
	Prop {
		id: "C20",
		case: p_text::c20,
		quick: 3_000_000,
		thorough: 90_000_000,
		rule: "a case is a value; its printed form is compared with the reference and, where the property says so, parsed back by the strict tokenizer; non-trivial: an array or tuple; distinct by type and printed form",
		floors: &[("printed forms compared", 3000), ("printed forms parsed back", 1000)],
		assumptions: &[],
	},
	Prop {
		id: "C21",
		case: p_call::c21,
		quick: 1_000_000,
		thorough: 30_000_000,
		rule: "a case is a function, a neighbour differing in one thing and an event over the same parameters; textual signatures, selectors and event hashes are compared with the reference; non-trivial: there are inputs; distinct by signature",
		floors: &[("function signatures compared", 3000), ("neighbouring signatures compared", 3000), ("selectors compared", 3000), ("event signatures compared", 3000)],
		assumptions: &["Keccak-256 has no collisions in the sample"],
	},
	Prop {
		id: "C22",
		case: p_access::c22,
		quick: 1_500_000,
		thorough: 45_000_000,
		rule: "a case is a value, a type and (one in four) a contract, each with a neighbour that differs in one place or none; all accessors of the value, clones and equality in both directions are compared with the reference; non-trivial: the value is an array or tuple; distinct by the values",
		floors: &[("accessors: own kind", 3000), ("accessors: other kinds", 3000), ("tokens: equal", 1000), ("tokens: different", 1000), ("types: equal", 1000), ("types: different", 1000), ("functions compared", 300), ("events compared", 300), ("contracts: equal", 100), ("contracts: different", 300), ("logs compared", 1000)],
		assumptions: &[],
	},
];

pub fn find(id: &str) -> Option<&'static Prop> {
	PROPS.iter().find(|p| p.id == id)
}
