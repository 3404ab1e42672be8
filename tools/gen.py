"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json, os
V = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
G = "src/generated_schema/%s/"
VERS = ["2024_11_05", "2025_03_26", "2025_06_18", "2025_11_25", "2026_07_28", "draft"]
S = [G % v + "mcp_schema.rs" for v in VERS]
U = [G % v + "schema_utils.rs" for v in VERS]
W = [G % v + "validators.rs" for v in VERS]
NEW = VERS[3:]
SN = [G % v + "mcp_schema.rs" for v in NEW]
UN = [G % v + "schema_utils.rs" for v in NEW]
LEAD = "every protocol version (2024-11-05 to 2026-07-28 and draft); "

ROWS = [
 ("P01", "Reading: a document is accepted exactly when it has the specified shape",
  "For every type of the protocol, an arbitrary JSON document is accepted exactly when every required member is present and readable as its specified type, every optional member is absent or readable, and every member with a fixed value (protocol marker, method, kind) carries that value. An accepted document yields the value whose members are exactly the document's: absent optional members stay absent or take the specified default, and members the type does not name are kept where the protocol allows extra members and ignored otherwise. Reading never panics.",
  ["inputs", "configurations"], LEAD + "every JSON document, for every type",
  "The tests read a few dozen sample documents per version; acceptance and the value read are claims over all documents, including wrong kinds, missing, extra and null members.",
  S + U + W, [("derived and hand-written deserialisers of every type", "mcp_schema.rs, schema_utils.rs"), ("checks of fixed values", "validators.rs")]),
 ("P02", "Writing: a value is written as exactly its specified members",
  "For every type of the protocol, writing an arbitrary value succeeds and gives the JSON object holding exactly the specified member names with the values of the corresponding parts. A member that is absent is left out (never written as null), extra members are written beside the named ones, and an alternative of a union is written as its content alone. Writing never panics.",
  ["inputs", "configurations"], LEAD + "every value of every type",
  "Tests compare a few written samples; a dropped, renamed or null-written member in any of several hundred types goes unnoticed.",
  S + U, [("derived serialisers", "mcp_schema.rs"), ("hand-written envelope serialisers", "schema_utils.rs")]),
 ("P03", "Constructors, builders and constants give exactly the specified value",
  "A constructor puts each argument into the member it is named after, sets every member with a fixed value to the protocol's value, and leaves all others absent or at their specified default. A builder step replaces exactly the member it is named after and leaves every other member untouched. The published method, kind and protocol-marker constants equal the protocol's strings.",
  ["inputs", "configurations"], LEAD + "all arguments of every constructor and builder step; all published constants",
  "Most constructors and builder steps are not called by any test, and none is called with arguments that would show two members swapped.",
  S + U, [("new functions and with_* steps", "mcp_schema.rs, schema_utils.rs"), ("method_value, type_value and similar constants", "mcp_schema.rs")]),
 ("P04", "What is written reads back as the same value",
  "Writing any value of a protocol type and reading the result as the same type gives back an equal value: no member is lost, changed or moved. For a union of alternatives the protocol tells apart (by a fixed value or a required member), the same alternative comes back. This does not apply to unions of alternatives with no distinguishing member, to extra members that repeat a named member, or to fixed-value members holding another value.",
  ["inputs", "configurations"], LEAD + "every value of every type (members are treated through the round trip of their own types)",
  "Round trips are tested on single samples; a pair of reader and writer that agree on the samples can still disagree on an optional member no sample sets.",
  S + U, [("serialiser and deserialiser of each type", "mcp_schema.rs, schema_utils.rs"), ("order of the alternatives of untagged unions", "mcp_schema.rs")]),
 ("P05", "The method (or kind) of a message decides which message it is read as",
  "A request, notification, content block or reference is read as the alternative its method or kind names, and as no other: the fixed value of each alternative is the protocol's, unknown values are never taken for a known alternative, and a known method is taken for a custom message only where its content does not fit. The method a message value reports is the one of the alternative it holds.",
  ["inputs", "configurations"], LEAD + "every JSON document given to every union; every message value",
  "Tests try each method once with a well-formed body; whether some body of one method can be taken for another depends on every combination of members.",
  S + U + W, [("dispatch on method", "schema_utils.rs, mcp_schema.rs"), ("fixed-value validators", "validators.rs")]),
 ("P06", "Messages are classified by what they are, and accessors answer for it",
  "Every message is exactly one of request, notification, response or error, and the predicates, the type it reports, and the conversions to each class agree with that. The accessors for id, method and protocol marker answer with the corresponding member of the message it holds, whichever alternative that is, and with nothing where that kind of message has none. A conversion to a class the message does not belong to is an error, never a wrong value.",
  ["inputs", "configurations"], LEAD + "every value of the message envelopes of both sides",
  "Tests classify one sample per class; the accessors branch over dozens of alternatives, and a wrong arm is visible only for that alternative.",
  U, [("is_request, is_response, is_notification, is_error, message_type, as_* of the envelopes", "schema_utils.rs"), ("request_id, method, jsonrpc accessors", "schema_utils.rs")]),
 ("P07", "Pairing content with its id: required where it has one, refused otherwise",
  "Turning a request or a result into a full message requires an id and gives the message carrying exactly that content, its method, the protocol marker and that id. Turning a notification into a full message refuses an id, and an error likewise keeps the id it is given. Taking the id off again gives back the same content, and a missing or superfluous id is reported as an error, never ignored or invented.",
  ["inputs", "configurations"], LEAD + "every message content, with and without id, both directions",
  "The pairing functions are repeated per message type and per side; tests build a few of them and mostly on the good path.",
  U, [("from_message / to_message", "schema_utils.rs"), ("new of the per-request envelopes", "schema_utils.rs")]),
 ("P08", "JSON-RPC envelopes: marker 2.0, id and method are required and kept",
  "A full request, notification, result or error message is read only if it is an object whose protocol marker is the string 2.0, with the id (where one is required) a string or integer and the method a string. It is written as exactly the marker, the id, the method and the content of the message it holds. A document with a wrong or missing marker is never accepted.",
  ["inputs", "configurations"], LEAD + "every JSON document and every envelope value",
  "Tests feed well-formed envelopes; the hand-written readers and writers have a branch for each absent or malformed member.",
  U + S, [("hand-written Deserialize/Serialize of the envelopes", "schema_utils.rs"), ("marker validators", "validators.rs")]),
 ("P09", "Result types: complete, input required, and extension results are told apart",
  "A result whose result type says input is required is read as that kind of result and as nothing else; a result without a result type counts as complete and is written with the type complete; any other result type string is kept as it is. A result never changes its result type by being read and written.",
  ["inputs", "configurations"], "2026-07-28 and draft; every result document and value",
  "Only two result types appear in the tests; absent, unknown and non-string ones, for every result alternative, do not.",
  [G % v + "mcp_schema.rs" for v in VERS[4:]] + [G % v + "schema_utils.rs" for v in VERS[4:]], [("result type and server result readers", "mcp_schema.rs, schema_utils.rs"), ("result kind predicates", "schema_utils.rs")]),
 ("P10", "Conversions between a message and the unions that hold it lose nothing",
  "Converting a message into any union or envelope that holds it gives the alternative named after it, holding the same content. Converting back succeeds exactly when the union holds that alternative, gives the same content, and otherwise is an error stating so. No conversion changes, drops or defaults any part of the content.",
  ["inputs", "configurations"], LEAD + "every value, over all (several hundred) conversions between a type and a union or envelope holding it",
  "The conversions are several hundred near-identical impls; a test per impl does not exist, and one that maps to a neighbouring alternative compiles when the payload types agree.",
  S + U, [("From / TryFrom impls", "mcp_schema.rs, schema_utils.rs"), ("as_* narrowing functions", "schema_utils.rs")]),
 ("P11", "Capability gating: a message is refused exactly when its capability is missing",
  "A peer's capability record is said to handle a request or notification exactly when every capability the protocol ties to that message is declared, including sub-capabilities that only some contents of the message need. When it is not, the error names the missing capability and the message. Whether a message asks for task execution is answered by the presence of its task member alone, at any depth of the union it sits in.",
  ["inputs", "configurations"], LEAD + "every combination of declared capabilities with every request and notification",
  "The capability record has dozens of optional members and there are dozens of messages; tests try a handful of the combinations.",
  U, [("can_handle_request / can_accept_notification / can_run_task and similar", "schema_utils.rs"), ("is_task_augmented", "schema_utils.rs")]),
 ("P12", "Request ids: text, equality and form are kept",
  "A request id displays as the string or the decimal integer it holds, whatever the string or integer. Converting, reading and writing an id keeps its kind and its value: the string of digits and the integer stay different ids. Two ids are equal exactly when they are of the same kind and hold the same value, and equal ids hash alike.",
  ["inputs", "configurations"], LEAD + "every string and every 64-bit integer",
  "Tests use small positive integers and short strings.",
  S + U, [("request id type", "mcp_schema.rs"), ("Display and conversions of request ids", "schema_utils.rs, mcp_schema.rs")]),
 ("P13", "Errors carry the specified number, message and data",
  "Each error constructor gives the error with the protocol's (or the library's documented) code number, its fixed message or the caller's, and the caller's data in the specified place. Converting between error codes and numbers is exact in both directions for every code. Errors converted between the library's error types keep code, message and data, and a tool error displays the text it was built from.",
  ["inputs", "configurations"], LEAD + "every code, every message and data argument",
  "Tests check two or three of the errors, and few of their data members.",
  U + S, [("error code tables and constructors", "schema_utils.rs, mcp_schema.rs"), ("tool call errors", "schema_utils.rs")]),
 ("P14", "Protocol versions: names, order and parsing agree",
  "Each known protocol version displays as its date string (the draft as DRAFT), and parsing accepts exactly those strings, gives back the same version, and refuses every other string with an error naming it. Versions compare in the order of their release, the draft last. The supported versions are listed in that order, the draft only on request, and the latest is the newest released one.",
  ["inputs", "configurations"], "every string and every pair of versions, in every build configuration of one version",
  "Tests parse a few valid names and one invalid one.",
  ["src/generated_schema/protocol_version.rs"] + U, [("ProtocolVersion", "protocol_version.rs"), ("validate_mcp_protocol_version and the version constants", "mcp_schema.rs, protocol_version.rs")]),
 ("P15", "Batches keep their messages, in order",
  "Making a batch of a list of messages keeps every message, unchanged and in order, and a single message stays a single one; taking out the batch or the single message succeeds exactly when it is one. A batch is said to hold a request exactly when some message in it is one, for batches of any length including zero.",
  ["inputs", "configurations"], "every batch, of any length, of the versions that have batches",
  "Tests use batches of one or two messages; the statements range over all lengths and positions.",
  U, [("batch enums and their conversions and predicates", "schema_utils.rs")]),
 ("P16", "Metadata: what is set reads back, and nothing else changes",
  "Setting the trace context, the related task or any other member of a message's metadata stores it under the specified key, leaves every other key as it was, and reading it gives the same value back; reading one that is absent or of the wrong kind gives nothing. Replacing the metadata of a request, or adding answers or a task to it, changes that part alone, whichever request it is.",
  ["inputs", "configurations"], "every metadata object and value, in the versions that have these members",
  "Tests set a key on an empty object; frame conditions over arbitrary other members are not exercised.",
  U, [("trace context, request metadata and related task accessors", "schema_utils.rs")]),
 ("P17", "Elicitation schemas are parsed into the kind they describe, or refused",
  "A JSON object describing a form field is turned into exactly the kind of field its type, its choice list and its item description select, with every constraint, title, description and default taken from the member of that name. An object of no supported kind, or with a malformed choice list, is refused with an error. Parsing never panics, whatever the object.",
  ["inputs", "configurations"], "every JSON object, in the versions with elicitation",
  "Tests parse one sample per kind; members of unexpected JSON kinds, missing or mixed choice lists are a space they do not enter.",
  [G % v + "schema_utils.rs" for v in VERS[2:]], [("conversion from a JSON object to a field schema", "schema_utils.rs")]),
 ("P18", "Content blocks and tool results hold what they were built from",
  "A content block or resource content built from text, data or a resource holds exactly that in its own kind of block with nothing else set, and is recognised as that kind alone. A tool result built from content holds exactly those blocks in order and the success flag specified; adding to it appends and changes nothing before it. A tool error turned into a result is flagged as an error and holds its text.",
  ["inputs", "configurations"], LEAD + "every argument, every starting result",
  "Tests build a few blocks and one or two results.",
  U + S, [("content block constructors and accessors", "schema_utils.rs"), ("tool result helpers", "schema_utils.rs")]),
 ("P19", "No input makes the library panic",
  "Reading any document, writing any value, and calling any constructor, conversion, accessor, predicate or text function with any arguments returns a value or an error; it never panics, overflows or indexes out of bounds. The one exception is asking an opaque custom message of the older versions for a method when it has none.",
  ["inputs", "configurations"], LEAD + "all inputs of every function under contract",
  "Absence of panics is a claim over all inputs; a test shows it for the inputs it has.",
  S + U + W + ["src/generated_schema/protocol_version.rs"], [("every public function", "mcp_schema.rs, schema_utils.rs")]),
 ("P20", "Enumerated strings: display, parsing and JSON form agree with the protocol",
  "Each value of an enumerated string type displays as, is written as, and is parsed and read from exactly the protocol's string for it. Every other string is refused, except where the protocol names a fallback.",
  ["inputs", "configurations"], LEAD + "every string, every value of every enumerated type",
  "Tests cover a few of the enumerated types with valid strings.",
  S + U, [("Display, FromStr, TryFrom and serde impls of enumerated strings", "mcp_schema.rs, schema_utils.rs")]),
 ("P21", "A message's text is its JSON form, and parsing the text gives it back",
  "The text of a message is the JSON it is written as, and parsing a text gives the message its JSON is read as, or an error when it is not JSON or not such a message. Error types display the fixed, documented texts with the caller's parts in place.",
  ["inputs", "configurations"], LEAD + "every message value and every text",
  "Tests parse and print single samples per envelope type.",
  U, [("Display and FromStr of messages and envelopes", "schema_utils.rs"), ("Display of the error types", "schema_utils.rs")]),
 ("P22", "Input requests and results of other kinds are built and recognised exactly",
  "A result that asks for input holds exactly the requests and state it was built with and is recognised as such and as nothing else; a complete result is recognised as complete. The input requests and responses convert to and from the messages they stand for unchanged. Requests and notifications that belong to the connection's start are recognised exactly.",
  ["inputs", "configurations"], "every value, in the versions that have them",
  "Only the default path is tested; recognition must hold for every result alternative.",
  UN, [("input requests and responses, result kinds", "schema_utils.rs"), ("is_initialize_request, is_initialized_notification", "schema_utils.rs")]),
 ("P23", "Copies equal the original, and defaults set nothing",
  "Copying any value gives an equal value: every member and alternative is kept. Two enumerated values compare as equal exactly when they are the same value. The default of a type has every member absent, empty or zero, except where the protocol's library names another default (an id or token is the integer 0, a log level is info).",
  ["inputs", "configurations"], LEAD + "every value of every type that can be copied, compared or defaulted",
  "The tests copy and compare a few samples; a hand-written copy or default that forgets a member is visible only for values that set it.",
  S + U, [("Clone, PartialEq, Ord and Default impls, derived or written by hand", "mcp_schema.rs, schema_utils.rs")]),
]

TECH = "contracts on the MIR of the real code, discharged deductively (own VC generator + z3)"
NOTE = ("Proof, for all inputs: the optimisation-free MIR of /repo's current source is dumped on every run, executed symbolically, and every obligation is discharged by "
        "normalisation or z3. Trusted: rustc's MIR, the VC generator (engine/verify/exec.py), the assumed contracts of std/serde/serde_json (contracts.py), the frozen "
        "protocol specification (spec/*.json). A function the verifier cannot reach after a change is decided by a bounded run of the real code, labelled bounded.")
EXTRA = {}


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for i, t, st, over, q, why, files, mech in ROWS:
            assert len(t) <= 80, t
            f.write(json.dumps(dict(id=i, title=t, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
                                    anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))) + "\n")
    m = dict(version=1, setup_cmd="python3-vt engine/verify/build.py mir",
             checks=[dict(property=r[0], quick_cmd="python3-vt engine/verify/check.py %s --tier quick" % r[0],
                          thorough_cmd="python3-vt engine/verify/check.py %s --tier thorough" % r[0],
                          technique=TECH, level="proof", level_note=NOTE + EXTRA.get(r[0], "")) for r in ROWS],
             not_applicable=[], notes="See DESIGN.md. No hooks in /repo: the verifier reads the crate's MIR, private items included.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
