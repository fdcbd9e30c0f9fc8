#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script only because JSONL is awkward to edit by hand).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=None)))

AX = "agentx/"
p("C01", "Encoded bytes follow the AgentX wire format",
  "Whenever encoding a PDU succeeds, the returned bytes are exactly the RFC 2741 encoding of that PDU: the 20-byte header (version 1, type, flags, reserved zero, session, transaction and packet ids, payload length), then the context if and only if the non-default-context flag is set, then the fields of that PDU type, search ranges or varbinds in order. Every multi-byte integer is big-endian if and only if the network-byte-order flag is set; octet strings and opaque values are length-prefixed and zero-padded to 4 bytes, and object identifiers use the n_subid/prefix/include/reserved header with the 1.3.6.1.x prefix compressed exactly when x is in 1..255.",
  ["inputs"], "all 18 PDU types, all allowed flag combinations, all field values, string and OID lengths, and numbers of ranges and varbinds (total payload below 2 GiB)",
  "the tests encode a few dozen fixed PDUs; every other length modulo 4, subidentifier value, byte order and list length is untested",
  ["agentx/pdu.go","agentx/encoding.go","agentx/payload_params.go","agentx/varbind.go","agentx/search_range.go","agentx/pdu_tag.go","docs/encoding.txt"],
  [("EncodePdu", "agentx/pdu.go"),("append methods of encoder and of the payload params", "agentx/encoding.go, agentx/payload_params.go"),("vbtable, pduTable", "agentx/varbind.go, agentx/pdu_tag.go")],
  observe=["bytes returned by EncodePdu"])
p("C02", "Payload length field is exact and aligned",
  "Whenever encoding succeeds, the payload length in the header equals the number of bytes after the 20-byte header, and that number is a multiple of 4.",
  ["inputs"], "all PDUs that encode successfully (total payload below 2 GiB)",
  "size computation and byte emission are separate code paths that must agree for every length and every OID; tests compare them on fixed samples",
  ["agentx/pdu.go","agentx/encoding.go","agentx/payload_params.go","agentx/varbind.go","agentx/search_range.go"],
  [("countPayloadSize and the *EncodingSize functions","agentx/pdu.go, agentx/encoding.go"),("append functions","agentx/encoding.go")],
  observe=["bytes 16..19 and the length of the data returned by EncodePdu"])
p("C03", "Header decoding accepts exactly well-formed headers",
  "Decoding a PDU header succeeds if and only if the data is exactly 20 bytes with version 1, a known PDU type (1..18), only flags allowed for that type, a zero reserved byte, and a payload length that is non-negative and a multiple of 4. On success the type, flags, session, transaction and packet ids and payload length are those in the data, read in the byte order named by the flags.",
  ["inputs"], "all byte slices of all lengths",
  "tests decode only the headers they encoded themselves; 2^160 headers and every wrong length are untested",
  ["agentx/pdu.go","agentx/pdu_tag.go","agentx/flags.go","agentx/encoding.go"],
  [("DecodePduHeader","agentx/pdu.go"),("allowedFlags of pduTable","agentx/pdu_tag.go")],
  observe=["pdu and ok returned by DecodePduHeader"])
p("C04", "Payload decoding accepts exactly well-formed payloads",
  "For a PDU obtained from header decoding, payload decoding succeeds if and only if the data has exactly the announced length and is, in full, a well-formed RFC 2741 payload for that type and flags: zero reserved and padding bytes, sizes that fit the data, known varbind types, 4-byte IP addresses, non-negative GetBulk counters, no trailing bytes (subidentifier counts up to 255 and any include octet are taken as they come). On success the context, params, ranges and varbinds are exactly the values the data spells.",
  ["inputs"], "all headers accepted by header decoding and all payload byte slices",
  "tests decode only well-formed data produced by the encoder; truncated, padded, mis-sized or adversarial payloads are never tried",
  ["agentx/pdu.go","agentx/encoding.go","agentx/payload_params.go","agentx/varbind.go","agentx/search_range.go","agentx/pdu_tag.go","asn/value.go"],
  [("DecodePduPayload","agentx/pdu.go"),("parse methods","agentx/encoding.go, agentx/payload_params.go, agentx/varbind.go, agentx/search_range.go")],
  observe=["ok returned by DecodePduPayload and the fields it sets in the pdu"])
p("C05", "Decoding inverts encoding",
  "For every PDU that encodes successfully, decoding the first 20 bytes as a header and the rest as its payload both succeed and give back the same PDU, except for what the wire format does not carry: fields the PDU type does not have, the context without its flag, the upper bound without a range subid, the start-inclusion of a null OID, the value of a value-less varbind type, and the difference between nil and empty slices.",
  ["inputs"], "all PDUs that encode successfully (total payload below 2 GiB)",
  "tests round-trip fixed samples; agreement of encoder and decoder is needed for every value and length",
  ["agentx/pdu.go","agentx/encoding.go","agentx/payload_params.go","agentx/varbind.go","agentx/search_range.go"],
  [("EncodePdu / DecodePduHeader / DecodePduPayload","agentx/pdu.go"),("paired append/parse functions","agentx/encoding.go")],
  observe=["EncodePdu followed by DecodePduHeader and DecodePduPayload"])
p("C06", "Debug encoding is equivalent to encoding",
  "For every PDU, the debug variant of encoding reports success if and only if plain encoding does, and then returns the same bytes.",
  ["inputs"], "all PDUs, well-formed or not",
  "the two variants are separate copies of the code; tests compare them on the same fixed samples and never on refused PDUs",
  ["agentx/pdu.go","agentx/encoding_dbg.go","agentx/payload_params.go","agentx/varbind.go","agentx/search_range.go"],
  [("EncodePduDbg","agentx/pdu.go"),("encoderDbg methods, appendDbg methods","agentx/encoding_dbg.go, agentx/payload_params.go")],
  observe=["data and ok returned by EncodePdu and EncodePduDbg"])
p("C07", "Debug decoding is equivalent to decoding",
  "For every input, the debug variants of header decoding and (for a PDU from header decoding) of payload decoding report success if and only if the plain variants do, and then yield the same PDU.",
  ["inputs"], "all byte slices; all PDUs obtained from header decoding",
  "the debug decoder is a separate position-based implementation; tests compare the two only on well-formed data",
  ["agentx/pdu.go","agentx/encoding_dbg.go","agentx/payload_params.go","agentx/varbind.go","agentx/search_range.go"],
  [("DecodePduHeaderDbg, DecodePduPayloadDbg","agentx/pdu.go"),("decoderDbg methods, parse...Dbg functions","agentx/encoding_dbg.go, agentx/payload_params.go")],
  observe=["results of DecodePduHeader/Dbg and DecodePduPayload/Dbg"])
p("C08", "Codec failures are reported, never thrown",
  "The six encode and decode functions never let a panic escape to the caller, whatever PDU or bytes they are given (with a usable logger and a non-nil PDU pointer), and never report success for an operation that failed part-way.",
  ["inputs"], "all PDUs including zero values, nil params and wrong dynamic types; all byte slices",
  "tests only pass valid input; the failure paths of the codec are never executed",
  ["agentx/pdu.go"],
  [("deferred recover in each entry point","agentx/pdu.go")],
  observe=["the six exported entry points of package agentx"])
p("C09", "Encoding refuses what the wire format cannot express",
  "Encoding succeeds if and only if the PDU type is known, the params have the type that belongs to it, every flag set is allowed for it, every value that is written has the Go type of its varbind tag, every object identifier written has at most 128 subidentifiers after prefix compression, and GetBulk counters are non-negative.",
  ["inputs"], "all PDUs, well-formed or not (total payload below 2 GiB)",
  "tests never encode an invalid PDU, and only sample valid ones",
  ["agentx/pdu.go","agentx/pdu_tag.go","agentx/encoding.go","agentx/payload_params.go","agentx/varbind.go"],
  [("isApplicableParams, NotAllowedFlags","agentx/pdu_tag.go"),("type assertions in vbtable","agentx/varbind.go"),("maxSubids check","agentx/encoding.go")],
  observe=["ok returned by EncodePdu"])
p("C10", "Decoding work and memory are bounded by the input",
  "Decoding always terminates: every loop that reads varbinds, ranges or subidentifiers consumes input in each iteration or runs a number of times bounded by a constant. It never allocates memory whose size comes from a length field before that length has been checked against the data actually present.",
  ["inputs"], "all byte slices given to the four decoding functions",
  "a hostile length field or an element that consumes no input does not occur in the well-formed test data",
  ["agentx/pdu.go","agentx/encoding.go","agentx/encoding_dbg.go","agentx/varbind.go","agentx/search_range.go","agentx/payload_params.go"],
  [("parse loops in DecodePduPayload(Dbg)","agentx/pdu.go"),("make calls in parse functions","agentx/encoding.go, agentx/encoding_dbg.go")],
  observe=["termination and allocation of DecodePduHeader/Payload and their Dbg variants"])
p("C11", "The codec never shares or modifies the caller's memory",
  "A decoded PDU does not alias the byte slice it was decoded from, encoded bytes do not alias the PDU they were encoded from, encoding leaves the PDU it is given (including everything reachable from it) unchanged, and decoding leaves the bytes it is given unchanged.",
  ["inputs","histories"], "all inputs, and all later modifications of the caller's buffers",
  "tests never reuse or modify a buffer after a call, so aliasing is invisible to them",
  ["agentx/pdu.go","agentx/encoding.go","agentx/encoding_dbg.go","agentx/payload_params.go","agentx/varbind.go","agentx/search_range.go"],
  [("string conversions, make+copy in parse functions","agentx/encoding.go, agentx/encoding_dbg.go"),("make of the output buffer","agentx/pdu.go")],
  observe=["memory reachable from arguments and results of the six entry points"])
p("C12", "Codec and value functions keep no hidden state",
  "No exported function of the module, other than the methods of the OID tree acting on that tree, writes package-level state after program initialisation, starts goroutines, or has results that depend on anything but its arguments, so any number of goroutines may encode, decode, compare and render concurrently without interference.",
  ["schedules","histories"], "all interleavings and call histories of exported functions",
  "tests are sequential and run each function few times; shared scratch state or a mutated table needs a particular history or interleaving to show",
  ["agentx/","asn/","oid/oid.go","hex/dump.go","ipa/ip_address.go","internal/","pduerror/"],
  [("package-level tables written only by their initialisers","agentx/pdu_tag.go, agentx/varbind.go, asn/value.go, agentx/encoding.go, internal/indent.go")],
  observe=["package-level variables of all packages"])
p("C13", "Protocol numbers, names and permissions match the RFCs",
  "The PDU type codes, flag bits, close reasons, error codes and value tags have the numbers assigned by RFC 2741/1905; the known types are exactly 1..18; each PDU type permits exactly its flags, and PDU types, flags, close reasons, errors and value tags render as their own names while unknown values render distinguishably.",
  ["inputs"], "all values of the five enumerated types",
  "the tests touch a handful of table entries; a wrong or swapped entry elsewhere is not noticed",
  ["agentx/pdu_tag.go","agentx/flags.go","agentx/close_reason.go","pduerror/error.go","pduerror/error_string.go","asn/tag.go","asn/value.go"],
  [("constants and pduTable","agentx/pdu_tag.go"),("flagStrings","agentx/flags.go"),("table","asn/value.go"),("generated stringer tables","pduerror/error_string.go")],
  observe=["exported constants, IsKnown, NotAllowedFlags and String methods"])
p("C14", "Value validity agrees with the codec",
  "A tag is reported as a value tag if and only if a varbind with that tag can be encoded and decoded, a value is reported as valid for a tag if and only if a varbind with that tag and value can be encoded (object identifiers too long for the wire format aside), and every value produced by decoding is valid for its tag.",
  ["inputs"], "all 256 tags and all dynamic value types",
  "two independent tables (validity and codec) must agree entry by entry; tests do not compare them",
  ["asn/value.go","agentx/varbind.go"],
  [("table","asn/value.go"),("vbtable","agentx/varbind.go")],
  observe=["Tag.IsValueTag, Tag.IsValidValue, EncodePdu, DecodePduPayload"])
p("C15", "OID comparison is the lexicographic total order",
  "Comparing two OIDs returns -1, 0 or +1 according to the lexicographic order of unsigned subidentifiers with a proper prefix ordered before its extensions, for all OIDs of all lengths, and the six derived predicates (less, less-or-equal, equal, not-equal, greater-or-equal, greater) agree with it.",
  ["inputs"], "all pairs of OIDs of all lengths, including subidentifiers with the top bit set and nil",
  "tests compare twelve fixed pairs and none of the derived predicates",
  ["oid/oid.go","generics/generics.go"],
  [("Compare, Lt, Le, Eq, Ne, Ge, Gt","oid/oid.go")],
  observe=["results of the seven functions"])
p("C16", "OID clone, concatenation and prefix test are exact and fresh",
  "Cloning an OID and appending subidentifiers to an OID return exactly the original subidentifiers followed by the appended ones, in storage shared with none of the arguments and without modifying them; the prefix test is true if and only if the OID has at least as many subidentifiers as the prefix and agrees with it on all of them.",
  ["inputs","histories"], "all OIDs of all lengths and capacities, and all later modifications of arguments or results",
  "tests check contents for a few short OIDs and never modify a result afterwards, so shared storage is invisible",
  ["oid/oid.go"],
  [("Clone, Cat, HasPrefix","oid/oid.go")],
  observe=["results of the three functions and the arguments' memory"])
p("C17", "Every OID tree access is made under the tree lock",
  "Every operation of the OID tree reads the tree only while it holds the tree's lock at least for reading and changes the tree only while it holds it for writing; it releases the lock on every way out, including a panic in a caller's callback, and never acquires it twice.",
  ["schedules"], "all interleavings of tree operations in any number of goroutines, including panicking callbacks",
  "the tree has a single sequential test; a missing lock, an unlock on the wrong path or a read lock around a write needs an interleaving to show",
  ["oid/tree.go","oid/node.go"],
  [("lock/unlock in every Tree method","oid/tree.go")],
  state=[("Tree.root and all Node fields reachable from it","the shared tree","oid/tree.go, oid/node.go")],
  observe=["Tree methods"])
p("C18", "OID tree nodes stay sorted, unique and linked",
  "Through every sequence of tree operations, the children of each node are strictly increasing in subidentifier and each child's parent link points to the node that lists it; adding a node returns nil if it already exists and otherwise creates exactly the missing path, looking it up returns it, and removing it removes exactly that subtree. The root, standing for the empty OID, always exists and can be neither added nor removed.",
  ["histories"], "all sequences of tree operations over all OIDs",
  "the single tree test adds three sibling leaves in increasing order",
  ["oid/node.go","oid/tree.go"],
  [("searchChild, addChild, removeChild, addNode, getNode, removeNode","oid/node.go")],
  state=[("Node.Children, Node.Parent, Node.Subid","tree shape","oid/node.go")],
  observe=["Tree.AddNode, GetNode, RemoveNode, ForRangeLeaves"])
p("C19", "Tree walks are ordered and GetNext returns the first leaf inside the bounds",
  "Walking the leaves of the tree calls the callback once for each leaf, in ascending OID order, with that leaf and its own OID in storage of its own. Asking the tree for the next node returns the leaf with the least OID that is greater than the start OID (or equal to it, if inclusion is requested) and, when an end OID is given, less than it, and returns nil if there is no such leaf.",
  ["histories","inputs"], "all trees and all pairs of bounds",
  "there is no test of this operation at all",
  ["oid/node.go","oid/tree.go"],
  [("getNextNode","oid/node.go"),("GetNextNode","oid/tree.go")],
  observe=["Tree.GetNextNode","Tree.ForRangeLeaves"])
p("C20", "Rendering never panics",
  "Turning any PDU tag, flags, close reason, error code, value tag, OID, IP address, varbind, search range, hex dump or indentation into text never panics, whatever the value, including unknown codes, nil and mistyped values, out-of-range dump bounds and negative depths.",
  ["inputs"], "all values of all renderable types",
  "tests render a few valid values only through a silent logger; unknown codes and mistyped values are never rendered",
  ["agentx/pdu_tag.go","agentx/flags.go","agentx/close_reason.go","agentx/search_range.go","asn/value.go","asn/varbind.go","oid/oid.go","ipa/ip_address.go","hex/dump.go","internal/indent.go","pduerror/error_string.go"],
  [("table look-ups guarded by IsKnown and validity checks","asn/value.go, agentx/pdu_tag.go"),("bounds check in DumpSub","hex/dump.go")],
  observe=["String/Fprint methods and functions, hex.Dump*"])
p("C21", "Debug log messages are well-formed",
  "Every formatted debug message supplies exactly the arguments its format string consumes, each of a type its verb can print, so no message is garbled and none silently loses its data.",
  ["inputs"], "all formatted messages the module can emit",
  "tests run with a logger that discards messages, so a malformed message is invisible",
  ["agentx/","logger/logger.go","hex/dump.go","oid/oid.go"],
  [("Writef call sites","agentx/encoding_dbg.go, agentx/pdu.go, agentx/payload_params.go, agentx/varbind.go, agentx/search_range.go")],
  observe=["messages passed to the logger and to fmt"])
p("C22", "OID parsing never yields a wrong OID",
  "Parsing a text returns exactly the OID it spells (decimal subidentifiers below 2^32 separated by single dots, at most 128 of them, an optional leading dot, the empty text standing for the nil OID) and panics on every other text: no conversion error is dropped, no number that does not fit 32 bits is truncated, no OID of more than 128 subidentifiers is returned. Parsing the rendering of an OID of at most 128 subidentifiers gives that OID back.",
  ["inputs"], "all strings; all OIDs of at most 128 subidentifiers",
  "tests parse four valid strings; every malformed or out-of-range text is untested",
  ["oid/oid.go"],
  [("Parse","oid/oid.go"),("String","oid/oid.go")],
  observe=["result or panic of oid.Parse"])
p("C23", "Well-known names map to their registered OIDs",
  "Each predefined name maps to the OID that the SNMP MIB registers for it, so distinct names have distinct OIDs and each object lies under its group.",
  ["configurations"], "all predefined names",
  "tests only look up a name they added themselves",
  ["oid/name.go"],
  [("Name","oid/name.go")],
  observe=["oid.Name"])
p("C24", "Hex dumps show the data they are given",
  "A hex dump of a byte range shows every byte of the range exactly once, in order, four per line with the right offset, and a dump difference is empty if and only if the two slices are equal and otherwise marks exactly the lines that differ.",
  ["inputs"], "all byte slices and ranges",
  "there is no test of the dump functions",
  ["hex/dump.go"],
  [("DumpSub, DumpDiff","hex/dump.go")],
  observe=["text returned by hex.Dump, DumpSub, DumpTail, DumpDiff"])
p("C25", "Rendered text spells the value",
  "The text of an OID is its subidentifiers in unsigned decimal joined by dots, that of an IP address its four octets joined by dots. A value is rendered for its tag as the decimal number (signed for Integer32 only), the string itself, the OID or IP text, the octets of an opaque value in decimal separated by blanks within braces, or nothing for a tag without value, and as a question mark if it is not valid for the tag. A varbind is rendered as {oid tag: value}, a search range as {StartOid: oid EndOid: oid StartIncluded: number}, and an indentation as four blanks per level, at most eight levels.",
  ["inputs"], "all OIDs, addresses, tags, values of all dynamic types, varbinds, ranges and depths",
  "the texts are never compared with anything; a swapped, truncated or sign-confused rendering is invisible to tests that only log it",
  ["oid/oid.go","ipa/ip_address.go","asn/value.go","asn/varbind.go","agentx/search_range.go","internal/indent.go"],
  [("Fprint and String functions","oid/oid.go, ipa/ip_address.go, asn/varbind.go, agentx/search_range.go"),("table","asn/value.go"),("Prefix","internal/indent.go")],
  observe=["oid.String, ipa.String, Tag.Fprint, Varbind.String, SearchRange.String, internal.Prefix"])
p("C26", "Rendering a PDU shows every field once",
  "The text of a PDU has one line per field in declaration order, each indented for the given depth and written as the field's name, a colon, a blank and its value: the type, flags, close reason and error code by their names, numbers in decimal with their sign, the context and descriptions verbatim, an OID as its text, an empty OID or list as <empty>, missing params as <nil>. The fields of the params, the search ranges and the varbinds follow their line on lines of their own, one level deeper. Producing the text never panics.",
  ["inputs"], "all PDUs, params types, list contents and depths",
  "the text is built by reflection over whatever the struct holds; tests print it into logs and use it to compare PDUs, so an omitted field hides a codec bug as well",
  ["internal/struct.go","internal/indent.go","agentx/pdu.go"],
  [("StructString, fprintStruct, fprintValue, tryFprintOrString","internal/struct.go"),("Pdu.String","agentx/pdu.go")],
  observe=["Pdu.String"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
