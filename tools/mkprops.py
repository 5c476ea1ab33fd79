#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = "pkg/scte35/"
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
      why_tests_cant=why, anchors=dict(files=files, state=state or [],
      mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None))
ALLCMD=[P+f for f in ["splice_info_section.go","splice_command.go","splice_null.go","splice_schedule.go","splice_insert.go","time_signal.go","bandwidth_reservation.go","private_command.go"]]
ALLDESC=[P+f for f in ["splice_descriptor.go","avail_descriptor.go","dtmf_descriptor.go","segmentation_descriptor.go","segmentation_upid.go","time_descriptor.go","audio_descriptor.go","private_descriptor.go"]]
L=[]
L.append(prop("C01","Decoding any binary or text signal is total and its result usable",
 "Decoding any byte string, and any string handed to the base64 and hex entry points, terminates without a panic or crash, yields a non-nil section and reports malformed text as an unsupported-encoding error. Whatever was decoded, including the partial result of a failed decode, can then be rendered as table, JSON, XML, binary, base64, hex and duration without a panic.",
 ["inputs"],"every byte string and every text string: random, truncated, extended, bit-flipped and CRC-repaired signals of every command and descriptor type",
 "The tests decode about thirty hand-picked signals, nearly all well formed; no test covers arbitrary bytes or renders the result of a failed decode.",
 ALLCMD+ALLDESC+[P+"scte35.go",P+"table.go"],
 [("bounds-clamping bit reader and per-part reader error checks","iobit.Reader, readerError in "+P+"scte35.go"),("fallback to private command/descriptor for unknown types",P+"splice_command.go, "+P+"splice_descriptor.go")],
 observe=["DecodeBase64/DecodeHex/Decode","Table, MarshalJSON, xml.Marshal, Encode, Base64, Hex, Duration"]))
L.append(prop("C02","Decoding any JSON or XML document is total and its result usable",
 "Unmarshalling any JSON or XML document into a section terminates without a panic: it yields an error or a section. Every section so accepted, whatever elements or values were missing, null or unexpected, can be rendered as table, JSON, XML, binary, base64, hex and duration without a panic.",
 ["inputs"],"every JSON and XML document: valid ones, ones with fields removed, nulled, retyped, reordered, nested or duplicated, and arbitrary bytes",
 "The tests unmarshal a few complete documents that the library produced itself; no test feeds null, missing or ill-typed fields.",
 ALLCMD+ALLDESC,
 [("internal document struct with optional members","iSIS in "+P+"splice_info_section.go"),("nil-guarded flag accessors","TimeSpecifiedFlag etc.")],
 observe=["json.Unmarshal","xml.Unmarshal"]))
L.append(prop("C03","Binary decoding yields exactly the values the standard's layout assigns",
 "For every splice_info_section laid out as SCTE 35 specifies (all commands, all descriptors, all flag combinations, cancelled events, component mode, any field values, encrypted or with stuffing), decoding succeeds and every exposed field equals the value carried by the corresponding bits, independent of the contents of reserved bits. A byte string that decoding accepts never yields other values than its bits carry.",
 ["inputs"],"every well-formed section over all commands, descriptors, flags, counts and field values; every accepted malformed one",
 "The tests cover about thirty sections; no test decodes cancelled inserts, several component lists, audio descriptors with several channels, or boundary values of most fields.",
 ALLCMD+ALLDESC,
 [("per-structure decode methods","decode in every command/descriptor file")],observe=["exported fields after Decode"]))
L.append(prop("C04","Encoding emits exactly the standard's bit layout",
 "For every section whose values fit the standard's fields, encoding succeeds and emits, bit for bit, the layout of SCTE 35: correct section, command, descriptor-loop and descriptor lengths, counts and flags, fields in order and at their width, reserved bits set to one, and a valid trailing CRC-32. The base64 and hex forms are those same bytes.",
 ["inputs"],"every representable section over all commands, descriptors, flags, counts and field values, built through the API",
 "The tests encode about twenty sections; lengths are computed by code separate from the code that writes the bits, so any untested combination can disagree.",
 ALLCMD+ALLDESC,
 [("length() and encode() pairs","every command/descriptor file"),("section assembly and CRC","SpliceInfoSection.Encode in "+P+"splice_info_section.go")],observe=["Encode","Base64","Hex"]))
L.append(prop("C05","Binary round trip loses and invents nothing",
 "For every representable section, decoding its encoding gives back an equal section; for every accepted binary signal whose UPIDs are well formed for their type, re-encoding succeeds and decodes to an equal section, and re-encoding again yields the identical bytes. A signal already in the library's canonical form re-encodes to itself.",
 ["inputs"],"every representable section and every binary signal that decodes without error, including lenient and non-canonical ones",
 "The round-trip tests cover a fixed list of signals; the law has to hold for every section and for every accepted quirk.",
 ALLCMD+ALLDESC,
 [("decode/encode/length kept in step by hand","every command/descriptor file")],observe=["Decode(Encode(x))","Encode(Decode(b))"]))
L.append(prop("C06","Only signals with a valid CRC-32 are accepted",
 "A binary signal decodes without error only if its trailing four bytes are the MPEG-2 CRC-32 of everything before them, so every corruption of one or two bits or of a burst of up to 32 bits in an accepted signal is rejected. If the CRC is the only thing wrong, the error identifies itself as the CRC error and the section is still completely decoded.",
 ["inputs"],"every signal and every corruption of it: all single bits, all bit pairs of short signals, bursts, truncations and extensions",
 "The tests have one signal with a bad CRC; the table has 256 entries of which a few signals exercise few.",
 [P+"crc_32.go",P+"splice_info_section.go"],
 [("table-driven CRC-32 over the whole section","verifyCRC32/calculateCRC32 in "+P+"crc_32.go")],observe=["Decode error"]))
L.append(prop("C07","JSON round trip is lossless",
 "For every section with a command whose values fit the standard's fields, marshalling to JSON and unmarshalling into a fresh section gives back a section that is equal, binary encoding included. Marshalling is deterministic, and marshalling the result again yields the same document.",
 ["inputs"],"every representable section, whether built through the API, decoded from binary or read from XML",
 "The tests compare JSON for a fixed list of signals; optional members, polymorphic commands/descriptors and zero values interact in far more ways.",
 ALLCMD+ALLDESC,
 [("type discriminators and custom unmarshalling","MarshalJSON/UnmarshalJSON in "+P+"splice_info_section.go, "+P+"splice_descriptor.go")],observe=["json.Marshal/Unmarshal"]))
L.append(prop("C08","XML round trip is lossless",
 "For every section with a command whose values fit the standard's fields, marshalling to XML and unmarshalling into a fresh section gives back a section that is equal, binary encoding included, for every command and descriptor type and order. Leading and trailing white space around UPID text, which XML layout may add, is the only thing not kept; text with characters XML does not have is kept too.",
 ["inputs"],"every representable section, indented or not",
 "The tests compare XML for a fixed list of signals, none with a private command, pre-roll or mixed descriptor order.",
 ALLCMD+ALLDESC,
 [("XML struct tags and per-element descriptor dispatch","iSIS in "+P+"splice_info_section.go, SpliceDescriptors.UnmarshalXML in "+P+"splice_descriptor.go")],observe=["xml.Marshal/Unmarshal"]))
L.append(prop("C09","JSON and XML documents use the published names and meanings",
 "Every marshalled document carries each present field exactly once under its published JSON key or namespaced XML element/attribute name with the field's value, the numeric type discriminator in JSON and UTC times in RFC 3339; in XML the elements come in the published schema's order with every attribute it requires, and in JSON every member these documents always state is there, zero or not. Conversely a document written by another producer with those names, in any key, attribute or element order and with optional members absent, is read to exactly the values it states, an absent SAP type meaning 'not specified' and an absent value its default, UPID values stated in hex or base-64 instead of text being the bytes they denote, extensions of its producer (JSON members and XML attributes under other names, Ext elements) being ignored.",
 ["inputs"],"every representable section as independently written JSON or XML document, in any permitted order and spacing and with members and attributes of its own, and every document the library writes",
 "The tests only read documents shaped like the library's own output; a renamed or swapped tag on both sides still round-trips.",
 ALLCMD+ALLDESC+["docs/scte_35_20230713.xsd"],
 [("struct tags","every command/descriptor file"),("document struct","iSIS in "+P+"splice_info_section.go")],observe=["json.Marshal, xml.Marshal output","json.Unmarshal, xml.Unmarshal result"]))
L.append(prop("C10","Failed decodes say why and keep what was decoded",
 "Every decode error identifies itself, via errors.Is, as exactly one of: buffer overflow (a structure needs more bytes than it was given), buffer underflow (bytes were left over in a structure), invalid CRC, or unsupported encoding. Whatever was read completely before the failure (header fields, command, preceding and, for a bad descriptor, all following descriptors) is available in the returned section with the values a successful decode would give.",
 ["inputs"],"every truncation point of every signal, every over- and under-long command and descriptor, every non-base64/non-hex text",
 "The tests have a handful of failing signals, mostly checked for the error only.",
 [P+"scte35.go"]+ALLCMD+ALLDESC,
 [("readerError after each structure",P+"scte35.go"),("fields are assigned while reading","Decode in "+P+"splice_info_section.go")],observe=["Decode error and partial section"]))
L.append(prop("C11","The descriptor loop skips what it does not know and loses nothing",
 "Descriptors of any tag and identifier, in any number and order, are delivered in order, each delimited by its own length: a known tag under the CUEI identifier as its own kind, everything else as a private descriptor with tag, identifier and bytes intact, re-encoding to the same bytes. A malformed descriptor is reported but does not disturb the descriptors after it.",
 ["inputs"],"every sequence of descriptors: all 256 tags, CUEI and other identifiers, every payload length, malformed ones at every position",
 "The tests contain one private descriptor and a few descriptor lists.",
 [P+"splice_descriptor.go",P+"private_descriptor.go"],
 [("peek tag/length/identifier then hand over exactly length+2 bytes","decodeSpliceDescriptors in "+P+"splice_descriptor.go")],observe=["SpliceDescriptors after Decode","Encode"]))
L.append(prop("C12","Legacy signals without a command length decode like modern ones",
 "A signal whose splice_command_length is the legacy value 0xFFF decodes to the same section as the same signal with the true length, for every command whose length follows from its own syntax. Its re-encoding carries the true length.",
 ["inputs"],"every command form (null, schedule, insert, time signal, bandwidth reservation; all flags) with any descriptors, in legacy form",
 "The tests have two or three legacy signals, with two command types.",
 [P+"splice_info_section.go"]+ALLCMD,
 [("decode from all remaining bytes, then skip the command's computed length","Decode in "+P+"splice_info_section.go")],observe=["Decode"]))
L.append(prop("C13","Operations have no hidden effects: no mutation, aliasing or carry-over",
 "Encoding and rendering never change the section, are deterministic in any order and repetition, and return values later operations do not change; decoding does not modify the input nor keep referring to it. Decoding or successfully unmarshalling into a section used before gives the same result as into a fresh one.",
 ["histories","inputs"],"every history of decode, unmarshal, render and encode operations over one or several sections and buffers, including failed operations and buffers overwritten afterwards",
 "Each test uses a fresh section and buffer once.",
 ALLCMD+ALLDESC,
 [("value reads only in render/encode paths","Type, Tag, valueBytes"),("Decode/Unmarshal assign every field",P+"splice_info_section.go")],
 state=[dict(name="alignmentStuffing, SpliceDescriptors, PreRollMilliSeconds",meaning="section state that must not survive into the next decode",where=P+"splice_info_section.go"),dict(name="JSONType",meaning="discriminator that used to be written by readers",where="every command/descriptor")],observe=["deep snapshot of the section before/after each operation"]))
L.append(prop("C14","Concurrent use is race-free and gives the sequential results",
 "Any number of goroutines may decode, encode and render independent sections, and may read (encode, render in any format, measure duration) one shared section, without data races. Every result equals the one obtained sequentially.",
 ["schedules"],"every interleaving of operations on independent sections and of read-only operations on a shared one",
 "All tests are sequential and are not run with the race detector.",
 ALLCMD+ALLDESC+[P+"crc_32.go",P+"table.go"],
 [("no package-level mutable state; readers do not write","whole package")],observe=["race detector reports","results per goroutine"]))
L.append(prop("C15","Time and duration conversions are exact",
 "Converting any tick count that a signal can carry to a duration truncates to the nanosecond, never off by one, is monotonic, and converting back gives the same tick count; any non-negative duration converts to the least tick count not shorter than it. GPS seconds and UTC time convert exactly both ways for every 32-bit value, a part of a second not counting, and the section's duration is its break duration if it is a splice insert with one and otherwise the sum of its segmentation durations.",
 ["inputs"],"every 33-bit and 40-bit tick count, every duration up to the longest one, every 32-bit GPS second, every section",
 "The tests check a handful of round values.",
 [P+"scte35.go",P+"splice_info_section.go"],
 [("tick/duration arithmetic","TicksToDuration, DurationToTicks in "+P+"scte35.go"),("GPS epoch arithmetic","NewUTCSpliceTime/GPSSeconds in "+P+"scte35.go"),("Duration",P+"splice_info_section.go")],observe=["returned values"]))
L.append(prop("C16","The table shows every field with its true value",
 "For every section the table lists each field that is present, exactly once, in the standard's order, with its actual value and human-readable name, and with the section, command and descriptor lengths of its encoding; it contains no formatting artefacts, its opening and closing braces balance, and every row starts with the given prefix and nests with the given indent.",
 ["inputs"],"every section, prefix and indent",
 "The tests compare the table for a few signals; fields that occur only in other commands or with other segmentation types are never printed.",
 [P+"table.go"]+ALLCMD+ALLDESC,
 [("writeTo methods","every command/descriptor file"),("value formatting","valueString in "+P+"table.go")],observe=["Table output"]))
L.append(prop("C17","Segmentation UPIDs map faithfully between bytes and text",
 "For every UPID type and every byte string that is well formed for it, the text form is the one for its type (EIDR canonical DOI form, ISAN and MPU base64, MPU format identifier split off, TI decimal, all others Latin-1 text), it maps back to exactly those bytes, and several UPIDs are carried in order inside one MID. A UPID whose format is stated as hex or base-64 has the bytes its value denotes in it. The ASCII form has one character per byte with every non-printable byte shown as a dot.",
 ["inputs"],"all 256 types times every value length and content, including every byte value at every position and lists of UPIDs",
 "The tests cover a few types with one value each.",
 [P+"segmentation_upid.go",P+"segmentation_descriptor.go"],
 [("constructor and valueBytes kept in step by hand","NewSegmentationUPID/valueBytes in "+P+"segmentation_upid.go")],observe=["NewSegmentationUPID, SegmentationUPIDs after Decode, Encode, ASCIIValue"]))
L.append(prop("C18","The command line tool says exactly what the library says",
 "For every signal the decode command prints the library's table, JSON or XML for it (hex when prefixed 0x, base64 otherwise) followed, on stderr, by the error if there is one; for every JSON or XML document, as argument or on standard input and of any size and line structure, the encode command prints the library's base64 and hex for it, or an error and no output. It never crashes.",
 ["inputs","configurations"],"every signal, document, output format and way of passing input",
 "The command line tool has no tests at all.",
 ["main.go","cmd/scte35.go","cmd/decode.go","cmd/encode.go"],
 [("thin wrappers around the library","cmd/decode.go, cmd/encode.go")],observe=["stdout, stderr, exit status of the built binary"]))
L.append(prop("C19","Encoding refuses what the binary format cannot hold",
 "If a section does not fit the binary format (no command; a list, text, payload, descriptor, command or section longer than its length or count field can express; a language code that is not three bytes; half a sub-segment pair), encoding returns an error and the base64 and hex forms are empty; it never emits, without error, bytes that decode to something else. A numeric value too wide for its field never alters any other field.",
 ["inputs"],"every section built through the API or read from JSON/XML, including counts and lengths just below, at and beyond each limit",
 "No test encodes anything too large.",
 ALLCMD+ALLDESC,
 [("size checks in encode","encode in every command/descriptor file, Encode in "+P+"splice_info_section.go")],observe=["Encode result and error"]))
L.append(prop("C20","Decoding and rendering take memory and work in proportion to the input",
 "The memory allocated and the work done by decoding any input and by re-encoding or rendering its result grow at most linearly with the input's length, whatever counts and lengths the input claims. Nothing is retained once the results are dropped, and no goroutine is left behind.",
 ["inputs","histories"],"every byte string, in particular short ones that claim the largest counts and long ones that fill them; long runs of operations",
 "No test measures allocation, work or retention.",
 ALLCMD+ALLDESC,
 [("8-bit counts, clamped slices","decode methods"),("no caches or background work","whole package")],observe=["runtime allocation metrics per operation, live heap and goroutine count after long runs"]))
L.append(prop("C21","Flags, names and derived accessors agree with the section",
 "Every derived accessor (presence flags, encrypted flag, UPID length, identifier text, SAP, segmentation-type, UPID-type and EIDR names, command type and descriptor tag) reports exactly what the section's fields imply and what its encoding carries, for every value including unassigned ones. Constructors build exactly the requested kind for every type or tag value.",
 ["inputs"],"all values of every coded field and all presence combinations, however the section was obtained",
 "The tests check few names and flags.",
 [P+"segmentation_descriptor.go",P+"segmentation_upid.go",P+"splice_insert.go",P+"splice_schedule.go",P+"time_signal.go",P+"splice_info_section.go",P+"splice_command.go",P+"splice_descriptor.go"],
 [("accessor methods and switch tables","Name, SAPTypeName, ...Flag, NewSpliceCommand, NewSpliceDescriptor")],observe=["accessor results"]))
L.append(prop("C22","Sections and their parts work alone, inside other values and in streams",
 "A section gives the same JSON and XML whether it is marshalled by itself, by pointer or by value, in a struct, list, map or interface of the caller, or into a stream, and leaves its neighbours untouched; reading it from there, through any reader and into a fresh or a used value, gives the equal section, ends exactly after it and leaves everything around it to the caller. Every command and descriptor, by itself, by pointer or by value, has the document it has in its section, and it, like every nested value, Bytes and time, can be read back alone; Bytes are hexadecimal digits, read in any case and refused when malformed.",
 ["inputs"],"every section and every part of one, next to any other content, in documents of this library and of other producers, delivered in pieces of any size",
 "The tests marshal and unmarshal single sections only; no test puts a section into another value or reads two from one stream.",
 ALLCMD+ALLDESC+[P+"scte35.go"],
 [("custom (un)marshallers called by the json and xml packages","MarshalJSON, UnmarshalJSON, UnmarshalXML, MarshalText, UnmarshalText"),("element consumption","UnmarshalXML in "+P+"splice_info_section.go, "+P+"splice_descriptor.go, "+P+"segmentation_upid.go"),("namespaces","XMLName tags")],
 observe=["json/xml Marshal, Unmarshal, Encoder, Decoder"]))
L.append(prop("C23","A document stating what a section cannot hold is refused and changes nothing",
 "A JSON or XML document in which any member or attribute, at any depth, states a value its member cannot have (negative, fractional or too large for its type, of another type or shape, malformed hexadecimal digits or times), or which ends early, is refused with an error, also as one of several and for a command or descriptor by itself. The section it was read into stays as it was.",
 ["inputs"],"every place of every document, every kind of impossible value, every truncation",
 "Hardly any test reads an ill-formed document; there are about a hundred places for a wrong value, handled by hand-written code for commands, descriptors, UPIDs and the section.",
 ALLCMD+ALLDESC+[P+"scte35.go"],
 [("errors passed on by the custom unmarshallers","UnmarshalJSON/UnmarshalXML in "+P+"splice_info_section.go, "+P+"splice_descriptor.go, "+P+"segmentation_upid.go, Bytes.UnmarshalText"),("target assigned last","UnmarshalJSON/UnmarshalXML in "+P+"splice_info_section.go")],
 observe=["error of json.Unmarshal/xml.Unmarshal","exported fields of the target"]))
L.append(prop("C24","A result depends on its input alone, and nothing else is touched",
 "The same operation on the same input gives the same result in every process and at every time: environment variables, working directory, time zone, processors, clock and everything handled before, however much and in whatever order, do not show. The library writes nothing but diagnostics, these only to Logger and none about a sound signal or document, and leaves the files, streams, environment and settings of the process alone.",
 ["inputs","histories","configurations"],"every input, every environment and every history of a process",
 "Tests run once, in one process with one environment, one clock and a fixed order, and never look at what is logged or printed.",
 ALLCMD+ALLDESC+[P+"scte35.go",P+"table.go"],
 [("pure functions of their receiver","whole package"),("diagnostics only through Logger","Logger.Printf in "+P+"crc_32.go, "+P+"segmentation_upid.go, "+P+"segmentation_descriptor.go, "+P+"splice_info_section.go"),("times kept in UTC","UTCSpliceTime in "+P+"scte35.go")],
 observe=["results of all operations in several processes","stdout, stderr, Logger output","process-wide state before and after"]))
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in L:
        assert len(p["title"])<=80,p["title"]
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(L))
