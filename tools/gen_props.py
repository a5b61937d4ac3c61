#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
S = "source/IOHaptics/src/IOStream.cpp"
B = "source/IOHaptics/src/IOBinary.cpp"
BB = "source/IOHaptics/src/IOBinaryBands.cpp"
BP = "source/IOHaptics/include/IOBinaryPrimitives.h"
J = "source/IOHaptics/src/IOJson.cpp"
JP = "source/IOHaptics/src/IOJsonPrimitives.cpp"
O = "source/Tools/src/OHMData.cpp"
H = "source/Types/src/Haptics.cpp"
PE = "source/Types/src/Perception.cpp"
CH = "source/Types/src/Channel.cpp"
D = "source/Decoder/src/main.cpp"
A = "source/Encoder/src/AhapEncoder.cpp"
I = "source/Encoder/src/IvsEncoder.cpp"
props = []
def P(id, title, statement, over, text, why, files, mech, observe=()):
    props.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe))))

P("S01", "A complete stream delivers the whole experience",
  "A receiver that gets every unit of an encoded stream in order ends with the experience that was encoded: same metadata, avatars, devices, libraries, perceptions, channels and bands, and the same effects with the same positions, keyframes and wavelet data, up to the format's field quantisation; components without any effect may be left out. This holds for any packet duration and timescale, for any assignment of channel numbers inside different perceptions, for any order of the data packets of different bands inside one unit, and however many receivers in the same process interleave their reading. No effect or keyframe is lost, duplicated or attributed to another band.",
  ["inputs", "schedules", "configurations"],
  "Every experience whose values fit the fields of the stream format, every packet duration and timescale, every cross-band packet order within a unit, every interleaving of several receivers.",
  "IOStream.test.cpp streams one fixed experience with one packet duration (128) to one receiver.",
  [S, "source/IOHaptics/src/IOBinaryBands.cpp", BP, H, PE, CH],
  [("splitting of bands into timed packets", S), ("receiver merging continued effects", S)],
  ["public unit reader after each unit"])
P("S02", "A lost unit costs only what it carried",
  "When the network drops any set of units after a receiver has its first initialisation unit, the receiver still accepts every unit that arrives, and what it ends with is exactly the effects and keyframes carried by the units that arrived: nothing arriving is lost, nothing is invented, nothing is attributed to another band or effect. Effects received while the receiver's clock is in step with the sender keep their exact positions, and after a loss the clock is in step again no later than the next initialisation unit.",
  ["schedules", "fault_sequences", "inputs"],
  "Every experience with any aligned synchronisation points, every subset and burst pattern of lost units after the first initialisation unit.",
  "No test drops a unit; the number of loss patterns is exponential in the stream length.",
  [S], [("initialisation timing resets the clock", S), ("signed effect offsets relative to unit time", S)])
P("S03", "Late joiners and restarted receivers recover at the next sync",
  "A receiver that joins at any unit, or that crashes and restarts with empty state at any unit, rejects data units that arrive before an initialisation unit without harm, and from the first initialisation unit it gets onwards has the full metadata and exactly the effects and keyframes carried by the units from there on, at their exact positions.",
  ["schedules", "crash_points", "inputs"],
  "Every experience with synchronisation points, every join point and every sequence of receiver crashes and restarts.",
  "Tests always read from the first unit with one receiver that never restarts.",
  [S], [("re-sent initialisation units", S), ("clock and timescale carried by initialisation timing", S)])
P("S04", "Receiving initialisation again changes nothing",
  "Receiving an initialisation unit again, by retransmission or at a synchronisation point, leaves all metadata and all content received so far unchanged: no component or synchronisation point is duplicated, lost, renumbered or has a field altered. A receiver that saw initialisation any number of times ends with the same experience as one that saw it once.",
  ["histories", "schedules", "inputs"],
  "Every experience, every number and placement of repeated initialisation units, before, between and after data.",
  "No test sends an initialisation unit twice to one receiver.",
  [S, H, PE, CH], [("replace-metadata path of the reader", S), ("metadata replacement in the data model", H)])
P("S05", "Sync-flagged units are true random access points",
  "Every data unit flagged as a synchronisation unit contains only effects from their very first keyframe on; every unit that continues an effect begun earlier is flagged as dependent, and a unit all of whose effects begin in it is flagged as a synchronisation unit. A silent unit bears the flag of the unit that follows the silence. The flag of each data packet likewise tells whether any of its effects continues one begun in an earlier unit. A receiver that is waiting for synchronisation ignores dependent packets without failing, keeps its clock running, and resumes at the first independent packet with exact positions.",
  ["inputs", "schedules", "configurations"],
  "Every experience, packet duration and point at which a receiver starts waiting for synchronisation.",
  "No test inspects the flags of units with several overlapping effects or sets the waiting state.",
  [S], [("independent/dependent packet flag", S), ("unit sync flag derived from packets", S)])
P("S06", "Stream units are timely and both clocks agree",
  "After a receiver has read any prefix of a stream, its clock equals the sender's time for that prefix, and every keyframe, reference and wavelet block scheduled before that clock value has already been delivered; no unit carries content scheduled at or after its own end. Every synchronisation point that falls on a unit boundary strictly inside the stream makes the sender repeat the initialisation unit exactly there.",
  ["inputs", "histories", "configurations"],
  "Every experience, packet duration, timescale, list of synchronisation points and stream prefix.",
  "Tests compare only the end state of one stream, never the intermediate clock.",
  [S], [("windowing of keyframes by unit time", S), ("silent units covering gaps", S), ("synchronisation bookkeeping", S)])
P("S07", "Damaged or hostile units are rejected safely",
  "Whatever bits a unit contains (truncated, extended, bit-flipped, spliced, or with forged lengths and counts), reading it ends in bounded time and memory, without any invalid memory access, undefined arithmetic or escaping exception, and reports failure when the unit is shorter than it declares or cannot be interpreted. The receiver stays usable: effects and keyframes received before the damaged unit are preserved, and after a unit that was merely cut short, reading goes on with the following units as if it had been lost.",
  ["inputs", "fault_sequences"],
  "Every unit damaged in any way at any point of any stream, any number of damaged units.",
  "No test feeds malformed units; the space of damaged units is unbounded.",
  [S, BP, BB], [("bit readers", BP), ("unit and packet loops", S)])
P("S08", "A changed initialisation takes effect",
  "When the sender continues a stream under changed metadata, by sending at a synchronisation point an initialisation unit that describes the same components differently or describes additional ones, every receiver that gets the unit then holds exactly the metadata of that initialisation: every member of the experience, its avatars, perceptions, reference devices, effect library, channels and bands has its new value, a member the new initialisation leaves out is unset, and nothing is duplicated. All effects received before are kept, data received afterwards is placed as before, and a receiver that was there from the beginning ends with the same description as one that joins at that point.",
  ["histories", "schedules", "fault_sequences", "inputs"],
  "Every experience, every change of metadata values, every number of changes at any synchronisation points, with losses in between.",
  "No test sends a second initialisation unit with other values.",
  [S, H, PE, CH], [("update path of the reader for perceptions, channels and bands", S), ("metadata replacement in the data model", H)])
P("F01", "A save that reports success has stored the complete file",
  "Whenever saving an experience (as a stream, as a binary file, as JSON or as OHM metadata) reports success, the file then holds exactly the bytes that a fault-free save produces; a full disk, a write error or an error at close is reported as failure. A save during which nothing goes wrong reports success.",
  ["fault_sequences", "inputs"],
  "Every experience, every file format, every position and kind of write, flush or close failure.",
  "Tests write only to a healthy disk.",
  [S, B, J, O], [("stream state after writing and closing", S)])
P("F02", "A load that fails is reported as a failure",
  "Loading a missing, empty, unreadable or prematurely ending file, in any supported format, reports failure, and loading never reports success with less than the stored experience because of a read error. A failed load leaves the process usable: a later load of a healthy file succeeds with the right content.",
  ["fault_sequences", "inputs"],
  "Every experience, every format, every read error position, every truncation length that ends inside a declared element.",
  "Tests read only files they have just written completely.",
  [S, B, J, O, A, I], [("checks on the input stream", B), ("unit framing", S)])
P("F03", "A crash during save never yields a corrupt experience",
  "If the machine stops at any point while a file is being written, with any suffix of the written bytes lost, then loading what remains afterwards either fails or yields a consistent experience: for streams exactly the content of a whole-unit prefix, for binary, JSON and OHM files exactly the saved experience.",
  ["crash_points", "inputs"],
  "Every experience, every crash point between and inside writes, every lost tail.",
  "Tests never interrupt a save; crash points are as many as bytes in the file.",
  [S, B, J], [("self-delimiting units", S), ("element counts in the header", B)])
P("F04", "Stored experiences round-trip whatever the I/O granularity",
  "Saving an experience and loading it again, in each format, gives back the same experience up to the format's quantisation, whatever the sizes in which the operating system splits reads and writes and however often calls are interrupted; the bytes stored do not depend on that splitting.",
  ["inputs", "schedules"],
  "Every representable experience, every pattern of short reads, short writes and interrupted calls, every format.",
  "Tests round-trip a few fixed objects over unfragmented I/O.",
  [B, BB, BP, J, JP, S, O], [("reader/writer pairs", B), ("reader/writer pairs", J)])
P("F05", "Damaged stored files are rejected safely",
  "Whatever bytes a binary, stream or OHM file contains, loading it ends in bounded time and memory, without invalid memory access, undefined arithmetic, unbounded recursion or an escaping exception, and returns success or failure to the caller.",
  ["inputs", "fault_sequences"],
  "Every stored file of the binary, stream and OHM formats with any flipped, overwritten, removed, inserted or duplicated bytes.",
  "No test loads a damaged file.",
  [B, BB, BP, S], [("bounds in binary readers", BP), ("element counts", B)])
P("F06", "No file handle is leaked on any path",
  "After any load or save attempt in any format returns or throws, successfully or not, every file handle opened during it has been closed exactly once, so that arbitrarily many attempts under faults never exhaust handles.",
  ["fault_sequences", "histories"],
  "Every format, every open, read, write, seek and close fault at every position, every sequence of attempts.",
  "Tests do not count handles and do not inject faults.",
  [S, B, J, O, D], [("scoped streams", S)])
P("F07", "Saving again what was loaded changes nothing",
  "Whatever the first save and load of an experience rounds or leaves out, further saves and loads of the result in the same format change nothing any more, however many there are and whatever failed attempts lie between them: for the stream and binary formats every quantised value and effect id stays the same, for JSON and OHM every member of the object.",
  ["inputs", "histories", "fault_sequences"],
  "Every experience, every number of generations, failed saves and loads under disk faults between the generations.",
  "Tests save and load an object once and compare with a tolerance; a drift of one step per generation is inside it.",
  [B, BP, BB, J, S, O, D], [("writeFloatNBits / readFloatNBits", BP), ("ids given on writing", S)])
P("F08", "Experiences can be converted along any chain of formats",
  "An experience that every format can represent can be saved and loaded along any chain of the stream, binary and JSON formats: every save of what was loaded succeeds and every load of what was saved succeeds, each step keeps everything the target format holds of what the previous step delivered, and spoiled attempts in between change nothing about that.",
  ["inputs", "histories", "fault_sequences"],
  "Every experience representable in all three formats, every sequence of formats, disk faults on any attempt of any step.",
  "Tests never load an experience from one format and save it in another.",
  [B, BB, BP, J, S], [("conformance checks against what the other readers deliver", J), ("optional members", B)])
P("F09", "Documents that break the format's rules are refused",
  "Loading an HJIF (JSON) document succeeds exactly when the experience stored in it fulfils every conformance rule of the format: version, profile, level, date and time scale; unique avatar, perception, reference device, channel and library effect ids; existing avatars, reference devices and library effects; modalities, effect and band types allowed by the profile; channel and band counts; unit directions; actuator resolutions and targets; device frequency ranges, band limits, block lengths, curve types, semantic keywords and schemes. This holds wherever and however often a rule is broken and however the reads are split; a refused document leaves the process able to load conforming ones.",
  ["inputs", "histories"],
  "Every conforming experience, every rule, every place at which it can be broken, any number of broken rules, any sequence of broken and conforming documents.",
  "Tests break a few rules in fixed documents, one at a time, at the first place.",
  [J], [("semanticConformanceCheck*", J)])
P("F10", "Only the destination of a save is written",
  "Loading never creates, changes or deletes a file, whatever the file contains and whatever fails on the way; saving creates or changes the file it was given and no other, even if it fails.",
  ["fault_sequences", "histories", "inputs"],
  "Every format, any set of files beside each other, every disk fault, damage and failing allocation, every sequence of attempts.",
  "Tests look at the file they wrote only, on a healthy disk.",
  [S, B, J, O, D], [("open modes", S)])
P("E01", "A failed allocation never corrupts or leaks",
  "If any single C++ memory allocation (operator new) fails during encoding, decoding, saving or loading, the operation ends with an exception or a reported failure, without a crash, and never with success and a different result; the source experience is unchanged, all memory allocated for the attempt is released, and repeating the operation afterwards gives exactly the normal result.",
  ["fault_sequences", "inputs"],
  "Every experience, every operation, every allocation index.",
  "Tests never fail an allocation; one operation performs thousands.",
  [S, B, J, H], [("value semantics of the data model", H)])
P("E02", "Independent streams do not affect each other",
  "Independent encoders, receivers, loaders and savers running concurrently in one process, under any thread schedule, each produce exactly the bytes and experiences they produce alone.",
  ["schedules", "inputs"],
  "Every set of independent operations on distinct objects, every interleaving of their threads at allocation and I/O points.",
  "Tests are single-threaded.",
  [S, B, J, H, "source/Spiht/src/Spiht_Enc.cpp", "source/WaveletDecoder/src/WaveletDecoder.cpp"], [("absence of shared mutable state", S)])
P("E03", "Results depend only on the input",
  "Encoding, saving and loading give identical bytes and experiences whatever the previous contents of memory, the wall clock and its jumps, the time zone, the process locale, the address layout and the operations done before in the same process; nothing is read before it was written. One exception is by design: a document without a valid date is stamped with the current date when saved as JSON.",
  ["configurations", "histories", "inputs"],
  "Every experience and format, every heap fill pattern, clock value or jump, time zone, C or C++ locale and preceding history of operations.",
  "A test run has one clock, one locale and a fresh heap, and compares objects rather than bytes.",
  [S, B, J, JP, BB, "source/Spiht/src/Spiht_Enc.cpp"], [("initialised members", H), ("locale-independent number formatting", J)])
P("E04", "Encoding never changes its source",
  "Encoding or saving an experience as a stream, binary or JSON leaves the in-memory experience exactly as it was, also when the operation fails part way; encoding it again, in any format and order, gives the same bytes as the first time.",
  ["histories", "fault_sequences", "inputs"],
  "Every experience, every sequence of encode and save operations, every disk or allocation fault during them.",
  "Tests encode an object once and do not compare it with its earlier state.",
  [S, B, J], [("encoder working on its own copy", S)])
P("T01", "The decoder tool's exit status tells the truth",
  "The decoder command exits with success exactly when it has read its whole input and stored the complete output experience; on a missing, unreadable, truncated or unusable input, or when the output cannot be written completely, it exits with a failure status, whatever disk fault occurs. The tool changes no file but its outputs.",
  ["fault_sequences", "inputs"],
  "Every input kind the tool accepts, every combination of read and write faults, short reads and writes.",
  "No test runs the tool.",
  [D, S, B, J], [("status propagated from load and save", D)])
P("T02", "The encoder tool's exit status tells the truth",
  "The encoder command, given AHAP, IVS, HJIF or OHM input, exits with success exactly when it has read its whole input (for OHM, every referenced element file too) and stored the complete converted experience in the requested format; on a missing, unreadable, truncated or unusable input, or when the output cannot be written completely, it exits with a failure status, whatever disk fault occurs. The tool changes no file but its outputs.",
  ["fault_sequences", "inputs"],
  "Every input kind except WAV, both output formats, every packet duration and timescale option, every combination of read and write faults, short reads and writes.",
  "No test runs the tool.",
  ["source/Encoder/src/main.cpp", S, J, A, I, O], [("status propagated from conversion and save", "source/Encoder/src/main.cpp")])
P("T03", "The synthesizer tool's exit status tells the truth",
  "The synthesizer command exits with success exactly when it has read its whole HJIF or stream input and stored the complete rendered signal and, if asked for, the complete OHM metadata; on a missing, unreadable, truncated or unusable input, or when an output cannot be written completely, it exits with a failure status, whatever disk fault occurs. The tool changes no file but its outputs.",
  ["fault_sequences", "inputs"],
  "Every experience made of complete transient and vectorial effects, both input formats, with and without OHM output, every combination of read and write faults, short reads and writes.",
  "No test runs the tool.",
  ["source/Synthesizer/src/main.cpp", "source/Synthesizer/src/Helper.cpp", S, J, O], [("status propagated from load, rendering and save", "source/Synthesizer/src/main.cpp")])
# --- properties outside the reach of this technique
P("N01", "Wavelet compression is invertible up to quantisation",
  "Decoding a wavelet-coded block gives back the encoded signal up to the error allowed by its bit budget.",
  ["inputs"], "Every block length, signal and bit budget.", "Tests use a few fixed blocks.",
  ["source/Spiht/src/Spiht_Enc.cpp", "source/Spiht/src/Spiht_Dec.cpp", "source/FilterBank/src/Wavelet.cpp"], [("set partitioning", "source/Spiht/src/Spiht_Enc.cpp")])
P("N02", "Curve and waveform synthesis follows its keyframes",
  "A synthesised sample of a curve, transient or vectorial effect lies on the curve its keyframes define, within the band's limits.",
  ["inputs"], "Every effect, curve type and sample time.", "Tests sample a few effects.",
  ["source/Types/src/Effect.cpp", "source/Tools/src/Tools.cpp"], [("interpolation", "source/Tools/src/Tools.cpp")])
P("N03", "Refactoring into a library and linearising back are equivalent",
  "Moving repeated effects to a library and expanding them again gives the same rendered experience.",
  ["inputs"], "Every experience.", "Tests use a few fixed experiences.",
  [PE, H], [("equivalent-effect search", PE)])
P("N04", "AHAP and IVS conversion preserves events",
  "Converting an AHAP or IVS description keeps each event's time, intensity and shape.",
  ["inputs"], "Every AHAP or IVS document.", "Tests convert a few sample files.",
  [A, I], [("event extraction", A)])
P("N05", "Filter banks split a signal without loss",
  "Low- and high-pass parts of a signal add up to the signal within the filter tolerance.",
  ["inputs"], "Every signal and cut-off.", "Tests filter a few signals.",
  ["source/FilterBank/src/Filterbank.cpp"], [("band splitting", "source/FilterBank/src/Filterbank.cpp")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(props))
