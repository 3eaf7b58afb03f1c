#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the file stays valid JSONL)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or [], hook_needed=hook)))
W="pkg/stream/writer/writer.go"; WA="pkg/stream/writer/writer_amd64.go"; WB="pkg/stream/writer/writer_base.go"
R="pkg/stream/reader/reader.go"; RA="pkg/stream/reader/reader_amd64.go"; RB="pkg/stream/reader/reader_base.go"
E="pkg/encode/encode.go"; EA="pkg/encode/encode_amd64.go"; ES="pkg/encode/encode_amd64.s"; EB="pkg/encode/encode_base.go"
D="pkg/decode/decode.go"; DA="pkg/decode/decode_amd64.go"; DS="pkg/decode/decode_amd64.s"; DB="pkg/decode/decode_base.go"
T="pkg/shared/tables.go"; G="pkg/shared/gen.go"

prop("C01","Whole-slice encoding emits exactly the canonical Stream VByte stream",
 "For every slice of 32-bit unsigned integers, of any length and with any values, the whole-slice encoders (general, portable and accelerated) return exactly the canonical Stream VByte stream: ceil(n/4) control bytes holding the 2-bit zero-based byte lengths of four consecutive integers, lowest bits first, with zero codes for the integers missing from the last group, followed by every integer in order in its minimal number (at least one) of little-endian bytes. The returned slice is exactly that long: no byte is missing, none is appended.",
 ["inputs"],"all n >= 0 and all values of every element, for each of the three entry points",
 "The tests draw six random lengths per run and only check that a decoder undoes the encoder; a boundary length (multiples of 4, 8, 16, 32 and their neighbours), a rare mix of byte lengths, or a deviation that the decoder mirrors is not sampled, and the format itself is never compared with its definition for a whole stream.",
 [W,WA,E,EA,ES,T,G],
 [("WriteAllScalar: blocks of 16, then 4, then the partial group",W),("WriteAllFast: blocks of 32, then 8, then scalar groups",WA),
  ("WriteAll: selection of the implementation",W),("Put4uint32Scalar / PutUint32Scalar / encodeOne",E),("Put8uint32FastAsm",ES),("ControlByteToSize, ControlByteToSizeTwo",G)],
 [("ctrlPos, dataPos, encoded","progress of the two output regions and of the input",WA)],
 ["WriteAll","WriteAllScalar","WriteAllFast"])
prop("C02","Differential whole-slice encoding is the encoding of successive differences",
 "For every slice of 32-bit unsigned integers, sorted or not, and every base value, the differential whole-slice encoders (general, portable and accelerated) return exactly the canonical Stream VByte stream of the sequence of differences modulo 2^32 between each integer and its predecessor, the first one taken against the base.",
 ["inputs"],"all n >= 0, all element values (including decreasing ones, where the difference wraps), all base values",
 "The tests use sorted random input and base 0 only, at six random lengths; wrap-around differences, non-zero bases and hand-over of the running value between block sizes are sampled at best.",
 [W,WA,E,EA,ES,T,G],
 [("WriteAllDeltaScalar",W),("WriteAllDeltaFast",WA),("WriteAllDelta",W),("Put4uint32DeltaScalar / PutUint32DeltaScalar",E),("Put8uint32DeltaFastAsm",ES)],
 [("prev","last integer of the block before",WA)],["WriteAllDelta","WriteAllDeltaScalar","WriteAllDeltaFast"])
prop("C03","Whole-stream decoding yields exactly the integers the stream denotes",
 "For every count and every byte stream that is well formed for it (ceil(count/4) control bytes, then at least the data bytes their codes call for), the whole-stream decoders (general, portable and accelerated) store in the first count output elements exactly the integers the stream denotes, each being its little-endian bytes zero-extended. This holds for any codes, including non-minimal lengths, for any value of the unused codes of the last control byte, and whatever bytes follow the stream in the slice.",
 ["inputs"],"all counts >= 0 and all well-formed streams, not only those this library's encoders produce",
 "The tests decode only what the encoder under test produced, at six random lengths; streams with non-minimal lengths, set bits in unused codes or trailing bytes never occur.",
 [R,RA,D,DA,DS,T,G],
 [("ReadAllScalar",R),("ReadAllFast",RA),("ReadAll",R),("Get4uint32Scalar / GetUint32Scalar / decodeOne",D),("Get8uint32FastAsm",DS)],
 [("ctrlPos, dataPos, decoded","progress through control bytes, data bytes and output",RA)],["ReadAll","ReadAllScalar","ReadAllFast"])
prop("C04","Differential whole-stream decoding yields the running sums",
 "For every count, every byte stream well formed for it and every base value, the differential whole-stream decoders (general, portable and accelerated) store in output element i the sum modulo 2^32 of the base and of the integers 0 to i that the stream denotes.",
 ["inputs"],"all counts >= 0, all well-formed streams, all base values, including sums that wrap",
 "The tests use base 0 and sorted input whose sums never wrap, at six random lengths.",
 [R,RA,D,DA,DS,T,G],
 [("ReadAllDeltaScalar",R),("ReadAllDeltaFast",RA),("ReadAllDelta",R),("Get4uint32DeltaScalar / GetUint32DeltaScalar",D),("Get8uint32DeltaFastAsm",DS)],
 [("prev","last reconstructed integer of the block before",RA)],["ReadAllDelta","ReadAllDeltaScalar","ReadAllDeltaFast"])
prop("C05","Every decoder inverts every encoder of its kind",
 "Decoding the result of any whole-slice encoder with any whole-stream decoder of the same kind (plain with plain; differential with differential and the same base), in any combination of general, portable and accelerated implementation, gives back the original integers in order, for every input slice and every base.",
 ["inputs","configurations"],"all slices, all bases, all nine encoder/decoder pairings of each kind",
 "The tests round-trip random slices at six random lengths and pair only some implementations; the claim is for all inputs and all pairings.",
 [W,WA,R,RA,E,ES,D,DS,T],
 [("encoders",W+", "+WA),("decoders",R+", "+RA)],None,["WriteAll*","ReadAll*"])
prop("C06","Block encoders emit the format for every block of 4 or 8 integers",
 "For every block of four or eight integers (and, for the differential forms, every base), each block encoder — general, portable or accelerated — returns the control word made of the minimal 2-bit length codes, lowest bits first, and stores the integers' (or differences') minimal little-endian bytes contiguously from the start of the output.",
 ["inputs"],"all values of all integers of the block and of the base; output with 16 bytes of room from the start of each group of four for the accelerated and general forms, room for the encoded bytes for the portable ones",
 "The tests encode one fixed block and one random block per run; there are 2^256 blocks and 65536 control words.",
 [E,EA,ES,T,G],[("Put4uint32Scalar, Put4uint32DeltaScalar, Put8uint32Scalar, Put8uint32DeltaScalar",E),("Put8uint32, Put8uint32Delta",E),("Put8uint32FastAsm, Put8uint32DeltaFastAsm",ES)],None,["Put4uint32*","Put8uint32*"])
prop("C07","Block decoders reconstruct every block of 4 or 8 integers",
 "For every control word and every data bytes (and, for the differential forms, every base), each block decoder — general, portable or accelerated — stores exactly the four or eight integers (or their running sums modulo 2^32 from the base) that the control word and the data denote, for minimal and non-minimal lengths alike.",
 ["inputs"],"all 256 or 65536 control words, all data bytes, all bases; at least 16 readable bytes from the start of each group of four for the accelerated and general forms",
 "The tests decode one random block per run, produced by the encoder; there are 65536 control words and 2^256 data blocks.",
 [D,DA,DS,T,G],[("Get4uint32Scalar, Get4uint32DeltaScalar, Get8uint32Scalar, Get8uint32DeltaScalar",D),("Get8uint32, Get8uint32Delta",D),("Get8uint32FastAsm, Get8uint32DeltaFastAsm",DS)],None,["Get4uint32*","Get8uint32*"])
prop("C08","Partial-block functions handle exactly the first min(count,4) integers",
 "For every count >= 0, the partial-block encoders and decoders (plain and differential) process exactly the first min(count,4) integers: the encoder returns a control byte whose codes for the integers not encoded are zero and stores only the encoded bytes; the decoder stores only those integers (or running sums) and returns the number of data bytes they occupy. With a count of zero nothing is read or stored and the result is zero.",
 ["inputs"],"all counts >= 0, all integer values, all control bytes including set codes beyond count, all bases",
 "The tests draw one random count in 1..4 per run, never 0 or more than 4, and never check the returned size or what lies beyond the stored bytes.",
 [E,D],[("PutUint32Scalar, PutUint32DeltaScalar",E),("GetUint32Scalar, GetUint32DeltaScalar",D)],None,["PutUint32Scalar","PutUint32DeltaScalar","GetUint32Scalar","GetUint32DeltaScalar"])
prop("C09","Decoding stays inside the stream and the first count outputs",
 "While decoding any well-formed stream, every whole-stream decoder reads no byte outside the given stream slice, writes no output element at or beyond count, leaves the stream unchanged, and returns normally (no panic, no endless loop) — also when the stream slice ends exactly at its last data byte. The block decoders read at most 16 bytes from the start of each group and write only the block's output elements.",
 ["inputs"],"all counts, all well-formed streams, including exactly sized ones; all control words for the block decoders",
 "Go's bounds checks do not cover the assembly; a read past the end normally hits other heap memory and goes unnoticed, and the tests place no guard page and no sentinel. It faults only when the stream ends at a page boundary.",
 [R,RA,D,DS],[("lowest32 and the loop bounds that stop the 16-byte loads early",RA),("loads and stores",DS)],None,["ReadAll*","ReadAllDelta*","Get8uint32*"])
prop("C10","Encoding stays inside its buffers and returns fresh memory",
 "For every input slice, every whole-slice encoder reads only the input, writes only memory it allocated itself, leaves the input unchanged, returns normally (no panic, no endless loop), and returns a slice that shares no memory with its input or with any earlier result. The block encoders read only the block and write at most 16 bytes from the start of each group of four (the portable forms only the encoded bytes).",
 ["inputs","histories"],"all input lengths and values, all calls before",
 "The assembly stores 16 bytes per group without bounds checks; a store past the buffer corrupts neighbouring heap objects silently, and the tests use no guard page or sentinel.",
 [W,WA,E,ES],[("size of the allocated stream and loop bounds",WA),("loads and stores",ES)],None,["WriteAll*","WriteAllDelta*","Put8uint32*"])
prop("C11","Lookup tables and size helpers agree with the control-byte definition",
 "For every control byte, the exported length tables and size helpers give the byte lengths its four 2-bit codes denote and their sum (for a 16-bit control word, the sum over both bytes); the exported encoding shuffle gathers exactly the significant bytes of four integers in order, and the exported decoding shuffle spreads them back, zero-filling the rest.",
 ["inputs"],"all 256 control bytes, all 65536 control words, all 16 positions of each shuffle",
 "No test looks at the tables; they are exercised only through whatever control bytes random data happens to produce.",
 [T,G],[("PerNumLenTable, PerControlLenTable, EncodeShuffleTable, DecodeShuffleTable",T),("ControlByteToSize, ControlByteToSizeTwo",G)],None,["shared.*Table","ControlByteToSize","ControlByteToSizeTwo"])
prop("C12","Accelerated code runs only on CPUs that report what it needs",
 "On x86-64, for every combination of CPU features reported at start-up, the general entry points (whole-slice and block, plain and differential) execute accelerated instructions only if the CPU and operating system report every instruction-set extension those instructions need, report fast mode only then, and otherwise use the portable implementation; the results are those of the format either way.",
 ["configurations"],"all combinations of reported CPU features",
 "The test machine has one fixed set of features; the other branch of every selection is never executed by the suite.",
 [E,EA,ES,D,DA,DS,R,W],[("GetMode",EA+", "+DA),("init: choice of putImpl/putDeltaImpl/getImpl/getDeltaImpl",E+", "+D),("WriteAll, WriteAllDelta, ReadAll, ReadAllDelta",W+", "+R),("instructions used",ES+", "+DS)],
 [("putImpl, putDeltaImpl, getImpl, getDeltaImpl","implementation chosen at init",E+", "+D)],["GetMode","Put8uint32","Get8uint32","WriteAll","ReadAll"])
prop("C13","On other architectures the library builds and keeps its guarantees",
 "For every supported architecture other than x86-64, including 32-bit ones, all library packages compile, the mode functions report normal mode, and the general entry points (whole-slice and block, plain and differential) produce and accept exactly the Stream VByte format through the portable implementation, never reaching the stand-ins that panic.",
 ["configurations","inputs"],"all GOARCH values other than amd64; all inputs that fit in memory (on 32-bit targets: slices of up to 2^28 integers)",
 "The tests run on x86-64 only, where the files for other architectures are not even compiled.",
 [EB,DB,RB,WB,E,D,R,W],[("GetMode and stand-ins of the accelerated functions",EB+", "+DB+", "+RB+", "+WB)],None,["go build with GOARCH set","WriteAll*","ReadAll*","Put8uint32*","Get8uint32*"])
prop("C14","The code generators produce code and tables with the same guarantees",
 "Running the assembly and table generators of the repository always succeeds and yields assembly for the accelerated block encoders and decoders and lookup tables that satisfy the same functional, memory and instruction-set guarantees as the committed ones, so regenerating never changes what the library does.",
 ["programs","inputs"],"the generators as they stand; for what they emit: all inputs of the emitted functions and all table entries",
 "The test suite only compiles the generators and never runs them; the guarantees of what they emit are for all inputs.",
 ["pkg/encode/main/asm.go","pkg/decode/main/asm.go","pkg/shared/asm.go","pkg/shared/main/gentables.go"],
 [("coreAlgorithm, regular, differential, undoDelta","pkg/encode/main/asm.go, pkg/decode/main/asm.go"),("CalculateShuffleAddrFromCtrl, LenValueAddr, Load8","pkg/shared/asm.go"),("gen*Table, sizes","pkg/shared/main/gentables.go")],None,["go generate ./pkg/..."])
prop("C15","The varint reference codec round-trips",
 "For every list of 32-bit unsigned integers and output buffers of sufficient size, the varint encoders (plain, and differential with any base) return the number of bytes they stored, storing for each integer (or difference modulo 2^32) its base-128 little-endian varint, and the matching decoder applied to exactly those bytes returns that same number and restores the list.",
 ["inputs"],"all lists, all values, all bases",
 "The tests use one random list of 8 per run; the differential one with sorted values and base 0 only.",
 ["pkg/util/varint.go"],[("PutVarint, GetVarint, PutDeltaVarint, GetDeltaVarint","pkg/util/varint.go")],None,["PutVarint","GetVarint","PutDeltaVarint","GetDeltaVarint"])
prop("C16","Data helpers: differences, random lengths, generation and sorting",
 "For every input, the difference helper stores the first integer and then each integer minus its predecessor modulo 2^32 (input and output distinct); the random-number helper first picks one of the byte lengths 1 to 4 and, whatever the random source returns, yields a number whose minimal encoding has exactly that length, all four lengths being possible; the list generator returns exactly the requested number of integers; the sort helper orders by unsigned value.",
 ["inputs","histories"],"all inputs; all values of the underlying random source",
 "The helpers are used by tests but never tested; range end points are hit with probability 2^-8 to 2^-24.",
 ["pkg/util/util.go","pkg/util/rand.go"],[("Delta, GenUint32, SortUint32","pkg/util/util.go"),("RandUint32, randUint32Range, generators","pkg/util/rand.go")],None,["util.Delta","util.RandUint32","util.GenUint32","util.SortUint32"])
prop("C17","Calls share no mutable state",
 "Every encoding and decoding function (whole-slice, block, partial-block and size helpers) changes no memory other than the output it is given or the result it allocates: package variables and lookup tables are never written after package initialisation. Hence the result depends on the arguments only, and calls on distinct buffers can run concurrently and in any order without affecting one another.",
 ["schedules","histories"],"all interleavings of calls on distinct buffers, all sequences of earlier calls",
 "The tests call the functions one at a time on fresh buffers; a cached buffer or a scribbled table entry shows only under particular sequences or interleavings.",
 [W,WA,R,RA,E,ES,D,DS,G],[("functions work on parameters, locals and fresh allocations only",W+", "+WA+", "+R+", "+RA+", "+E+", "+D),("package variables set only in init",E+", "+D)],
 [("putImpl, getImpl and tables","constant after initialisation",E+", "+D+", "+T)],["all exported functions"])
prop("C18","Portable and accelerated implementations are interchangeable",
 "For every input, the accelerated and the portable implementation of the same operation give identical results: byte-for-byte equal streams from the whole-slice encoders, equal control words and data bytes from the block encoders, and equal integers from the decoders, plain and differential. So the result of a general entry point does not depend on the machine it runs on.",
 ["inputs","configurations"],"all inputs in the domain of both implementations",
 "The tests compare the two only for one random block of eight per run, and never for whole streams.",
 [W,WA,R,RA,E,EA,ES,D,DA,DS,T],[("pairs X / XFast / XScalar",W+", "+WA+", "+R+", "+RA+", "+E+", "+D)],None,["*Fast","*Scalar"])
prop("C19","Differential coding chains across batches",
 "For every sequence split into consecutive batches, differential coding batch by batch — passing the last integer of each batch as the base of the next, with the block functions or with the whole-slice functions — denotes the same differences as coding it in one go, and decoding the batches in order with the last decoded integer handed on restores the whole sequence.",
 ["inputs","histories"],"all sequences, all splits into batches, all initial bases",
 "No test uses a non-zero base or more than one batch through the block functions.",
 [E,D,W,R],[("prev parameter of every differential function",E+", "+D+", "+W+", "+R)],None,["Put8uint32Delta*","Get8uint32Delta*","WriteAllDelta*","ReadAllDelta*"])
prop("C20","Refreshing the benchmark section keeps the rest of the README",
 "For every README text that contains the benchmark section and every benchmark output on standard input, the refresh tool replaces exactly the text between the opening and the closing fence of that section and keeps every byte before and after it.",
 ["inputs"],"all README texts with the section, all benchmark outputs",
 "The tool has no test at all.",
 ["tools/parse_and_write_bench.go"],[("main: location of the two sentinels and reassembly","tools/parse_and_write_bench.go")],None,["tools/parse_and_write_bench.go"])
prop("C21","The refreshed benchmark section reports the benchmark output faithfully",
 "For every README text that contains the benchmark section and every benchmark output on standard input, in every run in which no system call fails and no line is too long to be read, the refreshed section holds, between its fences, exactly the lines that start with goos, goarch, pkg, cpu or Benchmark, all of them, in the order of the input and unchanged, each ended by a newline, except that the word Benchmark is taken off the front of a line, a line of two dashes follows each cpu line, and an empty line precedes each goos line that comes after a Benchmark line; if there is no such line the section is empty or one empty line.",
 ["inputs"],"all benchmark outputs (any number of packages and lines in any order), all README texts with the section",
 "The tool has no test at all.",
 ["tools/parse_and_write_bench.go"],[("main: reading standard input, selection of lines, text of the section; anyPrefix","tools/parse_and_write_bench.go")],None,["tools/parse_and_write_bench.go"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
