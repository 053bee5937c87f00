#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording stays reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    assert len(title)<=80,(id,len(title))
    P.append(d)
PR='runtime/src/protocol.rs'; UL='runtime/src/uleb.rs'; TY='runtime/src/types.rs'; MA='runtime/src/macros.rs'; ER='runtime/src/error.rs'
PL='parquet/src/lib.rs'; EN='parquet/src/encodings.rs'; FO='parquet/src/format.rs'; SC='parquet/src/bin/schema.rs'

p('C01','Decoding or skipping arbitrary bytes never panics',
 'Decoding any supported value type, decoding any of the bundled Parquet structures, or skipping a value of any type code, from any byte sequence, through the in-memory slice source or through any std reader, returns a value or an error and never panics. This includes truncated, overlong and malicious input and holds with and without arithmetic overflow checks.',
 ['inputs','configurations'],'all byte sequences, all type codes, both input sources, all value types, builds with and without overflow checks',
 'The tests decode a dozen short, well-formed buffers; a panic needs one particular truncation or header value among all byte sequences.',
 [PR,UL,TY,MA,EN],[('length tests before slicing','%s: CompactThriftInputSlice methods'%PR),('skip of integers','%s: skip_uleb_sse2, skip_uleb_fallback'%UL),('field id arithmetic','%s: read_field_header'%PR)],
 observe=['return value of read_thrift / fill_thrift / skip_field'])
p('C02','Nesting in the input cannot exhaust the stack',
 'The call depth reached while skipping a value or decoding any bundled Parquet structure is bounded by a constant that does not depend on the input: nested lists, sets, maps and structs beyond a fixed depth are rejected with an error instead of recursing further, while values nested up to 24 levels are not refused for their nesting.',
 ['inputs'],'all byte sequences, in particular arbitrarily deep nesting of containers and structs',
 'No test nests deeper than two levels; a stack overflow aborts the process only for inputs of many kilobytes of nesting headers.',
 [PR,MA,FO],[('recursive skip','%s: skip_field, skip_collection, skip_map'%PR)],observe=['process abort versus Err'])
p('C03','Memory reserved for a length field is capped before it is reserved',
 'While decoding, no buffer or collection is allocated with a size taken from the input unless that size has first been checked against the fixed limits: at most 16 MiB for one binary or string and at most 10,000,000 elements for one collection. A larger declared length is rejected with an error and nothing is reserved for it.',
 ['inputs'],'all declared lengths of binaries, strings, lists, sets and maps, in short and long header form, both input sources',
 'The tests only declare lengths below five; the limit matters for lengths that no test file contains.',
 [PR,TY,EN],[('MAX_BINARY_LEN / MAX_COLLECTION_LEN tests','%s: read_binary, skip_binary, read_collection_len_and_type, read_map_len_and_types'%PR),('reserve','%s: Vec::fill_thrift'%TY)],
 observe=['allocation size', 'Err(InvalidBinaryLen) / Err(InvalidCollectionLen)'])
p('C04','A successful slice read consumes exactly the encoded bytes, all present',
 'When a primitive read or skip on the in-memory slice source succeeds, the remaining slice is the original one advanced by exactly the bytes of that value (1 for a byte, 8 for a double, the length prefix plus the payload for a binary, through the terminating byte for a varint), and all of those bytes lay inside the slice. If the slice is too short the operation returns an error.',
 ['inputs'],'all slice contents and all slice lengths including the empty slice',
 'Tests only look at the decoded value of complete inputs, one byte longer or shorter inputs and the position after the read are not sampled.',
 [PR,UL],[('cursor updates','%s: impl CompactThriftInput for CompactThriftInputSlice'%PR),('varint skip','%s'%UL)],
 state=[('cursor','bytes not yet consumed','%s: CompactThriftInputSlice.0'%PR)],observe=['as_slice() after the call'])
p('C05','Every I/O or nested failure surfaces as an error',
 'If any primitive read or write, any nested decode or encode, or any skip fails while a value is being decoded, skipped or encoded, the whole operation returns an error and performs no further reads or writes. A failure is never turned into success, a default value or a shorter value.',
 ['fault_sequences','inputs'],'every operation on the input or output, failing at any point, for every value type, struct and union',
 'Tests use infallible sources and sinks on complete data; no test makes the n-th read or write fail.',
 [PR,TY,MA,UL,EN,PL],[('? on every I/O result','all fill_thrift / write_thrift implementations')],observe=['returned Result'])
p('C06','A known field or element with a wrong wire type is rejected',
 'A known struct field, union variant or list element is accepted only if the type code on the wire is the one its declared type encodes to (either boolean code for booleans, also inside lists); any other type code yields an error, for every declared type including booleans, boxed and reference-counted values, optional fields, enums and nested structures. A payload is never interpreted as a different type.',
 ['inputs','programs'],'all declared field, variant and element types, all 16 type codes',
 'All tests and the sample file use matching type codes; the mismatch cases are 15 of 16 codes for every type.',
 [PR,TY,MA,EN],[('type test','%s: CompactThriftProtocol::fill_thrift_field'%PR),('element type test','%s: Vec::fill_thrift'%TY),('field dispatch','%s: thrift_struct, thrift_union'%MA)],observe=['Err(InvalidType)'])
p('C07','Decoding a struct succeeds only if every required field was present',
 'Decoding a struct returns success only if each of its required fields occurred in the input; otherwise it returns a missing-field error that names the struct and one of its required fields that did not occur. Absence of optional fields never causes an error.',
 ['inputs','programs'],'all struct definitions, all subsets and orders of fields on the wire',
 'No existing test omits a required field; there are dozens of required fields and exponentially many subsets.',
 [MA,FO],[('presence flags and checks','%s: __thrift_required_flag/set/check'%MA)],observe=['Err(MissingField)'])
p('C08','Unknown struct fields are skipped once and change nothing',
 'A struct field whose id is not declared is skipped by consuming exactly one value of the type in its header, modifies no field of the result, and decoding continues with the next header; decoding ends successfully at a stop header (type code 0) and nowhere else.',
 ['inputs','programs'],'all struct definitions, all undeclared field ids, all type codes, any position among the known fields',
 'The sample file contains no unknown field and no unit test adds one.',
 [MA,PR],[('wildcard arm','%s: thrift_struct fill_thrift'%MA),('stop test','%s: thrift_struct fill_thrift'%MA)],observe=['decoded value', 'following values in the stream'])
p('C09','A repeated optional field is rejected',
 'When an optional field that already holds a value is decoded again, decoding fails with a duplicate-field error without reading the payload and without replacing or leaking the value already held.',
 ['inputs'],'all optional field types, any second occurrence, also when decoding into a partly filled structure',
 'No test repeats a field.',
 [TY],[('is_some test before the unsafe overwrite','%s: impl for Option<P>'%TY)],observe=['Err(DuplicateField)'])
p('C10','Skipping consumes what decoding the same type code would consume',
 'For every type code, skipping a value consumes exactly one value of that type as the compact protocol defines it: nothing for a boolean field, one byte for boolean elements and bytes, one varint for the integer types, eight bytes for a double, a length-prefixed run for binaries, a header and all its elements for lists and sets, a header and all key/value pairs for maps (key first, nothing after an empty-map header), and all fields up to the stop byte for structs. Unknown type codes yield an error.',
 ['inputs'],'all 16 type codes in field and in element position, all nestings, both input sources',
 'Two tests skip a list of four booleans and a list of four integers; strings, doubles, maps, structs and nested containers are never skipped.',
 [PR,UL],[('type dispatch','%s: skip_field, skip_collection, skip_map'%PR)],observe=['position of the source after the skip'])
p('C11','Scalar encodings are exact inverses and follow the compact protocol',
 'Every 16, 32 and 64 bit integer is written as the varint of its zigzag form and every length as a plain varint, in least-significant-group-first order with the continuation bit set on all but the last byte; doubles are written as 8 little-endian bytes and bytes unchanged. Reading inverts writing for every value, through both sources.',
 ['inputs'],'all values of i8, i16, i32, i64, usize lengths and f64 bit patterns',
 'Tests sample about ten integers; 2^64 values, each bit position and the sign matter.',
 [PR,UL,TY],[('zigzag','%s: zigzag_encode*/zigzag_decode*'%PR),('varint','%s: encode_uleb, decode_uleb'%UL),('doubles','%s: read_double, write_double'%PR)],observe=['bytes written', 'value read back'])
p('C12','Field headers written are the ones the reader maps back to the same id',
 'For every field id and every previous field id, the header written for a field uses the one-byte delta form only if the id is 1 to 15 above the previous one and otherwise writes the type code followed by the absolute id as a zigzag varint; the reader maps both forms back to the same id and type, and both sides remember the id for the next field.',
 ['inputs','programs'],'all pairs of 16 bit field ids, in particular gaps above 15 and descending ids, all field types',
 'No test type declares a gap above 15, ids in descending order or ids above 15 after another field.',
 [PR],[('delta computation','%s: write_field_header'%PR),('delta reconstruction','%s: read_field_header, read_full_field_id'%PR)],observe=['bytes written', 'field id seen by the reader'])
p('C13','Collection headers and element counts agree between writer and reader',
 'A list or set is written as a header with its element type and exact element count (short form below 15, otherwise the long form followed by the count) followed by exactly that many elements in order; the reader recovers the same type and count and decodes exactly that many elements into an emptied collection. Sizes that the reader would reject are refused by the writer before any byte is written.',
 ['inputs'],'all collection lengths including 0, 14, 15, the limit and beyond, all element types, both list implementations',
 'Tests write lists of 0 to 4 elements, so the long form and the limit are never exercised.',
 [PR,TY,EN],[('header writer','%s: Vec::write_thrift, %s: EncodingSet::write_thrift'%(TY,EN)),('header reader','%s: read_collection_len_and_type'%PR)],observe=['bytes written','decoded length'])
p('C14','Reading and writing agree on the wire form of every supported type',
 'For every supported type (booleans, integers, doubles, strings, binaries, borrowed and boxed and reference-counted forms, enums, lists, encoding sets, optional values, structs and unions) the declared type code is the one the compact protocol assigns, writing emits exactly the form that reading consumes, and a boolean field is carried only in its header (1 true, 2 false) while a boolean element is one byte (1 true, 2 false, 0 accepted as false).',
 ['programs','inputs'],'all types implementing the protocol trait, in field, variant and element position, all values',
 'Tests write and read three list types; most of the twenty implementations are never written.',
 [TY,EN,MA],[('FIELD_TYPE, fill_thrift, write_thrift, *_field','%s: all impls of CompactThriftProtocol'%TY)],observe=['bytes written','value read back'])
p('C15','Each struct and union field is written and read under one and the same id',
 'Writing a struct emits every required field and every present optional field exactly once, each under its declared id and from its own member, followed by one stop byte; writing a union emits exactly the active variant under its id and a stop byte. Reading a given id fills exactly the member (or selects exactly the variant) that is written under that id, and the constructor puts each argument in the member of the same position.',
 ['programs','inputs'],'all structs and unions defined by the macro, including all bundled Parquet definitions, all values',
 'Nothing in the test suite writes a struct or union at all.',
 [MA,FO],[('field loop','%s: thrift_struct, thrift_union'%MA)],observe=['bytes written','decoded members'])
p('C16','The bundled Parquet definitions agree with the Parquet Thrift IDL',
 'Every enum value, struct, union and field of the Parquet Thrift IDL shipped with the generator is available in the bundled definitions under the same name, id, wire type and required or optional status (except the two column metadata fields the definitions document as left out, path_in_schema and index_page_offset), and no other fields are recognised than those of the IDL and of the later Parquet format additions (variant, geometry and geography types and statistics), which use the ids and types of the format specification.',
 ['programs','inputs'],'all enum values, structs, unions and fields of the IDL',
 'The sample file uses a small part of the definitions and wrong ids of unused fields would just be skipped.',
 [FO,'generator/src/test/resources/parquet.thrift'],[('thrift! invocation','%s'%FO)],observe=['member filled for a wire id', 'constant values'])
p('C17','Strings are returned only for valid UTF-8 and are never altered',
 'A decoded string is returned only if the whole payload was validated as UTF-8, otherwise an invalid-string error is returned; the returned text is exactly the payload, for every string type and both sources.',
 ['inputs'],'all payload byte sequences, all string types, borrowed and owned payloads',
 'Tests contain only ASCII strings in one file; invalid UTF-8 would be undefined behaviour rather than a failing assertion.',
 [PR,TY],[('from_utf8 before from_utf8_unchecked','%s: read_string'%PR)],observe=['Err(InvalidString)'])
p('C18','Returned buffers contain only bytes delivered by the source',
 'A binary decoded from a reader, a metadata chunk or a page index chunk is returned only after the source has filled the entire buffer; memory that was never written is not returned or kept on any path, including short reads and errors.',
 ['inputs','fault_sequences'],'all readers, short reads and errors at any point, all lengths',
 'Leaking uninitialised memory needs a failing or short reader and cannot be asserted reliably in a unit test.',
 [PR,PL],[('read_exact between set_len and return','%s: read_binary for Read; %s: get_metadata_chunk, get_page_index_chunk'%(PR,PL))],observe=['returned bytes'])
p('C19','Unchecked memory operations are only reached when their condition holds',
 'Every unchecked operation the library uses for speed (unchecked slicing and wide loads when skipping integers, unchecked unwraps, raw writes over options, unreachable hints, raw C string pointers for field names) is reached only in states where its safety condition is established, for every input and every safe use of the public API.',
 ['inputs','programs'],'all inputs, all slice lengths, all callers of the public safe API',
 'A violated safety condition is undefined behaviour that a passing assertion does not show; it needs particular slice lengths such as 16 continuation bytes.',
 [UL,TY,PR,MA,ER,PL],[('unsafe blocks','%s, %s, %s, %s, %s, %s'%(UL,TY,PR,MA,ER,PL))],observe=['undefined behaviour'])
p('C20','The footer metadata chunk is located, checked and read exactly',
 'The metadata chunk of a file is returned only if the last four bytes are the Parquet magic; it then is exactly the bytes preceding the 8 byte footer, as many as the little-endian length in the footer says. No memory is reserved for the declared length before the position it implies has been confirmed to lie inside the input, and no input makes the function panic.',
 ['inputs','fault_sequences'],'all file contents and lengths, all declared metadata lengths, seek and read failures',
 'One well-formed sample file is read.',
 [PL],[('footer handling','%s: get_metadata_chunk'%PL)],observe=['returned chunk','Err(InvalidMagic)'])
p('C21','Page index location and decoding tolerate any metadata',
 'For any decoded file metadata and any chunk, computing the page index range, loading it and decoding it return a result or an error and never panic: negative or out-of-range offsets and lengths are rejected, and memory for the chunk is reserved only after the range has been confirmed to lie inside the input. The computed range covers the offset index and the column index of every column chunk that declares both, the loaded chunk is exactly the bytes of that range, and each index is decoded from exactly the bytes its own offset and length designate.',
 ['inputs'],'all offsets and lengths in all column chunks, all chunks and chunk offsets',
 'No test calls the page index functions (only a benchmark does, on one file).',
 [PL],[('range computation','%s: get_page_index_range'%PL),('chunk slicing','%s: read_page_index_for_column_chunk'%PL)],observe=['returned range','decoded indexes','panic'])
p('C22','An encoding set holds exactly the encodings listed',
 'Decoding a list of encodings into a set accepts every encoding the Parquet format defines, accepts only values the set can represent, rejects every other value (negative ones included) with an error, and records every accepted value and nothing else; the number of members equals the number of items listed by iteration and by writing, which lists each member once.',
 ['inputs'],'all lists of 32 bit values, including negative values, duplicates and values at the limit of the representation',
 'Tests use four lists of valid values and one value far out of range.',
 [EN],[('range test before the shift','%s: fill_thrift'%EN),('bit iteration','%s: iter'%EN)],observe=['iter()','len()','Err(InvalidNumber)'])
p('C23','Borrowed results cannot outlive the input and names are static',
 'Code that keeps a borrowed string or binary, or the remaining slice, longer than the input buffer it was decoded from does not compile, whereas results decoded from a reader do not borrow from it; field names in errors can only be built from static, nul-terminated text; errors can be sent and shared between threads.',
 ['programs'],'all programs using the public API',
 'A test cannot assert that a program must not compile.',
 [PR,TY,ER],[('lifetimes','%s: CompactThriftInput<\'i>, CompactThriftInputSlice<\'a>'%PR),("&'static bounds",'%s: From impls of FieldName'%ER)],observe=['compiler acceptance'])
p('C24','Decoding makes progress: work is bounded by the input consumed',
 'While decoding or skipping, every loop iteration either consumes at least one byte of the input or returns, so decoding terminates on every finite input and a declared count cannot cause more iterations than there are bytes left.',
 ['inputs'],'all byte sequences, all element types and loops of the decoder, both input sources',
 'An iteration that consumes nothing is only visible as excessive running time on a crafted count.',
 [PR,UL,TY,MA,EN],[('loops','all loops of fill_thrift, skip and varint decoding')],observe=['termination','running time'])
p('C25','Schema conversion tolerates any schema element list',
 'Converting the flat schema of any decoded file metadata into a tree returns a tree or an error and never panics; recursion is limited to a constant depth that is no less than 24 levels, and on success every node has exactly the number of children its element declares and no element is left over behind the root.',
 ['inputs'],'all lists of schema elements with any child counts, repetition types, types and logical types',
 'The schema tool has no tests.',
 [SC],[('child count and nesting tests','%s: field_from_schema_element, convert_schema_inner'%SC)],observe=['printed schema','panic'])
p('C26','The schema tool maps each annotation to its own kind',
 'For every physical type, repetition type, converted type and logical type defined by Parquet, the schema tool reports the kind of the same meaning (in particular the bit width and signedness of integer annotations and the unit of time annotations), reports no annotation for those unsupported at that kind of node, rejects unknown physical and repetition types with an error that carries the unknown value, and rejects fixed lengths that are missing or not positive. Parameters of decimal and integer annotations are reported as they are stored or, where they have no meaning (precision or width not positive, scale above precision), the annotation is left out.',
 ['inputs'],'all enum constants and union variants, in primitive and group position',
 'The schema tool has no tests and the sample file uses a fraction of the annotations.',
 [SC],[('match tables','%s: TryFrom impls, try_from_converted_type'%SC)],observe=['printed schema'])
p('C27','Over-long binaries and collections are refused before any output',
 'Writing a binary or string longer than 16 MiB or a collection with more than 10,000,000 elements returns an error before any byte of it is written, and everything at or below the limits is accepted, so that whatever is written successfully is within what the reader accepts.',
 ['inputs'],'all lengths of binaries, strings and collections',
 'No test writes anything larger than a few bytes.',
 [PR,TY],[('length tests','%s: write_binary; %s: Vec::write_thrift'%(PR,TY))],observe=['Err(InvalidBinaryLen) / Err(InvalidCollectionLen)', 'bytes written'])
p('C28','A union is decoded from exactly one known variant and a stop byte',
 'Decoding a union succeeds only if the input holds exactly one field with a declared variant id followed directly by a stop byte; an empty union, an undeclared variant id or anything but the stop byte after the first field yields an error, and the decoded value is the variant with that id.',
 ['inputs','programs'],'all unions, all field headers and following bytes',
 'No unit test decodes a union; the sample file contains well-formed ones only.',
 [MA],[('single header and stop test','%s: thrift_union fill_thrift'%MA)],observe=['decoded variant','Err(MissingStop) / Err(MissingField) / Err(InvalidType)'])
p('C30','Schema nodes carry their own name, id, levels and leaf index',
 'In the tree built from a flat schema, every node has the name and field id of the element it was built from; its definition level is the number of optional and repeated fields on the path from the root to it (itself included) and its repetition level the number of repeated ones; and the index of a leaf is the number of leaves before it in depth-first order. The accessors of a node report exactly these.',
 ['inputs'],'all lists of schema elements that are accepted, all nesting shapes and repetition types',
 'The schema tool has no tests and the sample file is flat; wrong levels or indexes would only show up in deeply nested schemas.',
 [SC],[('levels and index','%s: convert_schema_inner, field_from_schema_element'%SC)],observe=['definition_level()','repetition_level()','find_field_by_path(...).index'])
p('C31','Errors report their cause',
 'When an operation fails because the source or sink failed, the error returned carries the I/O error kind that the source or sink reported (in the Parquet functions the I/O error itself, or the decoding error itself); missing bytes of an in-memory source are reported with the kind UnexpectedEof; and a binary length that is refused is reported as an invalid binary length together with that length.',
 ['inputs','fault_sequences'],'all entry points, all failure points of source and sink, all error kinds, all lengths',
 'The tests neither use a failing source or sink nor look at the contents of an error.',
 [ER,PR,PL],[('conversions','%s: From<std::io::Error>, From<ErrorKind>; %s: ParquetError'%(ER,PL)),('length tests','%s: read_binary, read_string, skip_binary, write_binary'%PR)],observe=['ThriftError and ParquetError values'])
p('C32','Enum numbers survive, declared or not',
 'Decoding an enum accepts every 32-bit number and yields the value with that number, and encoding a value writes its number, so that values added by later versions of a definition survive decoding and encoding unchanged; a value made from a number has that number, and each declared constant has the number it is declared with.',
 ['inputs','programs'],'all 32-bit numbers, all enum definitions',
 'The tests decode only declared constants.',
 [MA],[('enum implementation','%s: thrift_enum'%MA)],observe=['enum.0','bytes written'])
p('C33','A binary on a stream is its length and exactly that many bytes',
 'A binary or string is written as the varint of its length in bytes followed by exactly its bytes. When a binary or string is read from or skipped in a std reader successfully, exactly as many bytes as its length prefix declares were taken from the reader behind the prefix; the value that is returned has that length and consists of those bytes.',
 ['inputs','fault_sequences'],'all readers, all contents, all lengths up to the limit',
 'The tests read complete files through the slice source and never decode what they write a binary into; how many bytes a reader loses is not looked at.',
 [PR],[('reading and skipping','%s: impl CompactThriftInput for R: Read'%PR),('writing','%s: CompactThriftOutput::write_binary, write_string'%PR)],observe=['position of the reader','returned bytes','bytes written'])
p('C34','Calls depend on nothing but their arguments',
 'What reading, skipping, writing, locating metadata and converting a schema return and do depends only on their arguments and what the source or sink answers: nothing is remembered between calls in global or thread-local state, and no clock, environment, random source, file or standard stream is consulted, so that the outcome is the same after any history of calls (failed ones included) and on every thread. The bundled Parquet types can be sent to and shared between threads.',
 ['histories','schedules','inputs'],'all sequences of calls before a call, all threads and interleavings',
 'Every test runs one operation in a fresh process; nothing compares the second call with the first, or runs two at a time.',
 [PR,MA,PL,SC],[('entry points','%s; %s; %s'%(PR,MA,PL))],observe=['results of repeated and concurrent calls'])
p('C29','The generator emits code that implements the runtime interface',
 'The Rust source emitted by the generator for any valid IDL compiles against the runtime library and encodes and decodes like the macro does for the same IDL.',
 ['programs'],'all valid Thrift IDL files',
 'The repository contains no test that runs the generator.',
 ['generator/src/main/java/net/jhorstmann/compactthrift/Generator.kt'],[('string templates','generator/src/main/java/net/jhorstmann/compactthrift/Generator.kt')],observe=['emitted source'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(P))
