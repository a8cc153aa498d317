#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are reviewable)."""
import json, os
C='compiler/src/compiler/'; G='compiler/src/gen/'; R='runtime/src/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
STRUCTF=[C+'structure.rs',G+'base/structure.rs',G+'rust/structure.field.template',R+'codec/bits.rs',R+'codec/bytes.rs']
p('S01','Writing a structure field reads back and disturbs no other bit',
 'For every structure layout the schema compiler accepts, writing a scalar field and reading it back through the generated accessors returns the value written (raw writes are reduced to the field\'s declared width). No bit outside that field\'s declared extent changes, whatever the buffer held before, in either endianness, including fields that start or end inside a byte. The same holds for any sequence of writes to different fields.',
 ['programs','inputs','histories'],'all accepted structure layouts (kinds, widths 1..64, bit offsets, endianness), all prior buffer contents, all written values and write sequences',
 'The tests set a dozen hand-picked values on five fixed layouts in which no field crosses a byte it shares with a neighbour on both sides, always starting from zeroed buffers; neighbours are rarely re-read.',
 STRUCTF,[('bit codec read/modify/write masks',R+'codec/bits.rs'),('field location computation',C+'structure.rs'),('codec selection per field',G+'base/structure.rs')],['generated get_*/set_* accessors'])
p('S02','Structure bytes follow the declared bit layout and endianness',
 'Fields of a structure occupy consecutive bits in declaration order with no padding: bits count from the least significant bit of each byte in little-endian protocols and from the most significant bit in big-endian protocols. The published size of a structure is its total number of bits rounded up to whole bytes. A decoder written independently from these rules reads from the bytes the same raw value as the generated accessor, for every field and every buffer content.',
 ['programs','inputs'],'all accepted structure layouts and all buffer contents',
 'Tests only check that a value written by the library is read back by the same library, so any self-consistent but wrong layout (or a big-endian protocol that is silently little-endian) passes.',
 STRUCTF+[C+'protocol.rs'],[('Location::from_model',C+'structure.rs'),('endianness of the protocol',C+'protocol.rs'),('byte and bit codecs',R+'codec/')],['FixedSize::SIZE, SIZE_<NAME>, get_raw_*'])
p('S03','Signed fields are two\'s complement at their declared width',
 'A signed field of n bits (1 to 64) reads as the two\'s complement interpretation of its n raw bits, and writing any value in [-2^(n-1), 2^(n-1)-1] stores exactly those bits and reads back the same value.',
 ['programs','inputs'],'all widths 1..64, all bit offsets, both endiannesses, all values including both extremes',
 'Tests exercise widths 4, 8, 16, 17 and 32 on a handful of values.',
 [C+'structure.rs',G+'rust/structure.field.template'],[('sign extension of odd widths','FieldView::SignedCast in '+C+'structure.rs'),('view_signed / view_transmute fragments',G+'rust/structure.field.template')],['get_*, set_*, get_raw_*'])
p('S04','Float views are the declared affine map and invert within one step',
 'A float-range field with bounds min and max reads raw 0 as min and the largest raw value as max, linearly in between; a float-multiplier field reads raw r as r times the multiplier. Writing any value of the representable range and reading it back gives a value within one quantisation step (plus floating-point rounding), and native 32/64-bit floats are stored bit-exactly, NaNs included.',
 ['programs','inputs'],'all float views (bounds of either sign, any width), all raw values and all in-range floats',
 'Tests use one range view with min 0 and one multiplier on two values, so a wrong offset or slope for a non-zero minimum is invisible.',
 [C+'structure.rs',G+'rust/structure.field.template'],[('affine coefficients','FieldView::from_model in '+C+'structure.rs'),('view_float fragments',G+'rust/structure.field.template')],['get_*, set_*, get_raw_*'])
p('S05','Enum views yield a declared variant or nothing, never an invalid one',
 'Reading an enum-viewed field returns the variant declared with exactly the stored raw value, and returns no variant for every raw value that is not declared, including gaps between declared values. Writing a variant stores its declared number and reads back as that variant, and the generated variant has the declared numeric value.',
 ['programs','inputs'],'all enums (sparse, single-variant, large values), all field widths and offsets that hold them, all raw values',
 'Tests use dense enums starting at 0 and one out-of-range raw value above the largest; gaps are never probed.',
 [C+'enum.rs',C+'structure.rs',G+'base/structure.rs',G+'rust/structure.field.template',G+'rust/enum.rs',G+'rust/enum.template'],[('enum view getter and setter',G+'rust/structure.field.template'),('variant table',C+'enum.rs')],['get_*, set_*, get_raw_*'])
p('S06','Boolean fields are true for any non-zero raw and written canonically',
 'A boolean field of any width reads true exactly when its raw bits are not all zero; writing true stores raw 1 and writing false stores raw 0 over the whole declared width.',
 ['programs','inputs'],'all widths, offsets and raw contents, both endiannesses',
 'Tests set four aligned flags to true and read them back; false, sub-byte flags and non-canonical raw values are never used.',
 [G+'rust/structure.field.template',C+'structure.rs',R+'codec/bits.rs'],[('view_transmute.bool fragments',G+'rust/structure.field.template')],['get_*, set_*, get_raw_*'])
p('S07','Fixed arrays in structures: right length, order, and element isolation',
 'An array field exposes exactly the declared number of elements, each at its own consecutive slot in the protocol\'s byte order; reading by index and iterating agree. Writing one element reads back that element and changes no byte outside its slot, and byte arrays expose exactly the field\'s bytes as a slice. An index beyond the array panics and touches nothing.',
 ['programs','inputs','histories'],'all element types and widths (8..64 bits), lengths, positions in the structure, indices and values',
 'One test writes equal values to small arrays in one little-endian structure, so swapped, overlapping or mis-strided elements pass.',
 [R+'codec/arrays.rs',C+'structure.rs',G+'base/structure.rs'],[('ArrayCodec get/set/iter',R+'codec/arrays.rs'),('item_bit_size',C+'structure.rs')],['get_<array>(), get_<array>_mut()'])
p('S08','Nested and borrowed structure views alias the parent\'s bytes',
 'A nested structure view reads and writes exactly the parent\'s bytes at the nested structure\'s declared position, at any nesting depth; a write through a nested or re-borrowed mutable view is visible through the parent, and reading a structure from a slice or writing it to a sink uses exactly its published size and the same bytes. A slice shorter than the structure is refused as truncated.',
 ['programs','inputs'],'all nestings up to the generated depth, all buffers, all slice lengths',
 'One test nests three aligned structures once and reads back the values it wrote.',
 [C+'structure.rs',G+'rust/structure.field.template',G+'rust/structure.template'],[('struct fragments',G+'rust/structure.field.template'),('to_ref/to_mut/from_slice/write_to',G+'rust/structure.template')],['get_<nested>(), get_<nested>_mut(), to_ref, to_mut, from_slice, write_to'])
MSG=[G+'base/message_from_slice.rs',G+'base/message_write.rs',G+'rust/message.from_slice.template',G+'rust/message.write.template',R+'message/util/common.rs',R+'message/util/string.rs',R+'message/util/list.rs',R+'message/util/array.rs']
p('M01','A written message reads back equal, consuming what was written',
 'For every message definition the compiler accepts and every value of it (strings without NUL, lengths within their prefix, union values matching their discriminant), writing the message succeeds and reading the produced bytes yields an equal value and reports as size the number of bytes written. This covers fixed items, structures, nested messages, both string kinds, arrays, lists, optionals, unions and payloads in every combination.',
 ['programs','inputs'],'all accepted message definitions and all their values',
 'About ten fixed messages with short literal values are written and read; most combinations (optional inside list inside union, wide length prefixes, empty collections) never occur.',
 MSG+[C+'message.rs'],[('generated write_to / from_slice',G+'rust/'),('runtime primitives',R+'message/util/')],['WriteTo::write_to, FromSlice::from_slice'])
p('M02','Message bytes are the specified wire encoding',
 'A message is the concatenation of its fields in declaration order: scalars and length prefixes in the protocol\'s byte order, a length prefix being the narrowest of 8, 16, 32 or 64 bits able to hold the declared maximum length, unbounded strings ended by one NUL, optionals preceded by a 0 or 1 byte, structures, union values and payloads verbatim. An encoder written independently from the schema produces the same bytes for every value.',
 ['programs','inputs'],'all accepted message definitions (length bounds at and around each prefix width), both endiannesses, all values',
 'No test looks at encoded bytes; both ends come from the same code, so any symmetric change of the wire format (prefix width, order, endianness) passes.',
 MSG+[C+'message.rs',C+'structure.rs',G+'rust/util.rs'],[('prefix width selection',C+'structure.rs'),('value codecs',G+'rust/util.rs')],['WriteTo::write_to'])
p('M03','Reading arbitrary bytes never panics and agrees with the schema',
 'For every accepted message definition and any byte string whatever, reading never panics, never reads outside the slice, and either fails with an error or returns a value whose reported size does not exceed the slice. It accepts exactly the inputs that an independent decoder of the schema accepts and yields the same value and size.',
 ['programs','inputs'],'all byte strings (random, mutated valid encodings, hostile length prefixes) against all accepted message definitions',
 'Tests only read well-formed bytes produced by the library itself; no malformed input is ever read.',
 MSG+[G+'rust/union.template'],[('bounds checks in primitives',R+'message/util/')],['FromSlice::from_slice'])
p('M04','Messages are self-delimiting: cuts are refused, trailing bytes ignored',
 'For a message that does not end in an open-ended field (payload or top-level list), every strict prefix of its encoding is refused as truncated, and appending any bytes after it changes neither the value read nor the reported size.',
 ['programs','inputs','fault_sequences'],'every cut point of every generated encoding; all trailing bytes',
 'No test truncates a message or reads from a slice longer than the message.',
 MSG,[('Truncated checks',R+'message/util/')],['FromSlice::from_slice'])
p('M05','Reported field offsets tile the message and delimit each field',
 'Reading with offsets succeeds exactly when plain reading does and yields the same value and size; the reported field ranges follow declaration order, start at 0, are contiguous and end at the message size. Each range holds exactly the encoding of its field, and the offsets of a nested message (present exactly when the optional is) satisfy the same relative to its own first byte.',
 ['programs','inputs'],'all accepted message definitions with nested, optional and listed messages; all values and arbitrary bytes',
 'One test checks one fixed message with known numbers.',
 [G+'rust/message.offsets.template',G+'rust/message_offsets.rs',R+'message/util/common.rs',R+'message/util/list.rs'],[('offset bookkeeping',G+'rust/message.offsets.template'),('Optional and List offsets',R+'message/util/')],['FromSliceWithOffsets, IterOffsets'])
p('M06','The computed size of a message equals what writing it produces',
 'For every message value the size computation returns exactly the number of bytes that writing it appends to a sink, and it fails exactly when writing would fail for the value.',
 ['programs','inputs'],'all accepted message definitions and values',
 'The size computation is not called by any test.',
 [R+'message/util/size.rs',G+'rust/message.write.template'],[('counting sink',R+'message/util/size.rs')],['message::util::size_of'])
p('M07','A failing or short-writing sink is reported, never silently lost',
 'If the sink fails at any byte, writing a message, structure, list or array returns that I/O error and what reached the sink is a prefix of the correct encoding; a sink that accepts only part of each write, or interrupts, still receives the complete encoding when writing returns success. A failed append to a list or array builder does not count the item.',
 ['programs','inputs','fault_sequences'],'every fault position, short-write pattern and interruption pattern, on all generated messages',
 'Tests write only to growing vectors, which never fail and never write short.',
 [R+'message/util/list_base.rs',R+'message/util/common.rs',R+'message/util/string.rs',G+'rust/message.write.template',G+'rust/structure.template'],[('write_all and ? propagation','all write_to implementations')],['WriteTo::write_to, write_item'])
p('M08','Values the wire format cannot represent are refused when written',
 'Writing fails with an error, instead of producing bytes that read back differently, when a string or list is longer than its length prefix can express or when a NUL-terminated string contains a NUL.',
 ['programs','inputs'],'all string and list fields, lengths around each prefix capacity, NUL at any position',
 'Tests use only short ASCII literals.',
 [R+'message/util/string.rs',R+'message/util/list_base.rs',R+'util/scalar.rs'],[('length conversion',R+'util/scalar.rs')],['WriteTo::write_to'])
p('M09','Re-writing a decoded message reproduces the bytes it was read from',
 'For any bytes a message was successfully read from (with its lists well formed), writing the value read reproduces exactly the bytes it was read from, except that an optional\'s presence byte is normalised to 1 and a boolean item to 0 or 1.',
 ['programs','inputs'],'arbitrary accepted byte strings, not only those the library wrote',
 'Tests never start from bytes the library did not produce itself, and never write back a value they read.',
 MSG,[('symmetry of read and write',R+'message/util/')],['from_slice then write_to'])
p('U01','Union values travel under the discriminant of their case',
 'Setting a union value\'s discriminant stores the number declared for its case at the declared (possibly nested) discriminant field and touches no other bit; writing under that discriminant succeeds and reading selects the same case with the same value. The typed accessors answer for that case only.',
 ['programs','inputs'],'all accepted unions (enum, signed, unsigned, boolean, nested discriminants; structure, message and empty cases; sparse numbers), all values',
 'Tests use one enum discriminant that is the whole header and a nested one that is never read or written in a message.',
 [C+'union.rs',G+'rust/union.rs',G+'rust/union.template'],[('case numbers',C+'union.rs'),('set_discriminant / write_to / from_slice',G+'rust/union.template')],['set_discriminant, as_*, is_*, from_slice, write_to'])
p('U02','Union reads and writes with a wrong discriminant are refused',
 'Writing a union value (with or without content) under a discriminant that is not its case\'s, and reading under a discriminant no case declares, fail with the invalid-discriminant error carrying the discriminant found; nothing of the union value is written.',
 ['programs','inputs'],'all accepted unions, all pairs of case and discriminant value',
 'No test mismatches a discriminant or reads an undeclared one.',
 [G+'rust/union.rs',G+'rust/union.template'],[('discriminant comparison',G+'rust/union.template')],['write_to, from_slice'])
p('L01','Lists hold what was appended, in order, and iteration always ends',
 'A list builder reports as length the number of successful appends and encodes the items in order; reading yields the same items in the same order, with and without offsets, and a list view shares the builder\'s bytes. Iterating a list read from any bytes yields at most the announced number of items plus one error and then ends.',
 ['programs','inputs','histories'],'all item types, append histories, and arbitrary list bytes with arbitrary announced counts',
 'Tests append two or three equal items and never iterate malformed data.',
 [R+'message/util/list.rs',R+'message/util/list_base.rs',G+'rust/message.ext.template'],[('Iter / IterOffsets',R+'message/util/list.rs'),('write_item',R+'message/util/list_base.rs')],['List::write_item, write_items, iter, iter_offsets, to_ref'])
p('L02','Arrays of structures index, iterate and mutate the right element',
 'An array over a buffer is granted exactly when the buffer is the element count times the structure size; element i is the i-th slot whether indexed or iterated, mutation through an index or an iterator changes only that slot, appending n structures yields the same array, and reading one from bytes announces exactly the encoded count. An index beyond the array panics and touches nothing.',
 ['programs','inputs','histories'],'all structure sizes, counts, indices, buffer lengths and mutation sequences',
 'Tests use one 3-byte structure with four elements.',
 [R+'message/util/array.rs',R+'message/macros.rs',R+'message/util/list_base.rs'],[('Array get/get_mut/iter/iter_mut/from_parts',R+'message/util/array.rs'),('generated wrapper',R+'message/macros.rs')],['generated array wrappers'])
p('C01','Every accepted schema yields Rust code that compiles',
 'For every well-formed schema (identifiers legal in Rust, distinct, and different from the names the generator derives from others), the compiler neither panics nor refuses it, and the generated Rust code compiles against the runtime without errors, exposing every declared structure, enum, union and message.',
 ['programs','configurations'],'all schemas built from supported constructs, alone or across imports, in any combination',
 'Twelve fixed schemas are compiled; most combinations of optional, list, union, import and view are never generated.',
 [C,G],[('schema compiler',C),('code generator',G)],['Loader/Protoc/GeneratorRust, rustc'])
p('C02','Invalid schemas are refused with an error, never a panic or bad code',
 'A schema with an undefined reference, an impossible bit width, an unsupported view, an empty enum or an enum that does not fit its field, a misaligned array or nested structure, an ill-formed union discriminant or case, a variable-sized field after an open-ended one, or the like, is refused with an error by loading or compiling; the compiler never panics on it and never accepts it.',
 ['programs'],'every fault class injected at any place of any valid schema',
 'No test feeds the compiler an invalid schema.',
 [C+'structure.rs',C+'message.rs',C+'union.rs',C+'protocol.rs',C+'enum.rs'],[('compiler::Error variants',C+'error.rs')],['Loader::compile'])
p('C03','Code generation is deterministic, repeatable and order-insensitive',
 'Generating from the same schemas always gives byte-identical files: across runs, when regenerating over an existing output directory, whatever other protocols are loaded beside it, and whatever the textual order of object keys or enum variants in the schema file.',
 ['programs','configurations','histories'],'all schemas, repeated generation histories, permutations of keys and of loaded files',
 'Tests generate once per build and never compare outputs.',
 [C+'enum.rs',C+'protocol.rs','compiler/src/interface.rs',G+'mod.rs'],[('variant ordering',C+'enum.rs'),('file writing',G+'mod.rs')],['files written by Protoc::generate'])
p('C04','Importing a type is equivalent to declaring it locally',
 'Splitting a protocol\'s types over several protocols connected by imports changes neither acceptance nor the wire format nor the value read for any message, provided the endianness is the same; an imported type keeps the endianness of the protocol that declares it.',
 ['programs','inputs','configurations'],'all ways of splitting a schema over imported protocols, all values',
 'One fixed import chain is compiled; no test compares it with a local declaration.',
 [C+'protocol.rs',C+'util.rs','compiler/src/util.rs','compiler/src/interface.rs'],[('import resolution',C+'protocol.rs'),('type paths',C+'util.rs')],['Loader::import, generated code'])
p('C05','Output selection publishes exactly the enabled parts of each protocol',
 'Each output flag adds or removes only its own kind of code, independently of the other flags; the entry file of a protocol includes exactly the files written for it, and every loaded (not imported) protocol is published exactly once under its name with an existing path, also through the build-script entry point.',
 ['configurations','programs'],'all flag combinations on all schemas',
 'Tests always enable everything.',
 ['compiler/src/interface.rs','compiler/src/build_script.rs',G+'mod.rs',G+'rust/mod.rs'],[('file filtering','compiler/src/interface.rs'),('umbrella generation',G+'rust/mod.rs')],['Protoc::generate, generate_rust'])
p('C06','Loading arbitrary schema text never panics',
 'Loading any file content, from random bytes to almost-valid schemas, either succeeds or returns an error; a schema that loads can be compiled and generated without a panic, or is refused with an error.',
 ['inputs'],'arbitrary and mutated schema text',
 'Tests load only valid files.',
 ['compiler/src/interface.rs','compiler/src/model/',C],[('deserialisation','compiler/src/model/'),('error mapping','compiler/src/interface.rs')],['Loader::load, compile, generate'])
p('C07','Code that cannot be written is reported, never lost or cut short',
 'Generation reports success only if every file it publishes is on the disk with its full content. A file or directory which cannot be created or written (a missing directory, a name in use, no space left, a file size limit) gives an error, never a panic nor a missing, empty or cut file under a success; so does loading a schema which is missing, is a directory, is not UTF-8 or is cut, and the loader remains usable. Nothing which is not asked for can make generation fail. Once the obstacle is gone, generating again gives exactly what a fresh directory gives.',
 ['inputs','fault_sequences','histories'],'all protocols, output flags, files and kinds of obstacle; histories of a failed and a repeated generation',
 'No test generates into a directory where anything is in the way.',
 ['compiler/src/interface.rs','compiler/src/gen/mod.rs'],[('writing of files','File::write in compiler/src/gen/mod.rs'),('collection of errors','Protoc::generate in compiler/src/interface.rs'),('reading of schemas','Loader in compiler/src/interface.rs')],['Protoc::generate','Loader::load, Loader::import','the files written'])
p('C08','Types of other protocols are named through the given import solver',
 'Every imported protocol is registered once with the import solver, in import order and with the import path as it was given; loaded protocols are not. The code of a protocol names an imported type by the path the solver gives for it (with SimpleImportSolver: import path, separator, type name; of a type imported along, the path of the protocol which declares it) and is the same otherwise, whatever the paths are and whichever solver gives them. It names no other type of another protocol. A protocol the solver does not know, or which is only loaded, a type which is not there, and a type for which the solver has no path are errors (naming the missing protocol or type), never a panic.',
 ['programs','inputs'],'all sets of protocols which import from each other, import paths, separators, solvers and missing items',
 'Tests import three types of one protocol with one path and the supplied solver.',
 ['compiler/src/interface.rs','compiler/src/util.rs',C+'protocol.rs',C+'util.rs'],[('registration of imports','Loader::compile in compiler/src/interface.rs'),('type paths','TypePathMap in '+C+'util.rs'),('resolution of imports',C+'protocol.rs')],['Loader::import, Loader::compile','ImportSolver, ImportResolver, SimpleImportSolver','the generated files'])
p('G01','Generators are handed each loaded protocol, compiled as it is declared',
 'A generator given to Protoc::generate is asked for each loaded protocol exactly once, in loading order, and for no protocol which is only imported. The compiled protocol it is handed describes the declarations: name and byte order; enums, structures, unions and messages in order of declaration; values and largest value of enums; sizes, first bits, byte order (of the declaring protocol), types, views (with the factors of float views both ways) and array lengths of structure fields; path, width and case numbers of union discriminants; types, prefix types, optional flags, selecting fields and size classes of message fields. Every type in scope, declared or imported, is found under its name with the path of its protocol. Which other protocols are loaded, and in which order, makes no difference.',
 ['programs','histories'],'all sets of protocols and loading orders',
 'No test looks at a compiled protocol; the tests see one generator on five schemas.',
 ['compiler/src/compiler/',C+'structure.rs',C+'message.rs',C+'union.rs',C+'enum.rs',C+'protocol.rs','compiler/src/interface.rs'],[('compilation of models',C+'protocol.rs'),('layout of structures',C+'structure.rs'),('generation','Protoc::generate in compiler/src/interface.rs')],['the Protocol given to Generator::generate'])
p('T01','Templates render by plain substitution and name what is missing',
 'Rendering a fragment outputs its lines in order with each variable replaced by its value (after its function), doubled braces as single braces, nested fragments excluded; scopes do not leak variables to their parent. A missing variable, fragment or function, or an unbalanced fragment, is reported as the error naming it.',
 ['inputs','histories'],'all template texts, variable assignments and scope nestings',
 'One test renders one fragment of one template.',
 [G+'template.rs'],[('tokeniser and renderer',G+'template.rs')],['gen::template::Template'])
p('R01','Bit codecs read and replace exactly the addressed bits',
 'For every carrier type, bit offset 0..7 and width, the public little- and big-endian bit codecs read the addressed bits of the buffer as an unsigned number and writing replaces exactly these bits with the low bits of the value, leaving all others unchanged.',
 ['inputs'],'all buffers, values, carrier types, offsets and widths',
 'Two tests use all-ones buffers or one 12-bit value.',
 [R+'codec/bits.rs'],[('BitCodec',R+'codec/bits.rs')],['BitCodecLE, BitCodecBE'])
p('R02','Byte codecs read and write exactly the buffer in the given order',
 'The public byte codecs interpret a buffer no longer than the value type as an unsigned number in the codec\'s byte order, zero-extended, and writing stores the low bytes of the value in that order; array codecs do so element by element, and panic on an index beyond the buffer without touching it. The codecs of signed numbers extend the sign of a narrower buffer instead, and those of booleans read any non-zero buffer as true and write 0 or 1 over all of it.',
 ['inputs'],'all buffers, value types and lengths 1..8, array lengths and indices',
 'One test reads an all-ones buffer.',
 [R+'codec/bytes.rs',R+'codec/arrays.rs'],[('ByteCodec',R+'codec/bytes.rs')],['ByteCodecLE, ByteCodecBE, SignedByteCodecLE, SignedByteCodecBE, BoolByteCodecLE, BoolByteCodecBE, ArrayCodec'])
p('R03','Runtime message primitives round-trip and bound-check on their own',
 'Used directly with any item type, the value, string, optional, buffer, array and list primitives round-trip every representable value, report the bytes consumed, refuse every truncation, invalid UTF-8 and announced length beyond the slice with an error, and never panic nor take time in proportion to an announced length instead of the bytes there are.',
 ['inputs','fault_sequences'],'all scalar types, prefix types, strings, counts and byte strings',
 'The primitives are only reached through a few generated messages with valid data.',
 [R+'message/util/'],[('primitives',R+'message/util/')],['message::util'])
p('W01','The Swift runtime speaks the same wire format as the Rust runtime',
 'Every value encoded by one runtime decodes to the same value in the other.',
 ['inputs'],'all primitives and values',
 'The Swift tests are separate and need Xcode; nothing compares the two runtimes.',
 ['Swift/BP3DProto/codec/bit.swift','Swift/BP3DProto/codec/byte.swift','Swift/BP3DProto/message/string.swift'],[('Swift codecs','Swift/BP3DProto/')])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
