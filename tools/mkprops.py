#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here because JSON lines are unpleasant to edit by hand)."""
import json
D='scale-decode/src/visitor/decode.rs'; V='scale-decode/src/visitor/mod.rs'; I='scale-decode/src/impls/mod.rs'; L='scale-decode/src/lib.rs'
T='scale-decode/src/visitor/types/'; M='scale-decode-derive/src/lib.rs'; E='scale-decode/src/error/mod.rs'; C='scale-decode/src/error/context.rs'; P='scale-decode/src/impls/primitive_types.rs'
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    out.append(d)
out=[]
inp=['inputs','programs']
p('C01','Decoding never panics or reads outside the input',
 'Whatever bytes are given, whatever type describes them and whatever target type or visitor is decoded into (all shipped targets, derived structs and enums, visitors that stop, skip or fail part way), decoding returns a value or an error: it never panics, overflows an integer, or reads beyond the bytes it was handed.',
 inp,'every byte string, type description and target or visitor, well matched or not',
 'The tests decode a few dozen valid encodings and two random-bytes proptests cover strings and bit sequences only; no test decodes mismatched or malformed bytes into every kind of target.',
 [D,I,M,T+'composite.rs',T+'tuple.rs',T+'sequence.rs',T+'bit_sequence.rs',T+'str.rs'],
 [('every read goes through checked codec decodes and bounds checks',D),('length and field count checks before expect()',I),('length check in generated code before vals.next().expect()',M)],
 ['DecodeAsType::decode_as_type','decode_with_visitor','DecodeAsFields::decode_as_fields'])
p('C02','Memory and work are bounded by the bytes actually present',
 'Decoding attacker-chosen bytes allocates memory, and performs steps, at most in proportion to the number of bytes actually present (for a fixed type description): a claimed sequence, string or bit-sequence length that the input does not back up leads to an error without first reserving or doing work for the claimed length.',
 ['inputs'],'every byte string, in particular huge claimed lengths (known finding: sequences of items that take no bytes)',
 'No test measures memory or steps, and a length prefix near 2^32 or 2^64 with no data behind it is not something the tests contain.',
 [T+'sequence.rs',T+'bit_sequence.rs',T+'str.rs',I],
 [('items are decoded lazily, collected without reserving the claimed length',I),('string length is checked against the bytes left before slicing',T+'str.rs'),('bit sequence decoder checks the length before reading',T+'bit_sequence.rs')],
 ['DecodeAsType::decode_as_type','decode_with_visitor','peak heap use'])
p('C03','A successful decode consumes exactly the encoding of the value',
 'When decoding one value succeeds, the input slice is left pointing exactly after the bytes of that value: the number of bytes consumed is the one the SCALE encoding of the described type prescribes, for every type description and target. The bytes that follow never influence the value or the consumption: with any suffix appended the same value is produced and exactly that suffix remains.',
 inp,'every byte string, type description, target type, and suffix',
 'The tests mostly decode one value from a buffer that ends with it, so consuming too little, or depending on what follows, goes unseen.',
 [D,T+'composite.rs',T+'tuple.rs',T+'sequence.rs',T+'array.rs',T+'variant.rs',T+'bit_sequence.rs',T+'str.rs'],
 [('items left over are skipped and the cursor moved after them',D),('bytes_after',T+'str.rs')],
 ['DecodeAsType::decode_as_type','decode_with_visitor','the input slice afterwards'])
p('C04','Agreement with parity-scale-codec and scale-info',
 'For a Rust type with a codec encoding and scale-info type information, decoding by type information agrees with the codec: whenever parity-scale-codec decodes some bytes as that type, decoding those bytes into the same type by the registered type information gives an equal value and leaves the same number of bytes unread. Encoding any value and decoding it back by type information gives that value.',
 inp,'every byte string the codec accepts, for a spread of types: integers, compacts, strings, options, results, tuples, arrays, sequences, nested structs and enums, bit sequences',
 'The tests round-trip a handful of hand-picked values; agreement has to hold for every encoding, including unusual ones the codec accepts.',
 [D,I,M],[('type-directed decoding using the codec for leaves',D),('derived implementations',M)],
 ['DecodeAsType::decode_as_type','codec::Decode::decode'])
p('C05','Integers convert exactly or fail with an out-of-range error',
 'Decoding any integer type (u8..u128, i8..i128, compact or not) into any integer target (u8..u128, i8..i128, usize, isize and the NonZero types) gives exactly the encoded mathematical value if the target can hold it. Otherwise the decode fails with a number-out-of-range error: it never wraps, truncates, changes sign or yields a zero NonZero.',
 ['inputs'],'every value of every source integer type, against every target integer type',
 'The tests convert a few small constants; the interesting inputs are the boundary values of 140 source and target pairs.',
 [I,D],[('number visitor methods use checked conversion',I),('primitive dispatch',D)],['DecodeAsType::decode_as_type'])
p('C06','Compact encoding is transparent for wrappers and refused elsewhere',
 'A compact-encoded unsigned integer decodes to the same value however deep it is wrapped, on the encoded side in single-field structs and 1-tuples described as compact, and on the target side in the plain integer, Compact, single-field wrappers, 1-tuples and pointer types. Only the canonical (shortest) compact form is accepted, and a value outside the described width is an error. Describing anything that is not an unsigned integer (directly or through single-field wrappers) as compact makes decoding fail, whatever bytes are given.',
 inp,'every byte string, every described type under a compact type, every nesting of wrappers, several targets',
 'A few compact constants in one or two nestings are tested; refusal is not tested for most types, nor non-canonical forms.',
 [D,T+'composite.rs',T+'tuple.rs',I],
 [('is_compact is handed down to the single item',T+'composite.rs'),('error when a type cannot be compact',D)],
 ['DecodeAsType::decode_as_type','decode_with_visitor'],[('is_compact','whether the next value is compact encoded',T+'composite.rs')])
p('C07','A visitor is shown the right callback, value and type ID',
 'For every kind of type exactly the visitor method for that kind is called, with the decoded value (sign, endianness, signedness, char validity and item order as the SCALE encoding says) and with the ID of the type being visited (for compact types, the ID of the inner type). Bytes that are no valid encoding of the type lead to an error rather than a callback with an invented value.',
 inp,'every byte string and every kind of described type, nested',
 'The tests visit one value per kind; wrong dispatch or a wrong type ID on rarely used kinds (i256, char, 64-bit bit sequences, compact inside containers) would go unseen.',
 [D,V],[('one arm per primitive and kind',D),('default visitor methods',V)],['Visitor methods','decode_with_visitor'])
p('C08','The cursor is right however much of a value a visitor consumes',
 'A visitor may decode all, some or none of the items of a composite, tuple, sequence, array, variant or bit sequence, decode them in any of the offered ways, and ignore errors of individual items: what is decoded after that value is still read from the right position. That is, whenever the bytes are a valid encoding, the input is left exactly after the value, whatever the visitor did and whether it succeeded or returned its own error.',
 ['inputs','histories'],'every byte string and every sequence of partial reads by the visitor, nested',
 'Each partial read pattern is a different history; the tests cover reading everything, or one skipped field.',
 [D,T+'composite.rs',T+'tuple.rs',T+'sequence.rs',T+'array.rs',T+'variant.rs',T+'bit_sequence.rs'],
 [('skip_decoding after the visitor returns',D),('skip_decoding per container',T)],
 ['decode_with_visitor','the input slice afterwards'],[('item_bytes','where the next un-decoded item starts',T+'composite.rs')])
p('C09','Container views report the right remainder, bytes and items',
 'While a container is being decoded, its remaining count is the number of items not decoded yet, its bytes from the start begin at the value, its un-decoded bytes begin at the next item, and each item exposes its name, type ID and exactly its own encoded bytes, which together are contiguous and cover the value. Viewing the remaining fields as a tuple shows the same remaining items, and decoding an item later from its view gives what decoding it directly gives, compact-encoded items included.',
 ['inputs','histories'],'every byte string, every container kind and every number of items already decoded',
 'The tests look at whole containers; the views in the middle of a container, and re-decoding from them, are hardly exercised.',
 [T+'composite.rs',T+'tuple.rs',T+'sequence.rs',T+'array.rs',T+'variant.rs',T+'bit_sequence.rs',T+'str.rs'],
 [('item byte ranges by difference of cursors',T+'composite.rs'),('as_tuple',T+'composite.rs'),('field view decodes with is_compact',T+'tuple.rs')],
 ['Composite, Tuple, Sequence, Array, Variant, BitSequence, Str methods'])
p('C10',"A visitor's own error is what is returned",
 "If a visitor method returns an error, decoding returns that very error, even if skipping the rest of the value fails as well because the bytes are malformed. An error raised inside a nested item that the visitor passes on is likewise returned unchanged; if the visitor succeeds but the rest of the value cannot be skipped, decoding fails with the decode error.",
 inp,'every byte string (malformed tails in particular), container kind, and point at which the visitor fails',
 'One malformed constant per container kind is tested; the bit sequence, string and fields entry points are not.',
 [D,I,M],[('visitor errors are preferred over skip errors',D),('same in decode_as_fields',I),('same in generated code',M)],['decode_with_visitor','DecodeAsFields::decode_as_fields'])
p('C11','Enum variants are found by index on the wire and by name in the target',
 'The variant is the one whose index equals the first byte (any of 0..=255, in any order of declaration); if there is none decoding fails with the variant-not-found error carrying that index. The target enum variant (also Option, Result) is the one with the same name, irrespective of position and index, and gets the fields of that variant; if the target has no variant of that name, or that variant takes unnamed fields and their number differs, decoding fails rather than choosing another variant.',
 inp,'every byte string, variant tables with arbitrary indices, targets with reordered, missing or extra variants',
 'The tests use default consecutive indices and a few variants; index and position coincide there.',
 [T+'variant.rs',I,M],[('variant lookup by index',T+'variant.rs'),('Option and Result by variant name',I),('generated name comparison',M)],['DecodeAsType::decode_as_type','visit_variant'])
p('C12','Named fields are matched by name',
 'A struct or struct variant with named fields decodes from a type with named fields by name: each field gets the value of the same-named encoded field, whatever the order, extra encoded fields are ignored but consumed, and a missing one is a cannot-find-field error naming it. Target fields marked as skipped take their default value and need not be present in the encoded type.',
 inp,'every byte string, every order and subset of encoded fields, over derived structs with and without skipped fields',
 'The tests contain one reordering and one skip; each combination of order, extras, skips and nesting is a different path through the generated code.',
 [M,T+'composite.rs'],[('map from names to fields in generated code',M),('field views',T+'composite.rs')],['derived DecodeAsType and DecodeAsFields'])
p('C13','Tuples and unnamed fields are matched by position and count',
 'A tuple or tuple struct (up to 20 entries) decodes from a tuple or composite with the same number of items, item by item in order, whether the encoded fields are named or not; a struct with named fields decodes from unnamed ones by position. If the number of (non-skipped) fields differs decoding fails with a wrong-length error giving both lengths, except that a 1-tuple also decodes from its inner type directly.',
 inp,'every byte string, source and target arities 0 to 20, skipped fields',
 'Tests reach arity 5 and equal lengths, mostly.',
 [I,M,T+'tuple.rs'],[('length check and positional decode',I),('length check in generated code',M)],['DecodeAsType::decode_as_type'])
p('C14','Sequences, arrays and collections hold all items in order',
 'A sequence or array of the described type decodes into a vector, deque, linked list, fixed-size array, heap or set with every item, each decoded as if on its own, in order (up to the ordering the collection imposes). A fixed-size target of another length is a wrong-length error giving both lengths; the claimed length is honoured exactly, including zero and lengths whose prefix takes more than one byte.',
 inp,'every byte string; source sequences and arrays up to stated lengths; all collection targets',
 'Tests use lengths of three to five and u8 or u16 elements.',
 [I,T+'sequence.rs',T+'array.rs'],[('item iterator collected',I),('length prefix',T+'sequence.rs'),('array length check',I)],['DecodeAsType::decode_as_type'])
p('C15','Single-field wrappers are transparent',
 'A value wrapped in any nesting of single-field structs (named or not) and 1-tuples decodes into the bare target type exactly as the unwrapped value would, for primitives, strings, bit sequences, collections, options, results and derived enums. Wrappers with zero or several fields are refused with an error, never decoded from the wrong field.',
 inp,'every byte string, nestings of wrappers, leaf and collection targets',
 'A few wrappers around u8 and similar are tested.',
 [I,M],[('single-field fallback of composite and tuple',I),('same in generated enum visitor',M)],['DecodeAsType::decode_as_type'])
p('C16','Strings are exactly the UTF-8 bytes encoded',
 'A described string decodes to exactly the bytes of the encoded length if they are valid UTF-8, and fails with an invalid-string error otherwise; a length the input does not back up is an error. The string view gives the right byte length, borrows from the input, and points at the right bytes before and after.',
 ['inputs'],'every byte string up to the stated length, plus lengths with two- and four-byte prefixes',
 'A proptest checks absence of panics on random bytes; nothing compares content for multi-byte or invalid sequences or long strings.',
 [T+'str.rs',I],[('length prefix and checked slicing',T+'str.rs'),('String target',I)],['String, Cow<str> targets','Str view'])
p('C17','Bit sequences decode in all store and order formats',
 'For each store width (8, 16, 32, 64) and bit order (least or most significant first) the decoded bits are those the format puts in the store words, exactly as many as encoded, unused bits of the last word ignored. The cursor ends after the last store word whether the visitor decodes the bits, skips them or fails, and truncated or oversized lengths are errors.',
 ['inputs'],'every byte string up to the stated length, all eight formats, bits read or skipped',
 'The tests use a few constants per format and do not follow the sequence by more data in most.',
 [T+'bit_sequence.rs',I,D],[('decoder by format',T+'bit_sequence.rs'),('cursor after bit sequence',D)],['Bits target','BitSequence view'])
p('C18','Every truncation of a valid encoding is rejected',
 'If some bytes are exactly the encoding of a value of the described type, then decoding any proper prefix of them fails, whatever the target or visitor (even one that ignores the value); no partial value is ever returned as if it were whole.',
 inp,'every encoding up to the stated length and each of its prefixes, all kinds of types, ignoring and reading visitors',
 'Tests truncate nothing except in two or three error-priority cases.',
 [D,V,T+'str.rs',T+'sequence.rs',T+'bit_sequence.rs'],[('skipping decodes the rest and reports its errors',D),('ignore visitor',V)],['decode_with_visitor','DecodeAsType::decode_as_type'])
p('C19','Decoding from a field list agrees with decoding the composite',
 'Decoding a tuple or derived struct from an explicit list of fields gives the same value, the same success or failure, and the same consumption as decoding it from a composite type with those fields; on success the input is left exactly after the last listed field, extra fields included.',
 inp,'every byte string and field list (named, unnamed, reordered, extra), over tuples and derived structs',
 'Two field lists are tested.',
 [I,M,L],[('decode_as_fields for tuples',I),('generated decode_as_fields',M)],['DecodeAsFields::decode_as_fields'])
p('C20','Errors name the place they happened',
 'When bytes that are a valid encoding of the described type do not fit the nested target, the context of the error lists exactly the positions that lead to the item that does not fit, innermost first: a field name for a named struct field or map entry, an index for a tuple, tuple-struct, sequence or array item, a variant name for an Option or Result payload (nothing for single-field wrappers). The kind of error is that of the item itself, and it is the first such item in the order of the target. Locations added to an error stay in the order they were added, are shown separated by dots (index in brackets, variant in parentheses), and leave the kind as it is.',
 inp,'every valid encoding that does not fit, over nested targets',
 'No test looks at the context of an error.',
 [C,E,I,M],[('at_field, at_idx, at_variant',E),('context path',C)],['Error::context, Error::kind'],[('Context','path to the failing item',C)])
p('C21','Standard wrappers decode like what they wrap',
 'Box, Rc, Arc, Cow and Compact of a type decode exactly when that type does, to the same value with the same consumption; Range and RangeInclusive decode like a pair (start then end), Duration like the pair of seconds and nanoseconds (an error if out of range), the fixed-hash types like a byte array of their size, and PhantomData like an empty tuple.',
 inp,'every byte string and described type against each wrapper and its inner type',
 'One constant per wrapper is tested.',
 [I,P],[('forwarding visitors',I),('fixed hashes',P)],['DecodeAsType::decode_as_type'])
p('C22','String-keyed maps collect named fields',
 'Decoding a composite into a string-keyed map gives one entry per named field with that field decoded, in which unnamed fields are passed over but consumed and for equal names the last wins. A field that does not decode into the value type is an error; anything that is not a composite is an error.',
 inp,'every byte string, composites with named, unnamed and repeated names',
 'One test with two fields.',
 [I],[('map visitor',I)],['BTreeMap<String, T> target'])
p('C23','Custom visitor hooks behave as documented',
 'A visitor that takes over the decoding of a value is called before anything is read, with the same input, and its result is used as it is, at top level and for nested items, and so is its consumption wherever the value is decoded directly (an item that is first looked at and decoded later, as derived structs do, is passed over by its described type); one that declines is then visited as usual. Any value kind a visitor does not handle reaches its catch-all exactly once with the right kind, and wrapping a visitor so as to return another error type changes nothing but the error type.',
 ['inputs','programs'],'every byte string and kind of value, visitors overriding different subsets of methods',
 'One bailout test and one error-wrapper test exist, for two types.',
 [V,D],[('bail-out before dispatch',D),('default methods forward to the catch-all',V),('error-converting wrapper',V)],['Visitor trait'])
p('C24','Unusable type information is reported as an error',
 'If a type ID cannot be resolved, resolves to nothing, or the resolver fails, at top level or anywhere a nested value of that type has to be decoded or skipped, decoding fails with the corresponding type error and never returns a value. Parts of the type information that the given bytes do not need (an unused variant, the element type of an empty sequence) do not matter.',
 inp,'every byte string and placement of the unusable type ID',
 'No test decodes with a missing or failing type.',
 [D,V],[('not found and unhandled kinds',D),('resolver errors',D)],['decode_with_visitor','DecodeAsType::decode_as_type'])
p('C25','Results do not depend on type IDs, type paths or the resolver',
 'Two type descriptions that differ only in the numbers used as type IDs, in sharing of equal types, in type and module names, or in which resolver holds them (a scale-info registry or another) decode every byte string to the same value or both fail, with the same consumption.',
 inp,'every byte string, pairs of equivalent descriptions',
 'The tests use one registry per test.',
 [D,V,T+'composite.rs'],[('everything is driven by the resolved shape',D)],['decode_with_visitor','DecodeAsType::decode_as_type'])
p('C26','Recursive types cannot exhaust the stack',
 'Decoding or skipping bytes of a recursive type description (a list or tree type) needs an amount of stack that is bounded independently of the bytes given.',
 ['inputs'],'every byte string of any length, recursive type descriptions',
 'A test would need an input of many megabytes and a particular stack size.',
 [D,V],[('none: decoding recurses over the type description',D)],['process stack'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in out))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in out: jsonschema.validate(d,s)
print(len(out))
