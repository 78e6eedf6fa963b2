"""Writes properties.jsonl (development tool)."""
import json, os
INC = 'include/'
RD = [INC + 'cast/struct_cast_impl.hpp', INC + 'field_read/field_reader.hpp', INC + 'field_read/read_impl.hpp']
WR = [INC + 'cast/stream_cast_impl.hpp', INC + 'field_write/field_writer.hpp', INC + 'field_write/write_impl.hpp']
DV = [INC + 'field_write/derived_value.hpp']
rows = []


def P(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, title
    rows.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                     anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))


P('C01', 'Round trip: write then read, and read then write',
  'Whatever a cast writes successfully, the same schema and byte order reads back to the same field values, consuming exactly the bytes written (provided every container is within its allocation ceiling and every value fits its declared width). Whatever a cast reads successfully, it writes back to exactly the bytes consumed.',
  ['inputs', 'programs'], 'every well-formed schema, every value and every wire, both byte orders',
  'The tests round-trip a few hand-picked schemas with one value each; the law quantifies over schema compositions and values, and breaks on combinations no test lists.',
  RD + WR + DV, [('read fold', 'include/cast/struct_cast_impl.hpp'), ('write fold', 'include/cast/stream_cast_impl.hpp'), ('derived and frozen values', 'include/field_write/derived_value.hpp')],
  ['struct_cast_le/be result', 'stream_cast_le/be result and bytes'])
P('C02', 'Byte-exact encoding',
  'A successful write emits the fields in declaration order and nothing else: scalars as the low-order bytes of their declared width in the requested order, containers and arrays element by element, fixed strings with their terminator, absent optionals as nothing, the held alternative of a union, nested records in place. Bytes already in the stream are untouched.',
  ['inputs', 'programs'], 'every schema and every writable value, both byte orders, every declared width and container length',
  'The tests assert the bytes of a few values; a wrong byte at one width, element size, nesting or length is invisible to them.',
  WR + [INC + 'lib/memory/address_manip.hpp', INC + 'stream/byte_order.hpp'],
  [('write_impl: native and foreign scalar and buffer paths', 'include/field_write/write_impl.hpp'), ('const_byte_addressof', 'include/lib/memory/address_manip.hpp')],
  ['bytes received by the output stream'])
P('C03', 'Decoding conformity and exact consumption',
  'Reading a well-formed wire gives every field the value its bytes encode — a width narrower than the type is zero-extended, a bool is one byte 0 or 1 (any other is refused with validation_failure), sequences have exactly the length their size source gives — and leaves the stream just past the last byte of the record, whatever precedes or follows it.',
  ['inputs', 'programs'], 'every schema and every valid wire, both byte orders, any prefix and suffix',
  'Tests decode single examples; no test looks at trailing bytes or at the cross product of element types, widths and sizes.',
  RD + [INC + 'lib/memory/address_manip.hpp', INC + 'lib/memory/bit.hpp'],
  [('read_impl', 'include/field_read/read_impl.hpp'), ('read_field', 'include/field_read/field_reader.hpp'), ('byteswap_elements', 'include/lib/memory/bit.hpp')],
  ['struct_cast result', 'stream position after the cast'])
P('C04', 'Byte-order duality',
  'The little- and big-endian casts of one schema are mirror images: for any value they succeed or fail alike (same reason, same field), the big-endian bytes are the little-endian ones with every scalar reversed over its declared width, and each reader decodes its own mirror to the same values. Strings and single bytes are never reversed.',
  ['inputs', 'programs'], 'every schema, value and wire; all scalar widths 1 to 8, arrays of any dimension, vectors, nested records',
  'Tests exercise big-endian for a few full-width fields; narrow widths, multi-dimensional arrays and nested containers in foreign order are unvisited.',
  [INC + 'field_read/read_impl.hpp', INC + 'field_write/write_impl.hpp', INC + 'stream/byte_order.hpp', INC + 'lib/memory/bit.hpp'],
  [('read_foreign_scalar / read_foreign_buffer', 'include/field_read/read_impl.hpp'), ('write_foreign_scalar / write_foreign_buffer', 'include/field_write/write_impl.hpp')],
  ['struct_cast_le vs struct_cast_be', 'stream_cast_le vs stream_cast_be'])
P('C05', 'Every truncation is reported as exhaustion at the right field',
  'Cutting a valid wire anywhere before its end makes the read fail with buffer_exhaustion naming the top-level field whose bytes are incomplete; it never succeeds, never blames another field and never reports another reason. The stream is not used again after it has failed.',
  ['inputs', 'fault_sequences'], 'every schema, every valid wire, every cut point, streams that deliver a partial tail and streams that do not',
  'Tests cut a handful of wires at one place each.',
  RD, [('stream state test after each read', 'include/field_read/read_impl.hpp'), ('fold stops at the first error', 'include/cast/struct_cast_impl.hpp')],
  ['struct_cast error reason and failed_at'])
P('C06', 'Constraints hold in both directions, exactly',
  'A field with a constraint is read or written only if its value satisfies it — compared as the numbers and sequences they are, whatever type the constant was written in, for scalars, arrays, strings, containers, records, union alternatives and unions — and is otherwise refused with validation_failure at that field; a value that satisfies it is never refused for it.',
  ['inputs', 'programs'], 'every constraint kind (eq, neq, lt, gt, lte, gte, any_of, callable) over every field kind, every value including boundaries, both directions',
  'Tests check one accepted and one rejected value per constraint; off-by-one, signedness and lexicographic mistakes lie between.',
  [INC + 'field_validation/field_value_constraints.hpp', INC + 'cast/struct_cast_impl.hpp', INC + 'cast/stream_cast_impl.hpp', INC + 'field_write/field_writer.hpp'],
  [('constraint functors', 'include/field_validation/field_value_constraints.hpp'), ('constraint step of the folds', 'include/cast/')],
  ['cast error reason and failed_at'])
P('C07', 'Magic and frozen fields always carry their constant',
  'A field fixed to one value by its schema (a magic number, bytes or string, or an equality constraint on a fixed-size member) is always written as exactly that value, whatever the object was read from or how it was built, and is accepted on read only if the wire holds exactly that value; a union alternative\'s equality is checked, not substituted.',
  ['inputs', 'programs', 'histories'], 'every frozen field kind, type and width, every wire at that position, objects fresh, read or reused',
  'Tests pin a few magic values with matching and one mismatching wire.',
  [INC + 'field/field_traits.hpp', INC + 'field_write/field_writer.hpp', INC + 'api/field_descriptors.hpp', INC + 'lib/containers/fixed_string.hpp'],
  [('frozen_value_of / is_frozen_target', 'include/field_write/derived_value.hpp'), ('magic_* descriptors', 'include/api/field_descriptors.hpp')],
  ['bytes written', 'struct_cast error'])
P('C08', 'Lengths are derived from their containers on write',
  'A field that gives a container\'s length is written as the container\'s current size, independent of anything stored or read earlier, and must satisfy its own constraint; when containers sharing it differ the write fails with found_contradicting_length, and when its slot cannot hold the size with validation_failure, in both cases at the length field and before it is written.',
  ['inputs', 'programs', 'histories'], 'every schema with direct length dependencies, every assignment of container sizes, all slot types and widths',
  'Tests use one or two containers with small sizes; sharing, width limits at 2^8, 2^16 and stale slots are combinations.',
  DV + [INC + 'field_write/field_writer.hpp', INC + 'field_list/field_list_metadata.hpp'],
  [('derive_value', 'include/field_write/derived_value.hpp'), ('is_derived_field', 'include/field_list/field_list_metadata.hpp')],
  ['bytes written', 'stream_cast error'])
P('C09', 'Conditional and computed lengths are verified on write',
  'When a length field is used only by optionals or union alternatives, or a container\'s size is computed from other fields, the stored values are written unchanged but the write fails with found_contradicting_length unless every container that will actually be written agrees (validation_failure if the agreed length does not fit its slot); containers that will not be written impose nothing. Callables see the values being written.',
  ['inputs', 'programs'], 'every schema with lengths used under maybe/union or computed by callables, every combination of presence, held alternative and sizes',
  'The interaction of presence, alternatives, sharing and computed sizes is combinatorial; tests hold a few points.',
  DV + [INC + 'field_write/field_writer.hpp', INC + 'field_size/field_size_deduce.hpp', INC + 'field_compute/computation_from_fields_impl.hpp'],
  [('verify_conditional_len', 'include/field_write/derived_value.hpp'), ('computed size check', 'include/field_write/field_writer.hpp')],
  ['stream_cast error and bytes'])
P('C10', 'Unions: the wire selects, the held alternative is written',
  'On read the alternative is the one whose case equals the discriminant (or computed value), or the first true branch of a ladder, and none is type_deduction_failure at the union with nothing of it consumed. On write a matched discriminant is derived from the held alternative; for computed and ladder unions a held alternative the siblings do not select is refused, and the alternative written is always the held one.',
  ['inputs', 'programs'], 'every union form, any number and kind of alternatives, every discriminant value and held alternative',
  'Tests cover a few two- or three-way unions; case order, overlapping branches, many alternatives and negative or wide case values are open.',
  [INC + 'type_deduction/type/type_impl.hpp', INC + 'type_deduction/switch/switch_impl.hpp', INC + 'type_deduction/if_else_ladder/ladder_impl.hpp', INC + 'field_read/field_reader.hpp', INC + 'field_write/field_writer.hpp'] + DV,
  [('deduce_type', 'include/type_deduction/type/type_impl.hpp'), ('discriminant_obligation', 'include/field_write/derived_value.hpp')],
  ['variant index and content', 'bytes written', 'cast errors'])
P('C11', 'Optionals are present exactly when their predicate says so',
  'On read an optional is engaged, and its bytes consumed, exactly when its predicate over the earlier fields is true; otherwise it is empty and consumes nothing. On write an object whose optional disagrees with the predicate over the values being written is refused with validation_failure at the optional, and an absent one contributes no bytes.',
  ['inputs', 'programs'], 'every predicate over any earlier fields (scalars, containers, records, optionals, unions), every base field kind',
  'Tests use single-field equality predicates on scalars.',
  [INC + 'field_compute/computation_from_fields_impl.hpp', INC + 'field_read/field_reader.hpp', INC + 'field_write/field_writer.hpp'],
  [('compute_impl', 'include/field_compute/computation_from_fields_impl.hpp'), ('optional read/write', 'include/field_read/field_reader.hpp')],
  ['optional state', 'stream position', 'stream_cast error'])
P('C12', 'Wire lengths cannot allocate past their ceiling',
  'A length read from the wire whose element count times in-memory element size exceeds the field\'s ceiling (declared, or the build-wide default) is refused with excessive_length at that field, before any of it is read and without an allocation of that size; a length at or below the ceiling is never refused for it. No product of length and element size wraps.',
  ['inputs', 'configurations'], 'every container kind and position (direct, optional, alternative, of records), every ceiling including 0 and the default, all 64-bit lengths',
  'Tests sit one value each side of a few ceilings; overflow and element-size interplay need the whole range.',
  [INC + 'field_read/read_impl.hpp', INC + 'field_read/field_reader.hpp', INC + 'field_size/field_size.hpp', INC + 'field/field_options.hpp'],
  [('checked_byte_count', 'include/field_read/read_impl.hpp'), ('bound_in_bytes / default_max_bytes', 'include/field_size/field_size.hpp')],
  ['struct_cast error', 'largest allocation made during the cast', 'stream position'])
P('C13', 'A write stops at the first failure and leaves an exact prefix',
  'When a write fails — a refused value or a stream that takes no more bytes — the stream has received exactly the encoding of the fields before the failing one (for a refusing stream, at most what it accepted), a stream refusal is buffer_exhaustion at the field being written, and nothing is sent after the failure.',
  ['fault_sequences', 'inputs', 'programs'], 'every schema and value, a refusal at every byte offset, streams that accept a partial write and streams that do not, refused values at every field',
  'Tests fail one write at one place.',
  WR, [('fold stops at the first error', 'include/cast/stream_cast_impl.hpp'), ('stream state test after each write', 'include/field_write/write_impl.hpp')],
  ['bytes received by the stream', 'calls made on the stream after failure', 'stream_cast error'])
P('C14', 'Errors name the first failing field and the right reason',
  'A failing cast reports the reason and the id of the outermost field of the record that failed first in declaration order; within a field, running out of bytes precedes its constraint, an alternative\'s constraint precedes the union\'s, and a field after the failing one never influences the result.',
  ['inputs', 'programs'], 'every schema, wires and values with any number of simultaneous faults, both directions',
  'Tests inject one fault at a time, into schemas where little else can fail.',
  [INC + 'error/cast_error.hpp', INC + 'cast/struct_cast_impl.hpp', INC + 'cast/stream_cast_impl.hpp', INC + 'field_read/field_reader.hpp', INC + 'field_write/field_writer.hpp'],
  [('error annotation in the folds', 'include/cast/')], ['cast_error::failure_reason', 'cast_error::failed_at'])
P('C15', 'No input makes a cast misbehave',
  'For any bytes whatever, and for any object a user can build, a cast terminates with a value or an error: no out-of-bounds access, no uninitialised read, no undefined arithmetic, no exception, no bool or other object holding a representation it cannot have, and the same answer every time.',
  ['inputs', 'programs'], 'arbitrary byte strings and objects, every schema, both directions, under address and undefined-behaviour sanitizers',
  'Tests run without sanitizers on well-formed data.',
  RD + WR + [INC + 'lib/memory/address_manip.hpp', INC + 'lib/containers/fixed_string.hpp'],
  [('byte_addressof', 'include/lib/memory/address_manip.hpp'), ('checked_byte_count', 'include/field_read/read_impl.hpp')],
  ['sanitizer reports', 'exceptions', 'results of repeated casts'])
P('C16', 'The stream type makes no difference',
  'The same bytes give the same result — values, error, position, bytes written — through any conforming stream: std string, file and custom-buffered streams, hand-written byte streams with or without partial transfers, and the constant-evaluation stream driven at run time. Afterwards the stream is in a failed state exactly when the operation ran out of bytes or room, and a stream that had already failed is reported as exhausted, with nothing read or written.',
  ['inputs', 'programs', 'configurations'], 'every schema, wire, value and capacity over every stream kind',
  'Tests use one stream type per test.',
  [INC + 'stream/stream_traits.hpp', INC + 'lib/memory/address_manip.hpp', INC + 'field_read/read_impl.hpp', INC + 'field_write/write_impl.hpp'],
  [('constexpr-stream and byte-stream overloads', 'include/field_read/read_impl.hpp, include/field_write/write_impl.hpp')],
  ['results across streams'])
P('C17', 'Constant evaluation gives the run-time result',
  'A cast evaluated by the compiler gives the value, error and bytes the same cast gives at run time, for every schema constant evaluation supports.',
  ['inputs', 'programs'], 'every schema, wire and value, success and every kind of failure, both directions and byte orders',
  'The stable suite\'s compile-time tests hold single examples, and no test compares the two modes.',
  [INC + 'field_read/read_impl.hpp', INC + 'field_write/write_impl.hpp', INC + 'lib/memory/address_manip.hpp', INC + 'lib/memory/bit.hpp'],
  [('as_byte_buffer / bit_cast path', 'include/lib/memory/address_manip.hpp')],
  ['static_assert over constant-evaluated casts'])
P('C18', 'Ill-formed schemas do not compile; well-formed ones do',
  'A schema is rejected at compile time when it repeats an id, names a field that does not exist, comes later or is the field itself, takes a length from something that is no integer field, repeats a match value or an alternative type of a union, gives an option twice or where it does not apply, leaves a container without a length, or declares a width wider than its type; the schema without that one mistake compiles.',
  ['programs'], 'generated schemas, each with a single planted mistake, next to the same schema without it',
  'Compile-fail tests hold one tiny schema per rule.',
  [INC + 'api/struct_field_list.hpp', INC + 'api/field_descriptors.hpp', INC + 'field/field_options.hpp', INC + 'field_list/field_list_metadata.hpp', INC + 'field_list/field_list.hpp', INC + 'type_deduction/switch/switch_traits.hpp'],
  [('requires clauses of struct_field_list', 'include/api/struct_field_list.hpp'), ('option pack checks', 'include/field/field_options.hpp')],
  ['whether the compiler accepts the program'])
P('C19', 'Access by id: complete, isolated, and closed for derived fields',
  'Every field is reached by its id and an assignment through it changes that field only; fields that give a container\'s length are not accessible at all, discriminants and frozen fields are readable but not assignable, all others are assignable, and a const object is readable but never assignable.',
  ['programs', 'histories', 'inputs'], 'every schema, ids including ones that are prefixes of one another, every sequence of assignments',
  'Tests try a few ids on small records.',
  [INC + 'field_list/field_list.hpp', INC + 'field_list/field_list_metadata.hpp', INC + 'lib/containers/static_map.hpp', INC + 'lib/containers/fixed_string.hpp'],
  [('operator[] and its constraints', 'include/field_list/field_list.hpp'), ('lookup_field', 'include/field_list/field_list_metadata.hpp')],
  ['whether obj[id] and assignment compile', 'values seen through obj[id]'])
P('C20', 'Spelling does not matter',
  'Options may be given in any order, and a default written out or an alias used in place of the longer form makes no difference: two spellings of a schema accept the same operations and behave identically on every wire and value.',
  ['programs', 'inputs'], 'generated schemas in random pairs of spellings',
  'Tests spell each schema one way.',
  [INC + 'field/field_options.hpp', INC + 'api/field_descriptors.hpp', INC + 'type_deduction/utils/type_tags.hpp', INC + 'field_size/field_size.hpp'],
  [('option pack resolution', 'include/field/field_options.hpp')], ['behaviour of the two spellings'])
P('C21', 'Histories: casts compose on one stream and on one object',
  'Records written back to back on one stream, in any mix of byte orders, are read back one after another, each cast starting where the last stopped. An object that is read, copied, assigned field by field, reused and rewritten always writes what its current field values mean, and copies are independent.',
  ['histories', 'inputs', 'programs'], 'every sequence of writes, reads, assignments, copies over every schema',
  'Tests perform one cast per object and stream.',
  RD + WR + DV + [INC + 'field_list/field_list.hpp'], [('casts keep no state of their own', 'include/cast/')],
  ['bytes on the stream', 'field values', 'stream position'])
P('C22', 'Writing is pure and sees only the current values',
  'A write does not change its object, depends only on the object\'s assignable values and the byte order, and repeats identically: leftovers in lengths, discriminants and frozen fields from an earlier read never reach the wire or a callable.',
  ['histories', 'inputs', 'programs'], 'every object history, every schema, successful and failing writes',
  'Tests write each object once, freshly built.',
  WR + DV, [('written_values', 'include/field_write/derived_value.hpp'), ('const source', 'include/field_write/write_impl.hpp')],
  ['object before and after', 'bytes of repeated writes'])
P('C23', 'The single header is the library',
  'The shipped single header behaves exactly as the headers under include, needs no other file of the project, and the amalgamation script inlines each local header once and after every header it includes, keeps system includes and all other text, and gives the same output every time.',
  ['inputs', 'programs', 'configurations'], 'every schema, wire and value on the shipped header; every include graph for the script',
  'Tests only use the shipped header and never run the script or compare it with the sources.',
  ['single_header/s2s.hpp', 'scripts/amalgam.py', 'include/s2s.hpp'], [('amalgam.py', 'scripts/amalgam.py')],
  ['behaviour of programs built on the shipped header', 'preprocessed script output'])
P('C24', 'Nested records behave as they do alone',
  'A record inside a record, array, vector, optional or union reads and writes exactly the bytes it would on its own, sees only its own fields whatever the outer ids are, and its failure is the outer field\'s failure with the same reason.',
  ['programs', 'inputs'], 'every nesting, ids shared between levels, valid and corrupt inner bytes',
  'Tests nest one record once.',
  [INC + 'field_read/field_reader.hpp', INC + 'field_write/field_writer.hpp', INC + 'field_list/field_list.hpp'],
  [('nested casts', 'include/field_read/field_reader.hpp, include/field_write/field_writer.hpp')],
  ['casts of the inner and the outer record'])
P('C25', 'Casts do not interfere with one another',
  'Casts on streams and objects of their own are independent: run at the same time in several threads, or one from inside the stream another cast is using, each gives exactly the result, value, bytes and stream position it gives alone, and no two of them race on memory.',
  ['schedules', 'inputs', 'programs'], 'every schedule of casts on distinct streams and objects, every nesting of a cast inside another cast\'s stream, every schema, wire and value',
  'Tests run one cast at a time, on streams that do nothing else.',
  RD + WR + DV + [INC + 'type_deduction/switch/switch_impl.hpp', INC + 'type_deduction/if_else_ladder/ladder_impl.hpp'], [('casts keep no state outside the stream and the object', 'include/cast/, include/field_read/, include/field_write/')],
  ['results of casts run together and alone', 'data races seen by ThreadSanitizer'])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for r in rows:
        f.write(json.dumps(r) + '\n')
print(len(rows))
