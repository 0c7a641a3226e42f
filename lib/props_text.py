NOTE = ('Decided by enumerating every case within the stated bounds and comparing the real implementation step by step with '
        'an independent reference model (lib/ref.py, lib/fmt.py); nothing is claimed beyond the bounds. ')

prop('C01', 'Primitive value constraints are enforced exactly, in every context',
     'A value is accepted for a Boolean, Integer, Number, String or Binary type if and only if it has that type (booleans are not '
     'numbers) and satisfies the type\'s bounds, sizes (characters / bytes), anchored pattern (whose $ matches at the very end only) and, for defined types without a '
     'maximum, the configured or default maximum size. This holds alike for encoding and decoding, in all four serialization '
     'modes, whether the type is defined by name, given anonymously in a field, or used as an element, key, value or alternative. '
     'Everything else is rejected with a ValueError or TypeError.',
     ['inputs', 'configurations'], 'all option combinations, contexts of use, modes, and values around each bound or of a wrong type',
     'Tests check one or two values of a few bounded types in one mode each; the product of bounds, contexts, directions and modes is untested.',
     CODEC + TRANS, [('_check_range/_check_frange/_check_size/_check_pattern', D + 'codec/codec.py'), ('anonymous type unfolding', D + 'transform/transform.py')],
     NOTE + 'NaN/infinity and maximum size 0 are outside the domain.')
prop('C02', 'Format keywords accept exactly valid values with the standard text form',
     'For each format keyword, exactly the values valid under the format are accepted (sized integers, addresses, networks, EUI, UUID, '
     'tagged UUID, hostname, email, date, regex and the other JSON Schema string formats), and binary, network and millisecond-date '
     'values are written in the standard text form (base64url without padding, hex, dotted quad, RFC 5952, UUID, CIDR, RFC 3339) and read '
     'back to the identical value. Malformed text is rejected with a ValueError or TypeError.',
     ['inputs'], 'all values at and around every limit of every format, all short strings over small alphabets',
     'Tests use a handful of good and bad samples per format and miss whole years, prefix lengths and byte patterns.',
     FMT + CODEC, [('format tables', D + 'codec/format_serialize_json.py'), ('validators', D + 'codec/format_validate.py')],
     NOTE + 'String formats whose optional jsonschema package is not installed are only required to accept valid values.')
prop('C03', 'Enumerated and tagged Choice accept exactly their items and alternatives',
     'An Enumerated type accepts exactly its items and a tagged Choice exactly one of its alternatives with a valid value, identified by '
     'name, or by id if the type has the id option. On the wire the item or tag is the name when names are serialized and the id otherwise '
     '(always the id with the id option); the other representation is rejected.',
     ['inputs', 'configurations'], 'all item lists up to the bound, ids and names that look alike, modes, values',
     'Tests use one colour enumeration and one Choice; ids 0, non-contiguous ids, names that are digits and derived enumerations are not covered.',
     CODEC, [('eMap/dMap', D + 'codec/__init__.py'), ('_encode_choice/_decode_choice', D + 'codec/codec.py')], NOTE)
prop('C04', 'Untagged unions match any, all or exactly one alternative',
     'For a Choice with the combine option, a value is accepted by anyOf if some alternative accepts it (the first in definition order '
     'determines the result), by allOf if every alternative does, and by oneOf if exactly one does; otherwise it is rejected. This holds for '
     'encoding and decoding alike and for unions nested in other types.',
     ['inputs', 'configurations'], 'all ordered selections of alternatives out of 14 overlapping types x combine option x value pool x modes',
     'Tests exercise three fixed unions of integers/strings with a few values.',
     CODEC, [('union loop', D + 'codec/codec.py:_encode_choice')], NOTE + 'allOf/oneOf values whose alternatives serialize differently are not judged.')
prop('C05', 'Record, Map and Array accept exactly complete, known and allowed fields',
     'An instance of a Record, Map or Array is accepted if and only if every required field is present, every present field is valid, no '
     'unknown field or extra element is present, no field is given twice, and the number of present fields is within the size bounds. Absent optional fields keep the '
     'position of the fields after them, and trailing absent elements are not serialized.',
     ['inputs', 'configurations'], 'all required/optional patterns up to 4-5 fields x size bounds x all combinations of absent, valid, invalid and null fields x modes',
     'Tests cover a few instances of a few fixed types; presence patterns and size bounds are not combined.',
     CODEC, [('_encode_maprec/_decode_maprec/_encode_array/_decode_array', D + 'codec/codec.py')], NOTE)
prop('C06', 'ArrayOf, MapOf and multi-valued fields enforce size, uniqueness and elements',
     'A list or map is accepted for ArrayOf, MapOf or a multi-valued field if and only if its size is within the bounds (default: the configured '
     'maximum), every element, key and value is valid, and elements of unique or set types and keys are distinct. A multi-valued field has '
     'at least max(1, minimum) elements when present, and a map with enumerated keys has exactly the enumerated keys.',
     ['inputs', 'configurations'], 'all element/key types x size bounds x uniqueness options x all lists and maps up to the bound x modes',
     'Tests cover a few lists of one type; uniqueness of nested values, key validation and multiplicity ranges are sampled.',
     CODEC + TRANS, [('_encode_array_of/_decode_map_of', D + 'codec/codec.py'), ('unfold_multiplicity, unfold_map_of_enum', D + 'transform/transform.py')], NOTE)
prop('C07', 'Encoding then decoding returns the same value, for every nesting of types',
     'For every schema, mode and valid value, decoding the encoded value gives back an equal value of the same types, also after the '
     'encoded value has been written to and read from JSON text. Every encoded value can be written as JSON.',
     ['inputs', 'programs'], 'all chains of up to 3-4 type constructors above all leaf types, recursive types, all modes',
     'Round trips in the tests are single values of hand-written types, rarely through JSON text.',
     CODEC + FMT + TRANS, [('per-type encoder/decoder pairs', D + 'codec/codec.py')],
     NOTE + 'This check uses no model: it compares what is decoded with what was encoded.', 'bounded exhaustive exploration of round-trip traces on the real code')
prop('C08', 'The serialized form is the one the mode prescribes, at every level',
     'In each of the four modes, records are serialized as objects or arrays and fields, choices and enumerated items by names or ids as the '
     'mode says, at every nesting level; types with the id option always use ids. A value in the form of a different mode is accepted '
     'only where the forms coincide.',
     ['inputs', 'configurations'], 'all chains of 1-3 type constructors x leaf types x values x modes, with single edits of each form',
     'Tests compare some forms for a few types, one mode at a time.',
     CODEC, [('set_mode', D + 'codec/__init__.py'), ('encoders', D + 'codec/codec.py')], NOTE)
prop('C09', 'No argument makes the codec fail in an uncontrolled way or changes its inputs',
     'Whatever value is passed, encode and decode either return or raise ValueError or TypeError, for every type, type name and mode. They '
     'never modify their argument, and neither building nor using a codec modifies the schema it was given.',
     ['inputs'], 'all trees up to depth 2-3 over a pool of 28 atoms, and valid values with every node replaced by every atom, x types x modes',
     'Negative tests are individual values; the space of malformed messages is not enumerated.',
     CODEC + FMT, [('_check_type and raise_error', D + 'codec/codec.py')],
     'Exhaustive within the stated tree bounds; the only oracle is the kind of exception and the unchanged inputs.', 'bounded exhaustive exploration of inputs with an exception and aliasing monitor')
prop('C10', 'Codec results do not depend on history',
     'The result of encode or decode depends only on the schema, configuration, current mode and argument. It does not depend on earlier calls '
     '(accepted or rejected), mode changes, other codecs built on the same schema, or what the caller does with arguments and results of earlier calls.',
     ['histories'], 'all sequences of up to 3-4 operations out of 40+ on two codecs sharing a schema',
     'Tests create one codec per class and call it in a fixed order; interference needs particular call sequences.',
     CODEC, [('symbol table rebuilt by set_mode', D + 'codec/__init__.py')], NOTE, 'explicit enumeration of all operation histories, real codec vs. history-free model',
     state=[('symtab', 'derived per mode from schema and config', D + 'codec/__init__.py')])
prop('C11', 'Externally tagged fields follow their selector',
     'A field marked with a tag id is encoded and decoded as the alternative selected by the value of the tag field, in Records, Maps and Arrays, '
     'in any field order and every mode. A missing or unknown selector, or a value that is not valid for the selected alternative, is rejected.',
     ['inputs', 'configurations'], 'all containers, field orders, optionality patterns, kinds of selector, selector/value combinations and modes',
     'Tests have two example types; order of fields, optional selectors and id-based choices are not combined.',
     CODEC, [('cTag', D + 'codec/__init__.py:symf'), ('tagid handling', D + 'codec/codec.py')], NOTE)
CONV = [D + 'convert/utils.py']
prop('C12', 'check accepts exactly the well-formed schemas',
     'check returns a schema, with default columns filled in, if it is well formed, and raises an exception if it is not: option '
     'not allowed for the base type or with an invalid value or combination, unknown format, required option missing, duplicate or malformed '
     'type or field names and ids, tag reference to a missing field, wrong number or type of columns, malformed information. '
     'The content of an accepted schema is not changed.',
     ['inputs'], 'all option sets per base type and field type, ids and names per field list, and all single edits of base schemas',
     'Tests check a few bad schemas; the combination of base types and options and the malformed structures are not enumerated.',
     CORE + [D + 'definitions.py'] + UTIL, [('check', D + 'core.py'), ('ALLOWED_TYPE_OPTIONS/VALID_FORMATS', D + 'definitions.py')],
     NOTE + 'Compared with an independent definition of well-formedness (lib/wf.py), which abstains on repeated options and odd spellings of numbers.')
prop('C13', 'Unfolding extensions removes exactly the named ones and keeps every language',
     'unfold_extensions with any subset of the five extensions returns a well-formed schema without these extensions, in which every '
     'original type accepts, rejects, encodes and decodes exactly the same values as before, and types, fields and descriptions not '
     'concerned are unchanged. The argument is not modified, and unfolding again changes nothing.',
     ['inputs', 'configurations'], 'all sequences of up to 2-3 schema fragments with extensions x 32 extension subsets x values x modes; all field option sets',
     'Tests compare the result for a few schemas with all extensions; combinations of extensions, subsets and the accepted values are not covered.',
     TRANS, [('unfold_*', D + 'transform/transform.py')], NOTE + 'The reference model is bound to the codec by C01-C11; the codec is also run on the unfolded schema.')
prop('C15', 'The configuration in a schema governs its names, generated names and sizes',
     'The values of info.config ($TypeName, $FieldName, $NSID, $Sys, $MaxString, $MaxBinary, $MaxElements) and nothing else decide which type names, field names and namespace identifiers check accepts, '
     'what names generated types get, and which default sizes the codec applies; what is not configured keeps its documented default. '
     'A config argument of the codec overrides that of the schema, and one schema\'s configuration never affects another schema.',
     ['inputs', 'configurations'], 'enumerated patterns x names x places; separator characters x schema fragments x unfolded extensions; limits x sizes x types',
     'Tests use the default configuration and one changed limit; the interaction of patterns, limits and generated names is not covered.',
     CORE[:1] + UTIL + CODEC + TRANS + [D + 'transform/resolve.py'], [('check', D + 'core.py'), ('get_config', D + 'utils.py')], NOTE)
prop('C16', 'A schema written as JIDL and read back is the same schema',
     'For every well-formed schema (single line descriptions), writing it as JIDL in any column style and reading the text gives a schema with the same information, '
     'types, fields, ids, names, options (in any order) and descriptions, and writing that again gives the same text.',
     ['inputs', 'configurations'], 'all option sets per base and field type, multiplicities, texts over critical characters, numbers, names, ids, info, column styles',
     'Tests round trip a few example schemas; texts containing delimiters and rare option combinations are not covered.',
     [D + 'convert/jidl.py'] + UTIL + CONV, [('jidl_dumps/jidl_loads', D + 'convert/jidl.py'), ('typestr2jadn/jadn2typestr/fielddef', D + 'utils.py')],
     NOTE + 'Documents in the domain: single line descriptions without surrounding whitespace or leading //, item names without " //".', 'bounded exhaustive exploration of write/read traces on the real code')
prop('C17', 'A schema written as HTML and read back is the same schema',
     'For every well-formed schema (single line descriptions), writing it as an HTML document and reading the document gives a schema with the same information, types, fields, '
     'ids, names, options (in any order) and descriptions, and writing that again gives the same document.',
     ['inputs'], 'all option sets per base and field type, multiplicities, texts over critical characters, numbers, names, ids, information blocks',
     'Tests round trip a few example schemas; markup characters and rare option combinations are not covered.',
     [D + 'convert/html.py'] + UTIL + CONV, [('html_dumps/html_loads', D + 'convert/html.py'), ('typestr2jadn/jadn2typestr/fielddef', D + 'utils.py')],
     NOTE + 'Same document domain as C16.', 'bounded exhaustive exploration of write/read traces on the real code')
prop('C18', 'Schemas survive JSON text and files unchanged',
     'The JSON text written by dumps, and any file written by the dump functions for JADN, JIDL and HTML, reads back (load, loads, load_any and the format specific '
     'loaders, from a path or an open file) as the same schema: for JSON identical, including the order of options and of information, whatever characters its strings contain.',
     ['inputs', 'configurations'], 'enumerated schemas, all short strings over critical characters, formats, file kinds, source banners',
     'Tests write a few schemas without reading them back; strings with control characters, quotes and line separators are not covered.',
     CORE[:1] + [D + 'convert/jidl.py', D + 'convert/html.py'], [('dump/dumps/load/loads/load_any', D + 'core.py')],
     NOTE + 'A .jadn file with a source banner is read by load, not by other JSON readers.', 'bounded exhaustive exploration of write/read traces on the real code')
prop('C19', 'Canonical form keeps the meaning and is the same for every spelling',
     'canonicalize keeps the meaning of a schema, gives the same result for schemas that differ only in the order of options or in explicitly written '
     'defaults, does not change a canonical schema, and does not modify its argument.',
     ['inputs'], 'all option sets per base and field type x all permutations of options and spellings of defaults',
     'Tests canonicalize a few schemas before comparing them; permutations are not explored.',
     UTIL, [('canonicalize', D + 'utils.py')], NOTE)
prop('C20', 'Stripping comments affects only descriptions',
     'strip_comments removes every description of types, fields and items, or truncates it to the given width with an ellipsis, and changes nothing else: '
     'names, ids, options and information remain, and the argument is not modified.',
     ['inputs', 'configurations'], 'enumerated schemas x widths, descriptions of every length around the widths',
     'Tests strip one schema at one width.', TRANS, [('strip_comments', D + 'transform/transform.py')], NOTE)
prop('C21', 'Dependency analysis and topological order are correct for every type graph',
     'For every schema, the dependencies of each type are exactly the types it refers to in fields, elements, keys and derived enumerations; analyze reports exactly the unreferenced and '
     'undefined names; and the topological order lists each type reachable from the roots exactly once, with each type before '
     'the types it refers to unless they are in a cycle.',
     ['inputs'], 'all directed graphs of up to 3-4 types x roots, all kinds of reference',
     'Tests analyze a few schemas; cyclic graphs, several roots and rare kinds of reference are not covered.',
     UTIL + CORE[:1], [('topo_sort/build_deps', D + 'utils.py'), ('analyze', D + 'core.py')], NOTE)
prop('C22', 'Resolving imports yields a closed schema isomorphic to what the roots use',
     'resolve_imports returns a schema without references to other packages that contains exactly one copy of each type reachable from the roots across packages, '
     'each with its definition and options, every reference leading to the copy of the type it referred to, types of the root package keeping their names and '
     'no two types sharing one. The root schema is not modified.',
     ['inputs', 'configurations'], 'all import graphs over 3 packages with up to 3-5 references, kinds of reference, namespace ids, table forms, file formats, name collisions',
     'Tests resolve one set of packages; cyclic imports, equal names and clashing namespace ids are not covered.',
     [D + 'transform/resolve.py'] + UTIL, [('resolve_imports', D + 'transform/resolve.py'), ('merge/tname', D + 'transform/resolve.py')], NOTE)
CV = D + 'convert/'
prop('C23', 'The generated JSON Schema describes exactly the JSON messages of the schema',
     'For every well-formed schema, as written or with extensions unfolded, json_schema_dumps writes a valid, closed JSON Schema that has one definition per type, accepts every verbose '
     'JSON message the schema allows and rejects every message it does not allow for a reason expressible in JSON Schema. '
     'The whole document accepts what its root accepts, or an object with a member for any of its several roots, and carries the schema\'s information and descriptions.',
     ['inputs', 'configurations'], 'enumerated schemas x enumeration and import styles x generated valid messages and all single edits of them',
     'Tests compare the output for a few schemas with stored files; no message is ever validated against the result.',
     [D + 'translate/jsonschema_w.py'] + TRANS, [('json_schema_dumps', D + 'translate/jsonschema_w.py'), ('w_fdef/t_*', D + 'translate/jsonschema_w.py')],
     NOTE + 'Text format contents, sizes of Binary, the range of datetime-ms and the correlation of tag and alternative are not expressible and not required.')
prop('C24', 'Diagrams show exactly the types of a schema and their references',
     'For every well-formed schema and diagram style, diagram_dumps writes a well-formed GraphViz or PlantUML document with one node per type, showing its name and (as the '
     'detail demands) its fields with id, name, type, options and multiplicity, and one edge per reference between types with its label and multiplicity. '
     'No name, option or description in the schema breaks the document.',
     ['inputs', 'configurations'], 'enumerated schemas x formats x details x all combinations of the style flags',
     'Tests write a few diagrams and never read them back.',
     [CV + 'diagram_w.py'] + UTIL + CONV, [('diagram_dumps', CV + 'diagram_w.py')], NOTE + 'Documents are parsed with independent DOT and PlantUML parsers.',
     'bounded exhaustive exploration of write/read traces on the real code')
prop('C25', 'Markdown property tables contain the whole schema',
     'For every well-formed schema (single line descriptions), markdown_dumps writes tables from which all information, types, options, fields, ids, names, multiplicities, items and '
     'descriptions can be read back unchanged, whatever characters (bars, asterisks, quotes) they contain.',
     ['inputs'], 'enumerated schemas; all pairs of critical characters in descriptions, item names and patterns',
     'Tests write a few documents and never read them back.', [CV + 'markdown.py'] + UTIL + CONV, [('markdown_dumps', CV + 'markdown.py')], NOTE,
     'bounded exhaustive exploration of write/read traces on the real code')
prop('C26', 'Schema operations are pure and deterministic',
     'The result of every schema operation (check, analyze, dependencies, canonicalize, strip, unfold, resolve, all writers and readers, building and using a codec) depends only '
     'on its arguments: not on operations called before, on results the caller modified since, on the hash seed of the process, nor on styles of earlier calls. '
     'Arguments are not modified (check may normalise the types it is given to tuples).',
     ['histories', 'configurations'], 'all sequences of 2-3 of 39 operations on 3 schemas; all operations under 6-24 hash seeds',
     'Tests call each function once on fresh data in one process; shared defaults, caches and set iteration order only show in histories or under other hash seeds.',
     CORE[:1] + UTIL + TRANS + CONV + CODEC, [('opts_s2d/opts_d2s', D + 'utils.py'), ('default styles', CV + 'diagram_w.py'), ('Codec', D + 'codec/codec.py')], NOTE,
     'bounded exhaustive exploration of operation histories on the real code')
prop('C27', 'Options convert between strings, dictionaries and texts without loss',
     'For every option list that check accepts, in any order, the option dictionary, the option strings, the JIDL type string and the field text derived from it and from each other carry the same options, '
     'identifiers and values. Looking up, deleting and sorting options affects only the named ones, and unknown options raise an error.',
     ['inputs'], 'all well-formed option sets of up to 5 options per base type, all orders of up to 4, all field option sets and multiplicities',
     'Tests convert a few lists; combinations, orders and boundary values are not covered.',
     UTIL + CONV, [('opts_s2d/opts_d2s', D + 'utils.py'), ('jadn2typestr/typestr2jadn/jadn2fielddef/fielddef2jadn', D + 'convert/utils.py')], NOTE)
prop('C28', 'Any pipeline of transformations and round trips keeps a schema\'s meaning',
     'Starting from a well-formed schema, every sequence of canonicalizing, unfolding any extensions, stripping comments, resolving imports and writing and reading back as JSON, '
     'JIDL or HTML leads to a well-formed schema with the original types, in which every value is accepted, rejected, encoded and decoded as in the original. '
     'Extensions once unfolded do not come back, and descriptions change only by stripping.',
     ['histories', 'programs'], 'all pipelines of any length (reachable states up to the fixpoint) over 14 operations from every schema fragment with extensions',
     'Tests apply one operation to a schema; the composition of operations on each other\'s results is not explored.',
     TRANS + UTIL + CORE[:1] + [D + 'convert/jidl.py', D + 'convert/html.py', D + 'transform/resolve.py'], [('unfold_extensions', D + 'transform/transform.py'), ('canonicalize', D + 'utils.py')],
     NOTE, 'explicit-state search of the real operations to the fixpoint, invariant checked in every reachable state')
prop('C29', 'Operations in concurrent threads give the results of sequential execution',
     'When two threads use one codec (without changing its mode), separate codecs, or schema operations on the same or different schemas at the same time, every call returns or raises exactly '
     'what it does when the calls run one after the other, however the threads are interleaved.',
     ['schedules'], 'all pairs of operations in the bounds x every preemption at a source line executed by the package',
     'Tests run in one thread; a race shows only under particular interleavings.',
     CODEC + CORE[:1] + UTIL + TRANS + CONV, [('encode/decode use only the symbol table', D + 'codec/__init__.py'), ('no module-level working state', D + 'utils.py')],
     NOTE + 'Threads are switched between source lines, with one preemption (thorough: two for codec calls).', 'stateless exploration of thread schedules on the real code with a preemption bound')
prop('C30', 'Every well-formed schema can be used, and its codec implements it',
     'From every schema that check accepts a codec can be built, in every mode, and for every type the schema defines the codec accepts exactly the values and messages the definition describes, '
     'and decodes what it encodes to the same value. This holds for every combination of type options, field options, multiplicities, names, references and limits; '
     'references to other packages do not prevent the use of other types.',
     ['inputs', 'configurations'], 'enumerated schemas (all option sets, fields, names, references, limits) x types x generated values, their encodings and single edits x modes',
     'Tests build codecs for a few dozen hand-written schemas; combinations of options, names and references are not covered.',
     CODEC + CORE[:1] + TRANS, [('Codec.set_mode', D + 'codec/__init__.py'), ('encode/decode', D + 'codec/codec.py')], NOTE)
prop('C32', 'The bundled metaschema describes every well-formed schema, itself included',
     'Every schema that check accepts is a message of type Schema of the bundled JADN metaschema: its codec encodes and decodes it without change in all modes, also after the metaschema was converted, unfolded or stripped, '
     'the bundled JSON Schema and the one generated from the metaschema accept it, and both metaschema versions are well-formed and describe themselves. '
     'The name patterns configured in a schema decide which names its messages may use.',
     ['inputs'], 'enumerated schemas and single structural edits of schemas x forms of the metaschema x modes x generated and bundled JSON Schemas',
     'Tests validate the metaschema against itself once, in one mode.',
     CODEC + CORE[:1] + [D + 'translate/jsonschema_w.py', D + 'data/jadn_v1.1_schema.jadn', D + 'data/jadn_v1.1_schema.json'], [('check', D + 'core.py'), ('json_schema_dumps', D + 'translate/jsonschema_w.py')], NOTE)
