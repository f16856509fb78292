"""What decides each property."""


def always(unit, err):
    return True


def c09_relevant(unit, e):
    if e['function'] == 'validator::validate':
        return e['loop'] is None or e['loop'] <= 5
    return e['function'] in ('validator::validate_type', 'validator::MAX_FIELD_INDEX')


def c10_relevant(unit, e):
    if e['function'] == 'validator::validate':
        return e['loop'] is not None and e['loop'] > 5
    return e['function'].startswith('validator::check_')


CRASH = ('precondition not satisfied', 'possible arithmetic', 'possible division', 'index out of bounds', 'decreases not satisfied',
         'may not terminate', 'could not prove termination', 'possible bit shift', 'unreachable')


def c06_relevant(unit, e):
    # what could make reading a file crash or loop, and the verdict of the stages
    return any(m in e['message'] for m in CRASH) or e['function'] == 'parser::parse' \
        or (e['function'] == 'tokenizer::tokenize' and 'postcondition' in e['message'])


PROPS = {
    'C09': dict(
        level='proof', units=['validator'], engines=['hx:c09'], relevant=c09_relevant, secs=20,
        proved_part='validate returns Ok exactly when the schemas are well formed (names, indices, deleted indices, limit, '
                    'gaps, type references) and no type contains itself; no panic, no overflow, termination; schemas are '
                    'only borrowed',
        bounded_part='at least one error per offence: counted by the search only',
        assumptions=['equality and order of identifiers, strings and namespaces are those of mathematical values '
                     '(Identifier equality itself is C14)'],
    ),
    'C10': dict(
        level='proof', units=['validator'], engines=['hx:c10'], feature='c09', relevant=c10_relevant, secs=20,
        proved_part='for otherwise well-formed schemas validate returns an error if and only if some declaration reaches '
                    'itself through the reference relation; the search terminates (decreases measure)',
        bounded_part='the chain printed in the message: followed by the search only',
        assumptions=['the call stack suffices for the recursion depth'],
    ),
    'C13': dict(
        level='proof', units=['rustgen', 'tsgen'], engines=['hx:c13', 'hx:c13t'], feature='c13', secs=15,
        proved_part='relativize_namespace leads from the one module to the other; the Rust generator writes, for every '
                    'named type, a path which leads from the module it stands in to the module of the file imported (all '
                    'of generate_rust.rs is under contract: 487 writes, every `super::` prefix as long as the module is deep); '
                    'the TypeScript generator writes the path from the root; the tree built by insert_schema holds every '
                    'schema at the place its namespace says and only empty modules besides; the text consists of a header '
                    'and the modules of that tree, nested as they are in it',
        bounded_part='that names look up as the path says (keywords, shadowing): read back from generated code by the search only',
        assumptions=['every import has been annotated with the namespace of its file (C15) and every named type exists (C09)',
                     'write! to a String never fails; case conversions are functions of the identifier (C14)'],
    ),
    'C14': dict(
        level='proof', units=['identifier'], engines=['hx:c14'], feature='c14', secs=15,
        proved_part='the words of a name are defined on their own (separators end a word, an upper-case letter starts one); '
                    'split_words finds exactly them; snake, camel and Pascal case are built from exactly those words in order; '
                    'eq holds exactly when the folded word lists are equal; cmp is Equal, and the hash input the same, exactly '
                    'for equal identifiers; partial_cmp agrees with cmp',
        bounded_part='clone keeps the value (derived, not under contract): exercised by the search only',
        assumptions=['str::to_lowercase maps a non-empty text without separators to one (checked for every single character '
                     'when this was written); Ord for String is a total order; hashing a String depends on its text only',
                     'an Identifier is only ever built by From<&str>, join and clone (fields are private to the module)'],
    ),
    'C18': dict(
        level='proof', units=['listing'], engines=['hx:c18'], feature='c18', secs=15,
        proved_part='listing never panics (slices, subtractions) and returns exactly the rendering of the rows of the lines the '
                    'range touches: number, line trimmed at the end, marked columns counted in characters, for every text and '
                    'every range of consecutive tokens; merge_errors returns every message in order with nothing but line feeds between',
        bounded_part='the Display of a single Error (message, then reason) and throw: exercised by the search only',
        assumptions=['contracts of std string operations (split, trim_end, byte slicing, repeat) and of the crates pad and '
                     'colored as stated in verus/text.vspec', 'callers pass the range of consecutive tokens (C07; exercised by C06)'],
    ),
    'C07': dict(
        level='proof', units=['tokenizer'], engines=['hx:c07'], feature='c07', secs=15,
        proved_part='tokenize accepts a text exactly when it consists of tokens and blanks (integers below 2^64, names beginning '
                    'with a letter, terminated paths) and returns exactly the tokens of the longest-match definition: kinds, '
                    'contents and byte ranges; these are non-empty, in bounds, in order, with nothing but blanks between, and '
                    'each is what its covered text alone yields (lemmas); no panic, no overflow, termination',
        bounded_part='that From<&str> for Identifier keeps the text and PathBuf the path: by C14 and the search',
        assumptions=['contracts of str::char_indices, trim, parse::<usize>, byte slicing and GraphemeCursor as stated in '
                     'verus/lex.vspec and verus/text.vspec; is_alphanumeric = is_alphabetic or is_numeric; ASCII punctuation, '
                     'digits and blanks are of the documented classes'],
    ),
    'C08': dict(
        level='proof', units=['parser'], engines=['hx:c08'], feature='c08', secs=15,
        proved_part='the grammar is written down as recognizers over tokens and, separately, what a schema spelled by tokens '
                    'contains (verus/grammar.vspec); parse returns Ok exactly for grammatical token sequences, and then a schema '
                    'with exactly the imports, declarations, fields, rules, types, indices, deleted indices, comments and source '
                    'ranges spelled, in order; Err carries at least one error; no panic, no overflow, termination',
        bounded_part='that From<&str> of the file stem gives the name the path suggests: by C14 and the search',
        assumptions=['tokens lie in the text in order (proved for the result of tokenize: C07)',
                     'a BTreeMap keyed by names behaves as a map over the form names are compared by (C14); derived Clone '
                     'yields equal values; Path::file_stem as documented'],
    ),
    'C15': dict(
        level='proof', units=['loader'], engines=['hx:c15'], feature='c15', secs=20,
        proved_part='load_schemas and path_to_namespace against a file system given by two functions (the canonical form of a '
                    'path, the contents of a file): Ok(m) means m holds exactly the main schema and the files its imports '
                    'lead to, one entry per file, under the namespace its path below the directory of the main schema '
                    'spells, with the schema its text spells (C07, C08), its path and its text, and every import annotated with '
                    'the namespace of the file it points to; Err is returned exactly when some file reached cannot be read, '
                    'does not tokenize or parse, imports something missing or outside the base directory, or two files '
                    'compete for one namespace; at least one error then; no panic, termination',
        bounded_part='the behaviour of the real file system (symbolic links, dot-dot, case) under the axioms: by the search on '
                     'scratch directories',
        assumptions=['the file system does not change during loading and holds finitely many files',
                     'the axioms on Path in verus/loading.vspec (join, parent, strip_prefix, canonicalize, components)',
                     'tokenize, parse and listing meet their contracts (proved for C07, C08, C18)',
                     'Namespace and PathBuf keys of BTreeMap and HashSet behave as values'],
    ),
    'C11': dict(
        level='proof', units=['formatter'], engines=['hx:c11'], feature='c11', secs=30,
        proved_part='every write function of schema.rs and the Display implementations: they never fail, panic or overflow, '
                    'terminate, and append exactly the text verus/layout.vspec gives for the schema - every comment paragraph '
                    'word by word, every import with its path and name, every declaration, field, rule, type, index and '
                    'deleted index in order, sigils on exactly the names that are keywords, separators between them',
        bounded_part='that the text reads back as the same schema (C07 and C08 say how it is read) and formats to itself: by the '
                     'search over schemas; wrapping of comments (textwrap)',
        assumptions=['textwrap::fill breaks lines only between words; split_whitespace, lines, join as documented',
                     'snake_case and pascal_case are functions of the name (C14)', 'BTreeMap and BTreeSet iterate in order',
                     'writing to a String does not fail'],
    ),
    'C12': dict(
        level='proof', units=['main'], engines=['hx:c12'], feature='cli', secs=15,
        relevant=lambda unit, e: e['function'] in ('main::format_schema', 'main::entry', 'main::main'),
        proved_part='format_schema, entry and main, with the files as explicit state: with the check option no file changes and the '
                    'result is Ok exactly when every loaded file equals its formatted text; without it, Ok means every loaded '
                    'file that differed holds its formatted text, no path changes other than those of differing loaded files '
                    '(also on failure), and Err means loading or an access to the file system failed; the options on the '
                    'command line reach format_schema unchanged; main returns normally only if the command succeeded; a '
                    'successful run makes a check succeed, given C11 and C15 (lemma_format_then_check)',
        bounded_part='the real file system and command line: by the search, which runs the program in scratch directories',
        assumptions=['loading is a function of the files (C15, C19) and yields each file once (C15)', 'the formatted text is a function of the '
                     'schema (C11)', 'std::fs::write replaces the contents or fails', 'clap delivers options and required arguments as declared',
                     'text of println!/eprintln! is not modelled'],
    ),
    'C16': dict(
        level='proof', units=['main'], engines=['hx:c16'], feature='cli', secs=15,
        relevant=lambda unit, e: e['function'] in ('main::generate_code', 'main::entry', 'main::main'),
        proved_part='generate_code, entry and main, with the files as explicit state: Ok means the schema loads and is valid and '
                    'the files are as before except that each requested output holds the code generated for it; Err means '
                    'loading or validation or an access to the file system failed; if the schema is not valid no file '
                    'changes; no path other than the requested ones ever changes; the options on the command line reach '
                    'generate_code unchanged; main returns normally only if the command succeeded and otherwise exits with '
                    'a non-zero status',
        bounded_part='that the error is printed to standard error, and the real file system and command line: by the search, which '
                     'runs the program in scratch directories',
        assumptions=['loading, validation and generation are functions of the files (C06-C10, C15, C19)',
                     'std::fs::write replaces the contents or fails, create_dir_all creates directories only', 'clap delivers options and '
                     'required arguments as declared'],
    ),
    'C19': dict(
        level='proof', units=['loader', 'main'], engines=['hx:c19'], feature='cli', secs=25, confirm=True,
        proved_part='load_schemas: whichever way the path of the main schema is spelled, the schemas loaded, their names, paths '
                    'and texts, what they were read as, and the namespaces of their imports are determined by the canonical '
                    'directory, the file name and the contents of the files (lemma_pure over the contract of load_schemas); '
                    'generate_code writes the text the generators return for the loaded schemas and nothing else. The bodies '
                    'under contract call only functions with a functional contract, so no randomness, time or environment '
                    'reaches the output',
        bounded_part='that the two generators compute the text from the schemas alone (their module structure is proved in C13): by '
                     'the search, which runs the program from several directories, with several spellings, on schemas created '
                     'in several orders, and compares bytes',
        assumptions=['two spellings of a directory lead to the same canonical paths below it (axiom_spelling)',
                     'vectors with equal elements are equal values', 'the file system does not change during loading',
                     'BTreeMap iterates in the order of its keys (C14)'],
    ),
    'C06': dict(
        level='proof', units=['tokenizer', 'parser', 'listing', 'loader', 'validator'], engines=['hx:c06'], feature='c06', secs=20,
        relevant=c06_relevant,
        proved_part='tokenize, parse, validate and listing (every function on the path) neither panic nor overflow nor loop for '
                    'any text; tokenize guarantees what parse requires (placed), parse and tokenize only list ranges that listing '
                    'can render (range_fine), tokenize and parse return either a result or a non-empty list of errors',
        bounded_part='the file system side of loading and the printing of errors: C15 and the search',
        assumptions=['the call stack suffices for the nesting of array types', 'the contracts of std in verus/*.vspec'],
    ),
    'C01': dict(
        level='proof', units=['prelude'], variants=lambda ctx: __import__('gencode').prelude_variants(ctx), engines=['wire:c01'], feature='cli', secs=20,
        relevant=lambda unit, e: unit != 'rusthead',
        proved_part='the functions every generated Rust file begins with (zigzag_encode, zigzag_decode, varint_size_from_value, '
                    'varint_size_from_first_byte, serialize_varint, deserialize_varint, field_header_size, serialize_field_header, '
                    'deserialize_field_header, skip, finish), taken from what the program of the current tree generates: for every '
                    '64-bit value the bytes written are the documented encoding, the sizes given are those of the encoding, '
                    'reading takes exactly the bytes the first byte announces and gives what they stand for, a reader that '
                    'ends early gives an error of the kind UnexpectedEof; no overflow and no index out of bounds. Lemmas: decoding inverts encoding '
                    'with any bytes behind it, no encoding is the beginning of another, smaller numbers never take more bytes, '
                    'the zigzag mapping and its inverse, and a header is read back as the index and size it was written for. generate (unit rusthead): for every '
                    'tree of schemas, the text generated begins with the text of these functions, with nothing before the modules but that',
        bounded_part='nothing while the unit rusthead is PROVED; otherwise, that the prelude does not depend on the schemas: it is also compared over a '
                     'family of schemas, and every text that differs is verified as well',
        assumptions=['Write::write_all and BufRead::{read_exact, fill_buf, consume} as documented (traits in verus/wire.vspec)',
                     'u8::trailing_zeros, u64::from_le_bytes, transmute between i64 and u64 as documented',
                     'field indices are below 2^62 (C09)'],
    ),
    'C02': dict(
        level='translation_validation', units=['prelude'], variants=lambda ctx: __import__('msgunit').variants(ctx), engines=['wire:c02'], feature='cli', secs=25,
        proved_part='for each schema of a fixed family (every primitive type and arrays of them under every rule, arrays of arrays, '
                    'messages in messages, structs and choices, three layers of arrays, no fields, indices beyond one byte; py/msgunit.py), '
                    'on the code the program of the current tree generates for it: atlas and size give, for every value, the number of bytes of the '
                    'documented layout, and serialize_with_atlas and serialize write exactly the bytes of the documented layout, or return an error '
                    'the writer gave; no panic, no overflow; and deserialize gives, for every byte string, what the specification of the schema says. The lemma back_D of every struct and choice D of the family: '
                    'of the bytes of the layout of a value, the specification of the reader makes that value, and From<Out> for In makes the same of it. So what is '
                    'written is read back. The functions they call are those of C01',
        bounded_part='other schemas (random ones, with the family, are compiled and compared with a reference on random values: bytes, size, '
                     'and the value read back)',
        assumptions=['str::from_utf8 of the bytes of a String is that String, a Vec has at most usize::MAX elements',
                     'the length of a message fits in usize', 'String::as_bytes and len are those of its UTF-8 form, f64::to_bits and u64::to_le_bytes as documented',
                     'the specification py/msgunit.py writes down for a schema, and the reference in wire/wireref.rs, are the documented layout'],
    ),
    'C03': dict(
        level='translation_validation', units=['prelude'], variants=lambda ctx: __import__('msgunit').variants(ctx, ('read',), ('family', 'evolutions')), engines=['wire:c03'], feature='cli', secs=25,
        proved_part='for each schema of a fixed family (py/msgunit.py: every primitive type and arrays of them under every rule, arrays of arrays, '
                    'messages in messages, structs and choices, three layers of arrays, no fields, indices beyond one byte), on the code the program of '
                    'the current tree generates for it: deserialize gives, for every byte string and so for every message of every other version of the '
                    'schema, exactly what the specification of that schema says: a field of an unknown index is passed over by its size, in a choice '
                    'the case after it is read, the first of several fields with one index counts, a field with no entry is None when '
                    'optional or asymmetric and an error when required, fields may come in any order. For 18 pairs of versions of the same messages (fields and cases '
                    'added, removed, renamed, reordered, with other rules, in structs, choices, arrays and arrays of arrays; evolutions() in py/msgunit.py), on the code '
                    'generated for both: the writer writes the layout, the reader reads by its specification, and by the lemma back_W_R the reader makes of '
                    'what the writer wrote the value with the fields both know (for a case it does not know, of the first fallback it knows), for every '
                    'value which has the fields the reader requires; by lack_W_R and lost_back_W_R it reports an error where a required field or every known case is missing',
        bounded_part='other schemas: the generated code of a family of schemas, and random ones, is given messages of other versions of them (fields added, '
                     'removed, reordered, repeated, left out; unknown cases with fallbacks) and compared with the reference',
        assumptions=['memory suffices', 'Read::take, read_exact, read_to_end, read_to_string and the reader given are as documented, and the reader fails at its end only',
                     'no statement is made on messages which break off inside an element of an array or announce more bytes than there are',
                     'the specification py/msgunit.py writes down for a schema, and the reference in wire/wireref.rs, are the documented layout'],
    ),
    'C04': dict(
        level='translation_validation', units=['prelude'], variants=lambda ctx: __import__('msgunit').variants(ctx, ('read',)), engines=['wire:c04'], feature='cli', secs=25,
        proved_part='for each schema of a fixed family (py/msgunit.py), on the code the program of the current tree generates for it: deserialize '
                    'ends on every byte string, with no panic and no arithmetic overflow; it answers with the message the bytes stand for, or with '
                    'an error where they break off in a number, lack a required field, hold a string which is not UTF-8 or a choice without a case',
        bounded_part='other schemas: the generated code of a family of schemas, and random ones, is given valid messages, mutated ones and random bytes in pieces of '
                     'several sizes: no panic, an answer, and the message the reference reads or an error where it gives one',
        assumptions=['memory and stack suffice (inputs of the kinds in known_findings.json are left out of the search)',
                     'Read::take, read_exact, read_to_end, read_to_string and the reader given are as documented',
                     'no statement is made on the answer to messages which break off inside an element of an array or announce more bytes than there are',
                     'the specification py/msgunit.py writes down for a schema, and the reference in wire/wireref.rs, are the documented layout'],
    ),
    'C05': dict(
        level='translation_validation', units=[], variants=lambda ctx: {**__import__('gencode').ts_variants(ctx), **__import__('tsmsg').variants(ctx)}, engines=['wire:c05'], feature='cli', secs=30,
        relevant=lambda unit, e: unit != 'tshead',
        proved_part='the functions every generated TypeScript file begins with (zigzagEncode, zigzagDecode, varintSizeFromValue, varintSizeFromFirstByte, '
                    'serializeVarint, deserializeVarint, fieldHeaderSize, serializeFieldHeader, deserializeFieldHeader), taken from what the program of the current tree '
                    'generates and put into Rust construct by construct on every run (ts/ts2v.js): they write the bytes, give the sizes and read the values which '
                    'the contracts of C01 state for the functions of the generated Rust, so the two agree on numbers and headers; '
                    'no number leaves the range in which a JavaScript number is exact. generate (unit tshead): for every tree of schemas, the text generated begins with '
                    'the text of these functions. The functions which write messages (atlas, size, serialize, serializeWithAtlasUnsafe of every type) in the TypeScript '
                    'generated for the family of schemas of C02 (units msg-*-ts): for every message whose encoding is below 2^53 bytes, the bytes and the size are those of the '
                    'specification enc_D which the contracts of C02 state for the Rust generated from the same schemas. The functions which read messages '
                    '(deserializeUnsafe of every type; units msg-*-read-ts): for every byte string to which the specification dec_D of C03 and C04, which the contracts of '
                    'the generated Rust are stated with, gives a message, and no field is held twice or announced longer than what is left, they return that message if they return',
        bounded_part='schemas outside the family, that the functions which read messages return (loops and recursion end), deserialize (which hands the bytes to deserializeUnsafe and returns what it throws), and both together: the generated TypeScript (run by node) and Rust of a family of schemas, and random ones, exchange random messages, '
                     'their own and those of other versions: the same bytes, the same size, the same message read',
        assumptions=['a message given to the TypeScript writers has the declared type, with every bigint within the range of its field and strings without lone surrogates, and a choice holds one case',
                     'ts/ts2v.js keeps the meaning (its rules are in DESIGN.md), BigInt, Number, Math and DataView as documented (verus/js.vspec)',
                     'field indices are below 2^62 (C09), offsets below 2^53',
                     'for the readers, texts which begin with U+FEFF (known finding) and arrays of 2^32 units or more are left open',
                     'JavaScript has one NaN; messages which hold a field twice and byte strings the Rust code rejects are left out of the exchange'],
    ),
}

PENDING = 'No contract unit has been built for it yet.'
NOT_APPLICABLE = {p: PENDING for p in
                  ['C%02d' % i for i in list(range(1, 17)) + [18, 19]] if p not in PROPS}
