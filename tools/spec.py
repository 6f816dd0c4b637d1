"""Source of properties.jsonl and of the per-property part of MANIFEST.json (python3 tools/gen.py)."""
T_COMMON = "the suite runs a few hand-picked examples per feature"
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, level_note=None, na=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  level_note=level_note, na=na))


prop("P01", "A read-only config never changes",
     "While a config (or the subtree an operation targets) is read-only, whether by its own flag or by an ancestor's, every public "
     "operation that would change it raises ReadonlyConfigError, and no operation, whether it raises or returns, alters any value, key, "
     "type or flag of the read-only part. An operation that would succeed without changing anything may return normally. Non-mutating "
     "reads and copies, and merging other values over a copy of a config whose root is read-only (OmegaConf.merge), keep working.",
     ["inputs", "configurations", "histories"],
     "every mutating operation of DictConfig, ListConfig and the OmegaConf functions, every placement of the read-only flag on the path "
     "to the target, every key/index/value",
     "tests check one example per mutator on a config whose root is read-only; combinations of operation x flag placement x argument are not covered",
     ["omegaconf/dictconfig.py", "omegaconf/listconfig.py", "omegaconf/basecontainer.py", "omegaconf/base.py"],
     [("read-only guards in every mutator", "DictConfig.__delitem__/pop/setdefault/_set_item_impl, ListConfig.append/insert/..., BaseContainer.merge_with"),
      ("inherited flag lookup", "base.Node._get_flag / _get_flag_no_cache")])

prop("P02", "Struct mode and structured configs reject unknown keys",
     "Under an effective struct flag, no public item, method or path access can add a key that is not there or remove an existing one "
     "(deleting by attribute, del cfg.key, is exempt: the suite documents it as allowed), and accessing a missing key raises the documented error (attribute, key or config-key error) instead of "
     "yielding a value (get and select with a default give the default); keys that exist can be assigned as usual. A structured config behaves this way unless its struct flag is explicitly "
     "switched off. Without struct, missing keys can be added and removed.",
     ["inputs", "configurations"],
     "every key-taking operation, every key, every struct flag placement on the path, plain and structured configs",
     "tests try a few keys on a few configs; the interaction of flag placement (root, child, explicit False) with each access path is not enumerated",
     ["omegaconf/dictconfig.py", "omegaconf/basecontainer.py", "omegaconf/omegaconf.py"],
     [("key validation", "DictConfig._validate_get / _validate_set / _validate_and_normalize_key"),
      ("struct checks in pop/delete/merge/update", "DictConfig.pop, __delitem__, BaseContainer._map_merge, OmegaConf.update")])

prop("P03", "A flag's effective value is the nearest explicitly set one",
     "At every moment, the effective value of the readonly and struct flags of any node equals the explicitly set value on the nearest "
     "node on its path to the root that has one (an explicit None counts as unset), and is unset if there is none. This holds after any "
     "history of setting, clearing, querying, copying, pickling, moving subtrees and temporary overrides: no query result is ever stale.",
     ["histories", "configurations"],
     "any sequence of flag writes, queries, copies, moves and overrides on any node of the tree",
     "flag lookups are cached per node; only histories that query before and after a change can expose a stale cache, and tests use one or two of them",
     ["omegaconf/base.py", "omegaconf/omegaconf.py"],
     [("flag cache and its invalidation", "base.Node._get_flag, _set_flag, _invalidate_flags_cache, Container._invalidate_flags_cache"),
      ("re-parenting", "base.Node._set_parent")])

prop("P04", "Temporary flag overrides restore the flags exactly",
     "Leaving a read_write, open_dict or flag_override block, normally or by an exception raised anywhere inside it, leaves every flag it "
     "touched with exactly the explicit value (including unset) it had on entry, on every node, for any nesting of such blocks. Inside the "
     "block the overridden flags have the requested values.",
     ["histories", "fault_sequences"],
     "any nesting of the three context managers over any nodes, any prior explicit flags, exceptions raised at any point of the body",
     "tests use single blocks that end normally or with one exception, from one initial flag state",
     ["omegaconf/omegaconf.py"],
     [("save and restore", "omegaconf.flag_override, read_write, open_dict")])

prop("P05", "A typed scalar field only ever holds a value of its type",
     "Assigning any value to a field annotated bool, int, float, str, bytes, pathlib.Path or an Enum either stores the documented "
     "conversion of that value, whose Python type is the annotated one, or raises ValidationError and leaves the field as it was. None is "
     "accepted exactly by Optional (and Any) fields. Missing markers and interpolations are stored as such, and a value obtained through an "
     "interpolation is converted and validated in the same way when read.",
     ["inputs"],
     "every assigned integer, bool, float, string (up to a length), bytes, enum member, None or container, every scalar type, optional or not",
     "tests cover a table of about ten values per type; conversions of strings and numbers have boundary cases outside it",
     ["omegaconf/nodes.py", "omegaconf/base.py"],
     [("validation and conversion", "nodes.ValueNode.validate_and_convert and _validate_and_convert_impl of each node class"),
      ("optional handling", "nodes.ValueNode._set_value / validate_and_convert, base.Node._is_optional")])

prop("P06", "A failed operation leaves the config unchanged",
     "If an operation on a config raises, whatever the reason (wrong type, forbidden None, unknown key, read-only, unsupported value, "
     "unresolvable reference), the config has exactly the values, keys, order, types, flags and node links it had before the call. This "
     "covers assignment by key, attribute, index and slice, append, insert, setdefault, pop, del, sort and update by path; operations that "
     "are documented loops over elements (extend, update from a mapping, merge_with) may keep what they did before the failing element.",
     ["inputs", "fault_sequences"],
     "every mutating operation, every key/index and every value that makes it fail, at every position",
     "tests assert that the exception is raised but rarely compare the config before and after; failures half way through multi-element operations are not sampled",
     ["omegaconf/basecontainer.py", "omegaconf/listconfig.py", "omegaconf/dictconfig.py", "omegaconf/nodes.py"],
     [("validate before write", "BaseContainer._set_item_impl, ListConfig.__setitem__/append/insert, DictConfig._set_item_impl"),
      ("all-or-nothing slice assignment", "ListConfig.__setitem__")])

prop("P07", "Typed containers hold only elements and keys of the declared type",
     "A container declared as List[T], Dict[K, V] or Tuple-like typed list accepts an element, by any public operation, only if it converts "
     "to T (respectively V) under the scalar rules, and a key only if it is of type K; otherwise the operation raises a validation or key error. "
     "Consequently every element read back has the declared type, is missing, or is None where T is Optional. Assigning a differently "
     "typed container to the field follows the same rules element by element.",
     ["inputs", "histories"],
     "every element/key type, every inserting operation, every inserted value, nested one level",
     "tests cover some (operation, type, value) triples; each operation has its own path to validation",
     ["omegaconf/listconfig.py", "omegaconf/dictconfig.py", "omegaconf/basecontainer.py", "omegaconf/_utils.py"],
     [("element wrapping", "omegaconf._maybe_wrap / _node_wrap, BaseContainer._wrap_value_and_set"),
      ("key normalisation", "DictConfig._s_validate_and_normalize_key")])

prop("P08", "A list config behaves as the Python list of its elements",
     "For every sequence of list operations (indexing and slicing with any indices, assignment, insertion, append, extend, deletion, pop, "
     "remove, index, count, sort, reverse-order sort, clear, concatenation, containment, iteration, equality, copying) on a ListConfig of "
     "plain values, the contents and results are those of a Python list under the same operations, and an operation the list rejects is "
     "rejected. After each operation every element knows its position.",
     ["inputs", "histories"],
     "all integer indices and slice members (to 2^62), all integer element values, every operation, sequences up to the stated length",
     "tests use literal indices inside or just outside the list; extended slices, negative and far out-of-range indices are sampled at a handful of points",
     ["omegaconf/listconfig.py"],
     [("index handling", "ListConfig.__getitem__, __setitem__, insert, _set_at_index, pop"),
      ("key renumbering", "ListConfig._update_keys")])

prop("P09", "A dict config behaves as the Python dict of its items",
     "For every sequence of dict operations (get/set/delete by key and attribute, get, pop, popitem, setdefault, update, clear, iteration, "
     "keys, items, len, containment, equality, copying) on a DictConfig of plain values, contents, insertion order and results are those of "
     "a Python dict under the same operations, and an operation the dict rejects is rejected. Keys of all supported types (str, int, bool, "
     "float, bytes, enum) follow dict key identity and keep their type.",
     ["inputs", "histories"],
     "all key values of the supported key types, all integer element values, every operation, sequences up to the stated length",
     "tests use literal string keys mostly; collisions between key types and order effects are sampled at a few points",
     ["omegaconf/dictconfig.py", "omegaconf/basecontainer.py"],
     [("item access", "DictConfig.__getitem__, __setitem__, __delitem__, pop, get, items_ex, keys"),
      ("key normalisation", "DictConfig._validate_and_normalize_key")])

prop("P10", "Merging follows the documented rules and never touches its inputs",
     "OmegaConf.merge of any number of configs yields, key by key, the last given value, dicts merging recursively, lists being replaced "
     "(or extended, or extended with unique items, as requested), missing values never overriding present ones, and interpolations and "
     "None overriding as values. The inputs keep their values, flags and types, the result shares no mutable node with them, and merging "
     "one config at a time gives the same result as merging all at once.",
     ["inputs", "configurations"],
     "all pairs and triples of configs up to the stated shape with symbolic leaf values, every list merge mode",
     "tests are a table of about a hundred literal merges; the rules are stated for all shapes and for inputs' immutability, which few cases assert",
     ["omegaconf/omegaconf.py", "omegaconf/basecontainer.py"],
     [("merge engine", "BaseContainer._map_merge, _list_merge, _merge_with"), ("copying before merging", "OmegaConf.merge, unsafe_merge")])

prop("P11", "Merging into a structured config keeps its schema",
     "Merging any config into a structured config either raises (validation error, unknown key, type mismatch) or yields a config with the "
     "same schema: every field still present with its declared type, each value converted to that type, unspecified fields keeping their "
     "values. Merging a structured config over plain values likewise yields its schema: its own values win, the fields it leaves missing keep "
     "the values below them, converted to the declared type, or the merge raises. A failed merge leaves both the target class and the merge "
     "inputs unchanged.",
     ["inputs", "configurations"],
     "all plain and structured inputs over the schema's keys with symbolic values of various types, optional/missing/None fields and nested schemas",
     "tests are literal merges; whether types survive every combination of None, missing, interpolation and wrong-typed inputs is not sampled",
     ["omegaconf/basecontainer.py", "omegaconf/dictconfig.py", "omegaconf/omegaconf.py"],
     [("schema-preserving merge", "BaseContainer._map_merge, DictConfig._validate_merge, expand"), ("assignment validation", "DictConfig._validate_set")])

prop("P12", "A node interpolation reads the node it names, live",
     "Reading a value that is an interpolation of a path (absolute, relative with any number of leading dots, dotted or bracketed) yields "
     "exactly what selecting that path yields at that moment, including after any later change of the target or its removal. A chain of "
     "interpolations yields the value at its end, a cycle raises an interpolation error instead of hanging, and a missing target raises "
     "the documented error.",
     ["inputs", "configurations", "histories"],
     "every source and target position in the tree, every relative depth, dotted, bracketed and dynamic keys, chains and cycles up to the stated length",
     "tests use literal paths; relative depths beyond the root, chains through containers and liveness after changes are sampled",
     ["omegaconf/base.py", "omegaconf/grammar_visitor.py", "omegaconf/basecontainer.py"],
     [("resolution", "base.Container._resolve_node_interpolation, _resolve_interpolation_from_parse_tree, _dereference_node"),
      ("relative keys", "base.Container._resolve_key_and_root"), ("selection", "base.Container._select_impl")])

prop("P13", "String interpolations concatenate text and values; escapes are exact",
     "A string mixing text and interpolations reads as the concatenation of the literal text and the string form of each value, with "
     "backslash-escaped interpolations kept literally and each pair of backslashes in front of an interpolation standing for one. A string "
     "with no unescaped interpolation reads as it was written apart from that unescaping.",
     ["inputs"],
     "all strings up to the stated length over backslashes, dollars, braces, quotes and letters",
     "the escaping rules depend on runs of backslashes and their position; the tests list about forty strings",
     ["omegaconf/grammar_parser.py", "omegaconf/grammar_visitor.py", "omegaconf/grammar/OmegaConfGrammarLexer.g4", "omegaconf/grammar/OmegaConfGrammarParser.g4", "omegaconf/base.py"],
     [("lexer modes and visitor", "grammar_visitor.visitText, _unescape"), ("entry points", "grammar_parser.parse, base.Container._evaluate...")])

prop("P14", "Resolver arguments are parsed to the values the grammar documents",
     "The elements of a resolver call or of oc.decode are parsed as the documented grammar says: null, booleans in any case, integers and floats "
     "(with underscores, signs, exponents, inf, nan) become those values, quoted strings their unescaped contents, brackets and braces lists "
     "and dicts, everything else strings with surrounding blanks removed and escapes processed. An argument list that the grammar does not "
     "admit raises a grammar error, never another exception.",
     ["inputs"],
     "all argument texts up to the stated length over digits, signs, letters, quotes, brackets, escapes and blanks",
     "the tests list several hundred texts; number and quoting rules have edge cases at every combination",
     ["omegaconf/grammar_visitor.py", "omegaconf/grammar_parser.py", "omegaconf/grammar/OmegaConfGrammarLexer.g4", "omegaconf/grammar/OmegaConfGrammarParser.g4"],
     [("primitive conversion", "grammar_visitor.visitPrimitive, _createPrimitive"), ("quoted values", "grammar_visitor.visitQuotedValue, _resolve_quoted_string")])

prop("P15", "The fast path for simple interpolations agrees with the full parser",
     "Every string for which the parser shortcut skips or simplifies parsing is one the full grammar accepts, and evaluates to the same "
     "value either way; in particular validity of a string as an interpolation does not depend on whether the shortcut applies.",
     ["inputs"],
     "all strings up to the stated length over the characters of keys, dots, brackets, braces, colons and blanks",
     "two independently written languages (a regular expression and an ANTLR grammar) have to agree on every string; tests compare them on a short list",
     ["omegaconf/grammar_parser.py", "omegaconf/grammar/OmegaConfGrammarLexer.g4", "omegaconf/grammar/OmegaConfGrammarParser.g4"],
     [("shortcut pattern", "grammar_parser.SIMPLE_INTERPOLATION_PATTERN"), ("full parser", "grammar_parser.parse")])

prop("P16", "Converting to a config and back to a container is lossless",
     "For every nested dict/list of supported values, creating a config and converting it back yields equal plain data with the same types, "
     "order and structure, sharing nothing mutable with the input or the config. With resolve each interpolation is replaced by its value, "
     "without it the text is kept, and throw_on_missing raises exactly when a missing value is present.",
     ["inputs", "configurations"],
     "all nested structures up to the stated depth with symbolic leaves of every supported type and symbolic conversion options",
     "tests convert a dozen literals with a few option combinations",
     ["omegaconf/basecontainer.py", "omegaconf/omegaconf.py", "omegaconf/_utils.py"],
     [("conversion", "BaseContainer._to_content, OmegaConf.to_container"), ("creation", "OmegaConf._create_impl, _node_wrap")])

prop("P17", "Dumping to YAML and loading gives back the same config",
     "For every config of supported plain values, OmegaConf.create(OmegaConf.to_yaml(cfg)) (and save/load) equals the original with the same "
     "value types: strings that look like numbers, booleans, nulls, dates or contain special characters come back as strings, and "
     "interpolations and missing markers come back verbatim. Duplicate keys in loaded YAML are rejected.",
     ["inputs"],
     "all strings up to the stated length (keys and values), all ints, bools, None, special floats, nested one level",
     "the set of strings YAML would re-type is infinite and defined by several regular expressions in the loader; tests dump a dozen",
     ["omegaconf/_utils.py", "omegaconf/omegaconf.py"],
     [("dumper quoting", "_utils.OmegaConfDumper.str_representer"), ("loader resolvers", "_utils.get_yaml_loader, YAML_FLOAT pattern")])

prop("P18", "resolve replaces every interpolation by its value and nothing else",
     "After OmegaConf.resolve(cfg) no interpolation is left in cfg, every value that was one equals what reading it gave before, every other "
     "value, key, order, flag and type is unchanged, missing values stay missing, and reading the whole config gives the same plain data as "
     "resolving on conversion did. If some interpolation cannot be resolved it raises.",
     ["inputs", "configurations"],
     "all trees of the stated shape with interpolations at any position to any target, symbolic values",
     "tests resolve a few literals",
     ["omegaconf/omegaconf.py", "omegaconf/_impl.py", "omegaconf/base.py"],
     [("resolution walk", "_impl._resolve, _resolve_container_value")])

prop("P19", "select, update and item access agree about paths",
     "Selecting a path yields exactly the value reached by successive item access along it (the default, None or the documented error where "
     "that fails), and after updating a path, selecting it yields the new value while every other path keeps its value. Updating merges "
     "dict values exactly when asked to, creates missing parents (also in struct mode when forced), and changes nothing when it fails (a merge may keep "
     "what it did before the failing element). Negative indices update but, by design, do not select.",
     ["inputs", "configurations"],
     "all paths up to the stated length over existing and new keys and list indices, symbolic values, merge and force_add options",
     "tests use literal paths; the option combinations against path kinds are not enumerated",
     ["omegaconf/omegaconf.py", "omegaconf/base.py", "omegaconf/_impl.py"],
     [("selection", "_impl.select_value, select_node, base.Container._select_impl"), ("update", "OmegaConf.update")])

prop("P20", "Path strings and key sequences convert both ways without loss",
     "Splitting a path string into keys treats dot and bracket notation as equivalent, in any mix, and recovers exactly the keys written; the "
     "full key a node reports, split again and followed from the root, leads to that same node. Paths with leading dots are relative and "
     "climb exactly one container per dot after the first.",
     ["inputs", "configurations"],
     "all key strings up to the stated length over letters, dots and brackets; every node of the tree",
     "tests list about thirty literals; bracket/dot mixtures multiply quickly",
     ["omegaconf/_utils.py", "omegaconf/base.py", "omegaconf/basecontainer.py"],
     [("splitting", "_utils.split_key, KEY_PATH_HEAD, KEY_PATH_OTHER"), ("full keys", "BaseContainer._get_full_key, DictConfig._get_full_key")])

prop("P21", "Copies are equal to and independent of the original",
     "Copying, deep copying or pickling and unpickling a config (or a subtree) gives one with equal contents, types, flags, missing values and "
     "unresolved interpolations, and any later operation on either side leaves the other unchanged (for shallow copies: except through "
     "shared child containers as in Python). A copied subtree resolves interpolations against the tree it belongs to. Likewise a config that was created from a config, "
     "or that was given one to hold by an assignment, an insertion or a merge, shares nothing with it.",
     ["histories", "configurations"],
     "every kind of copy of every node of a tree with symbolic content and flags followed by any mutation of either side",
     "tests copy a few configs and mutate one key",
     ["omegaconf/dictconfig.py", "omegaconf/listconfig.py", "omegaconf/base.py", "omegaconf/nodes.py"],
     [("copying", "DictConfig.__deepcopy__, copy, ListConfig.__deepcopy__, copy, ValueNode.__deepcopy__"),
      ("pickling", "base.Container.__getstate__/__setstate__")])

prop("P22", "Equality is an equivalence and agrees with contents and hash",
     "Two configs are equal exactly when their resolved contents are equal, comparison is symmetric, reflexive and consistent with "
     "inequality, and comparing with a plain dict or list gives the same answer as comparing with the config made from it. (Two "
     "interpolations of which one cannot be resolved are compared by their text.) Equal configs built the same way have equal hashes, and comparing never changes or raises because of unresolvable or missing values.",
     ["inputs", "configurations"],
     "all pairs of configs up to the stated shape with symbolic leaves, interpolations, missing values and None",
     "tests list literal pairs; symmetry and agreement with resolved contents are statements over all pairs",
     ["omegaconf/dictconfig.py", "omegaconf/listconfig.py", "omegaconf/basecontainer.py"],
     [("comparison", "DictConfig.__eq__, _dict_conf_eq, ListConfig.__eq__, _list_eq, _item_eq")])

prop("P23", "Missing values behave as absent everywhere",
     "A value is missing exactly when it is the missing marker, whatever its node type: reading it raises MissingMandatoryValue, key "
     "containment is False, get and select return the default, resolved iteration raises while unresolved iteration keeps it, and "
     "is_missing is True. An interpolation to a missing value is not missing itself but raises InterpolationToMissingValueError when read. "
     "missing_keys reports exactly the set of full paths of the missing values, whatever interpolations the config holds, and assigning a "
     "value makes them present.",
     ["inputs", "configurations"],
     "all placements of the missing marker in trees of the stated shape, direct and through interpolations, every access path",
     "tests check some access paths on single-key configs",
     ["omegaconf/base.py", "omegaconf/dictconfig.py", "omegaconf/listconfig.py", "omegaconf/omegaconf.py", "omegaconf/_utils.py"],
     [("missing checks", "_utils._is_missing_value, base.Node._is_missing, DictConfig.__contains__, get"), ("reporting", "OmegaConf.missing_keys")])

prop("P24", "Every node knows its parent and key after any history",
     "After any sequence of operations, each node stored in a container has that container as its parent and its actual key or position as "
     "its key, so its reported full key leads to it; a node removed or replaced no longer appears in the tree, and no node appears at "
     "two places. Assigning a config into another copies it rather than moving it.",
     ["histories"],
     "any sequence of assignments, insertions, deletions, sorts, merges, copies and updates up to the stated length",
     "links are maintained by each mutator separately; tests check values, rarely links",
     ["omegaconf/listconfig.py", "omegaconf/dictconfig.py", "omegaconf/basecontainer.py", "omegaconf/base.py"],
     [("re-parenting", "BaseContainer._wrap_value_and_set, _set_item_impl, _re_parent"), ("renumbering", "ListConfig._update_keys")])

prop("P25", "Resolver registration and caching follow their contract",
     "A registered resolver is called with the parsed arguments (and _parent_, _node_, _root_ when declared) each time it is read, or, with "
     "use_cache, at most once per config and argument list, giving the same result ever after until that config's cache is cleared. "
     "Registering an existing name without replace raises, replace and clear take effect for later reads, and caches of different configs "
     "are independent.",
     ["histories", "inputs"],
     "any sequence of register, replace, clear, read and clear-cache operations with symbolic arguments over two configs",
     "tests check single steps; cache identity across configs, copies and argument types is sampled",
     ["omegaconf/omegaconf.py", "omegaconf/base.py"],
     [("registry", "OmegaConf.register_new_resolver, clear_resolver, _get_resolver"), ("cache", "BaseContainer metadata.resolver_cache, OmegaConf.get_cache/set_cache/clear_cache/copy_cache")])

prop("P26", "Dotlist and command-line arguments set exactly the paths they name",
     "Creating a config from a dotlist (or command-line arguments) gives the result of updating an empty config with each path and its value "
     "in order, the value being what YAML loading of the text after the first equals sign gives, and a name without equals sign giving "
     "None. Merging a dotlist into a config changes only the named paths.",
     ["inputs"],
     "all argument strings up to the stated length over key characters, equals signs, digits, quotes and brackets",
     "tests list a dozen arguments",
     ["omegaconf/omegaconf.py", "omegaconf/basecontainer.py"],
     [("parsing", "BaseContainer.merge_with_dotlist, OmegaConf.from_dotlist, from_cli")])

prop("P27", "Structured configs convert from and to their classes faithfully",
     "Creating a config from a dataclass or instance gives each field's declared type, optionality and default, so that to_object of it yields "
     "an equal instance of the same class with resolved values, nested classes included; frozen classes give read-only configs. Overrides "
     "made through the config appear in the instance, and missing values raise instead of producing an instance.",
     ["inputs", "configurations"],
     "dataclasses over the supported field types, symbolic field values, nested and in containers, frozen or not",
     "tests use fixed example classes with default values",
     ["omegaconf/_utils.py", "omegaconf/dictconfig.py", "omegaconf/basecontainer.py"],
     [("field extraction", "_utils.get_dataclass_data, get_structured_config_data"), ("instantiation", "DictConfig._to_object, BaseContainer._to_content")])

prop("P28", "Errors name the full path of the node they are about",
     "When an operation on a nested node fails, the raised OmegaConf exception reports the full path from the root of the key concerned, the "
     "key itself and the parent node, in the documented exception class hierarchy (attribute access giving AttributeError, key access "
     "KeyError, index access IndexError). Formatting an error never raises a different one.",
     ["inputs", "configurations"],
     "every failing operation at every position of the tree, symbolic keys and indices",
     "tests check messages for some errors at the first level",
     ["omegaconf/_utils.py", "omegaconf/base.py", "omegaconf/errors.py"],
     [("formatting and re-raising", "_utils.format_and_raise, _raise, base.Node._format_and_raise")])

prop("P29", "masked_copy returns exactly the requested keys",
     "OmegaConf.masked_copy(cfg, keys) returns a config holding exactly those of the requested keys that cfg has, in their original order and "
     "with equal values and unresolved interpolations, sub-configs with their types and flags, without modifying cfg or sharing nodes with it. "
     "Anything but a dict config raises ValueError.",
     ["inputs"],
     "all key subsets and all requested key lists up to the stated length, symbolic values",
     "tests use four literals",
     ["omegaconf/omegaconf.py"],
     [("masking", "OmegaConf.masked_copy")])

prop("P30", "Concurrent reads of independent configs do not interfere",
     "Threads that parse and resolve interpolations of configs not shared between them obtain the results they would obtain alone.",
     ["schedules"],
     "all interleavings of two threads resolving interpolations",
     "tests run a thread pool once and see the interleavings the interpreter happens to choose",
     ["omegaconf/grammar_parser.py"],
     [("per-thread parser state", "grammar_parser._grammar_cache (threading.local)")],
     na="preemption points are bytecode boundaries of the interpreter inside the vendored ANTLR runtime; the executor in this framework runs one thread and has no model of the interpreter's scheduler, so the interleavings cannot be made symbolic within reach")

prop("P31", "The result of parsing does not depend on what was parsed before",
     "Parsing or resolving a string gives the same value or error whatever strings, valid or invalid, were parsed earlier in the same process.",
     ["histories", "inputs"],
     "all pairs of strings up to the stated length, the first possibly malformed, both entry rules",
     "lexer and parser objects are reused between calls and carry modes, token streams and error strategies; tests that parse one string per process state cannot see leftovers",
     ["omegaconf/grammar_parser.py"],
     [("reset of the cached lexer and parser", "grammar_parser.parse")])

prop("P32", "Built-in resolvers compute their documented results",
     "oc.env, oc.select, oc.decode, oc.create, oc.deprecated, oc.dict.keys and oc.dict.values return, for all arguments, the documented "
     "value: the environment variable or the default as a string, the selected value or default, the decoded text, a config made of the "
     "argument, the value of the replacing key, and the keys or live values of the named dict. Errors are raised exactly where documented.",
     ["inputs", "configurations"],
     "all variable names/presence/values, all keys, defaults and target kinds up to the stated size",
     "tests list a few literals per resolver",
     ["omegaconf/resolvers/oc/__init__.py", "omegaconf/resolvers/oc/dict.py"],
     [("resolvers", "resolvers.oc.env, select, decode, create, deprecated; resolvers.oc.dict.keys, values")])

prop("P33", "A Union field only ever holds a value of one of its member types",
     "A field, list element or dict value declared as a Union of simple types accepts a value, by any public operation and at creation, "
     "exactly if the value's own type is one of the members (no conversion takes place), it is None and the union is optional, or it is a "
     "missing marker or interpolation. The accepted value is stored and read back unchanged and the field keeps its union type; any other "
     "value raises a validation error and leaves the field as it was.",
     ["inputs", "histories"],
     "unions of all simple types, values of all kinds, every way of storing a value, histories of assignments and merges",
     "tests cover one union per member type and assignment by attribute",
     ["omegaconf/base.py", "omegaconf/basecontainer.py", "omegaconf/omegaconf.py", "omegaconf/_utils.py"],
     [("union nodes", "base.UnionNode._set_value_impl"), ("strict member types", "nodes.ValueNode._strict_validate_type and overrides"),
      ("wrapping", "omegaconf._node_wrap, BaseContainer._set_item_impl, _utils._wrap_field")])

prop("P34", "Unsupported values are rejected unless objects are allowed",
     "A value of a type OmegaConf does not support (any object that is not None, a bool, int, float, str, bytes, Path, Enum, dict, list, "
     "tuple or structured config, subclasses of the builtin ones included) is rejected with a validation error wherever it is given, however deep inside other data, and nothing is "
     "stored, unless the allow_objects flag is effective for the container it goes to; then the very object is stored and read back, "
     "converting, copying and merging keep it, and the flag is inherited and overridden like any other.",
     ["inputs", "configurations"],
     "every operation that stores a value, every placement of the flag, all kinds of objects, every nesting shape",
     "tests try one illegal value with create and a couple of setters",
     ["omegaconf/nodes.py", "omegaconf/omegaconf.py", "omegaconf/basecontainer.py", "omegaconf/_utils.py"],
     [("value check", "nodes.AnyNode._validate_and_convert_impl"), ("wrapping", "omegaconf._node_wrap"), ("flag of merge sources", "BaseContainer._merge_with, _utils._ensure_container")])

prop("P35", "to_container treats structured configs exactly as asked",
     "OmegaConf.to_container gives plain dicts for structured configs (SCMode.DICT), leaves them as configs of their class (DICT_CONFIG) or "
     "makes instances of their classes with resolved values (INSTANTIATE), at whatever place they are, while everything else becomes plain data as "
     "resolve and enum_to_str ask; missing values raise exactly when throw_on_missing is set or an instance needs them, unresolvable "
     "interpolations when they have to be resolved; the config is unchanged. to_object equals INSTANTIATE with resolve and throw_on_missing.",
     ["inputs", "configurations"],
     "all kinds of content at all places x all option combinations",
     "tests cover each option on its own with one or two configs",
     ["omegaconf/basecontainer.py", "omegaconf/dictconfig.py", "omegaconf/omegaconf.py"],
     [("conversion", "BaseContainer._to_content"), ("instantiation", "DictConfig._to_object")])

prop("P36", "The functions that inspect a config agree with what it holds",
     "OmegaConf.is_missing(cfg, key) is True exactly for a value that is the missing marker and False for absent keys, is_interpolation exactly for a value "
     "that holds an interpolation, is_config, is_dict and is_list exactly for the respective containers, and get_type is the class of the "
     "value (dict, list, the structured class or the value's own type); asking changes nothing and never raises for a key that may be absent.",
     ["inputs", "configurations"],
     "all kinds of values under all kinds of keys and in all kinds of typed fields, given in every way; all short texts",
     "tests list examples per node type",
     ["omegaconf/omegaconf.py", "omegaconf/base.py", "omegaconf/_utils.py"],
     [("inspection", "OmegaConf.is_missing, is_interpolation, is_config, is_dict, is_list, get_type, _get_obj_type"), ("value kinds", "_utils.get_value_kind, _is_missing_value")])
