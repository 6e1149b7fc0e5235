#!/usr/bin/env python3
"""The properties, and what each check bounds. Writes properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PR = {}
def A(id, title, statement, over, text, why, files, mech, bounds, outside, observe=("argus_parse", "argus_get", "argus_count"), na=None):
    PR[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, bounds=bounds, outside=outside, observe=list(observe), na=na)
CORE, H, U, VAL, D, API = "source/core/parsing/", "source/callbacks/handlers/", "source/utils/", "source/callbacks/validators/", "source/display/", "source/api/"

A("P01", "No argument vector makes the library misuse memory or fail to return",
  "For every option table the library accepts and every argument vector and environment, parsing, reading the results and freeing them touches only memory it owns, executes no undefined operation and returns. The one permitted abnormal end is the documented exit of help and version.",
  ["inputs", "configurations"], "All argument vectors up to the stated sizes over one table holding every option type, attribute and validator; all environment values; all accessor calls afterwards.",
  "Tests run some hundred hand-picked command lines; memory errors depend on exact lengths, positions of separators and element counts.",
  ["source/"], [("parsing loop", CORE + "parse_args.c"), ("string splitting", U + "strings.c"), ("collection growth", U + "multi_values.c"), ("help text buffers", D + "help/help_formatter.c")],
  "A table of 26 entries of every type with validators, relations, groups, environment and a command: one argument of up to 5 (6) unconstrained bytes, two of 2 and 3 (3 and 4), three of 2, 2 and 1 (3, 2, 2); values of every option of up to 5 (6) bytes over the letters that matter to it, and longer ones of up to some hundred bytes with a symbolic tail; command words; texts of 39 lengths around every fixed buffer (1 to 1025) in 12 places, in help, usage, overview, parsing and messages; collections of up to some hundred elements; values of 63 to 8192 bytes.",
  "Longer arguments; PCRE2's own code (modelled); locale-dependent behaviour; stack use of the C library.")
A("P02", "Everything acquired while parsing is released exactly once",
  "After a parse and the matching free, or after a parse that failed, no memory allocated by the library remains, nothing was freed twice, and no freed value is reachable through the accessors. This holds for every option type, repetition, default, environment value and rejected value.",
  ["inputs", "histories"], "All values within the stated sizes for every option type, given once, twice, in the environment, with defaults, accepted or rejected at any point; parse-free and parse-parse histories.",
  "The tests do not count allocations, and leaks appear only on particular combinations such as a rejected second element after an accepted first.",
  [API + "argus_free.c", U + "multi_values.c", H], [("free per option type", H), ("free on failed parse", API + "argus_parse.c"), ("collection free", U + "multi_values.c")],
  "The same table: one argument of up to 5 (6) unconstrained bytes; values of up to 5 (6) bytes over the letters that matter for 20 options of every type, once, twice, or followed by a rejected argument; operands of every repeating kind; environment values of up to 4 (5) bytes with and without command line value; freeing after success, after failure and twice; parse, free, parse again for 60 pairs of options; 2 to 3 (4) elements, equal ones and empty keys and values among them, in every kind of unique collection, sorted or not. Live allocations are compared before and after.",
  "Resources held by PCRE2; memory the application allocates in its own handlers.", ("argus_parse", "argus_free"))
A("P03", "Running out of memory is reported, never corrupts and never crashes",
  "If any one allocation fails while parsing, the parse either reports an error or gives the same result as without the failure; if one fails while help is shown or results are read, the program does not crash. In every case nothing is corrupted, and freeing afterwards is safe and leaves nothing behind.",
  ["fault_sequences", "inputs"], "Every position of the failing allocation, for every option type and for help output, over symbolic values of bounded length.",
  "The tests interpose a failing malloc in a few places only; the failing position times the input is not sampled.",
  ["source/"], [("allocation checks in handlers", H), ("growth", U + "multi_values.c"), ("help organizer", D + "help/help_organizer.c"), ("splitting", U + "strings.c")],
  "One failure at any allocation of the run: 20 options of every type, one value of up to 3 (4) bytes or two of up to 2, operands, ten or more elements of every collection type with and without as many operands, environment values of up to 3 (4) bytes, and help, usage and overview of the same table.",
  "Two or more failures in one run; failures inside the C library (printf, getenv) and PCRE2.", ("argus_parse", "argus_print_help", "argus_free"))
A("P04", "All spellings of an option and its value mean the same",
  "An option given by long name or short letter, with its value attached, after an equals sign, as the next argument, or at the end of a bundle of flags has the same effect, for every value. Bundled flags mean the flags given one by one, and options may stand before, between and after operands.",
  ["inputs"], "Every value up to the stated length, for every option type, in every spelling; every bundle of flags and every split of it; every order of options and operands.",
  "Tests check a few values per spelling; the equivalence must hold for every value, including those beginning with dashes or holding '='.",
  [CORE + "option_handle_long.c", CORE + "option_handle_short.c", CORE + "parse_args.c"], [("long option and '='", CORE + "option_handle_long.c: handle_long_option"), ("short option, attached value, bundles", CORE + "option_handle_short.c: handle_short_option"), ("dispatch", CORE + "parse_args.c: parse_args")],
  "Values up to 6 unconstrained bytes for strings, 3-4 for numbers and booleans, 4-7 over the letters that matter for lists and maps (thorough two more); bundles up to 5 (6) letters over three flags with all splits; all 24 orders of 4 units; whole lines of two words of up to 7 (8) bytes and three of up to 5 (6) over -ains1=x against a reference reading; names of up to some hundred bytes that differ in one place only; values of 63 to 8192 bytes of five kinds.",
  "Longer values and bundles; option kinds the reference table does not have.")
A("P05", "Every argument is consumed exactly once, as what its position makes it",
  "Each argument is an option, the value of the option before it, an operand, a command or the separator, and every argument accepted is delivered to the application unaltered exactly once. Operands fill the declared positionals in order, a repeating positional takes all that remain, and everything after a lone double dash is an operand.",
  ["inputs", "configurations"], "All argument vectors of up to four arguments of unconstrained bytes, against an independent reading of the documented grammar.",
  "Tests enumerate typical vectors; the grammar is ambiguous exactly where values look like options, negative numbers, separators or lone dashes.",
  [CORE], [("argument dispatch", CORE + "parse_args.c"), ("positionals", CORE + "option_handle_positional.c"), ("separator", CORE + "parse_args.c: parse_args")],
  "1 to 4 arguments of up to 5 bytes (more in thorough), tables with flags, string and number options, fixed, optional and repeating positionals; whole lines of 2 to 5 words of 7 to 2 bytes over -ains1=x against a reference reading that knows options, values, bundles, commands, abbreviations and operands; up to 513 operands for up to 60 positionals; up to 4 operands for up to 4 positionals of 4 (6 for the last) types in any order, negative numbers and flags among them; one or two arguments of up to 6 (7) bytes over -abopzx=5 against options with every set of other attributes (defaults, limits, variables, hidden, described).",
  "More arguments; response files and similar extensions the library does not have.")
A("P06", "What no declaration accepts is rejected, and nothing else",
  "An option name or letter that the current command level does not declare, a missing value, a value given to a flag and an operand with no positional left are each rejected with their own status and a message, wherever they stand. Names match in full, never by prefix.",
  ["inputs", "configurations"], "Every option-like word up to the stated length at every position among valid arguments, for flat tables and nested commands.",
  "Tests try a handful of misspelt names; near misses (prefixes, embedded '=', dashes, letters of other levels) are unbounded.",
  [CORE, U + "option_lookup.c"], [("lookup by name", U + "option_lookup.c: find_option_by_name, find_option_by_flag"), ("rejection", CORE + "option_handle_long.c, option_handle_short.c, option_handle_positional.c"), ("required positionals", CORE + "post_parse_validation.c")],
  "Names up to 8 (10) unconstrained bytes, letters any byte, values up to 4 (6) bytes, 4 positions, up to 5 operands against up to 3 positionals with the separator anywhere; three words of up to 4, 4 and 3 printable bytes and three of up to 5 over -ains1=x against the reference reading; names of up to some hundred bytes that differ in one place only; one or two arguments against options with every set of other attributes.",
  "Longer names; tables with more than a dozen options.")
A("P07", "A word chooses the command it names, or the only one it abbreviates",
  "A word that equals a command's name chooses it even if it also abbreviates others; otherwise a word that abbreviates exactly one command chooses it, one that abbreviates several is rejected as ambiguous and any other is an operand. The rest of the line is then read by the chosen command alone, and no other command is affected.",
  ["inputs", "configurations"], "Every word up to the stated length against tables whose command names are prefixes of each other, at two levels, before and after options and the separator.",
  "Tests try single abbreviations; which word is exact, ambiguous or unique depends on the whole table.",
  [CORE + "option_handle_subcommand.c", U + "option_lookup.c", CORE + "parse_args.c"], [("command lookup", U + "option_lookup.c: find_subcommand"), ("descending", CORE + "option_handle_subcommand.c")],
  "Words up to 7 (8) unconstrained bytes against five commands, hidden ones among them; pairs of words up to 7 and 5 bytes against two levels; 2 to 4 words inside five command chains, and lines of 3 to 4 words out of 18 that matter, against the reference reading; names of up to some hundred bytes that differ in one place only; a table that is its own command, up to 12 (19) deep.",
  "The empty word; names beyond 8 bytes.", ("argus_parse", "argus_has_command", "argus_is_set"))
A("P08", "Command nesting is bounded and safe at every depth",
  "Commands may be nested up to the documented limit and every level stays addressable; one level more is rejected with its own status, without touching memory beyond the recorded chain, also when a command table refers to itself.",
  ["inputs", "configurations"], "Every chain of up to 12 (19) command words over tables of two commands per level, and over a self-referential table, in full and abbreviated.",
  "The tests reach three levels; the limit and what happens past it is not exercised on every chain.",
  [CORE + "option_handle_subcommand.c", "includes/argus/types.h"], [("limit", CORE + "option_handle_subcommand.c: handle_subcommand"), ("chain", "includes/argus/types.h: subcommand_stack")],
  "0 to 12 (19) levels with two commands and an option of its own per level, and a self-referential table; lines of 5 words of 2 bytes, and words inside command chains, against the reference reading.", "Tables of more than two commands per level.")
A("P09", "A path names exactly one option of the active commands, or nothing",
  "A plain name is found at the innermost active command first and then outwards; a name after a leading dot is found at the root only; a dotted path is found only if its components are exactly the leading components of the active command chain. A command read this way is set exactly if it was given. Any other path reads as unset, empty and reported as absent.",
  ["inputs", "configurations"], "Every path string up to the stated length against four command chains with colliding option names.",
  "Tests read a few paths; partial component matches and colliding names need every string.",
  [U + "option_lookup.c", API + "argus_value_access.c"], [("path resolution", U + "option_lookup.c: find_option_by_active_path"), ("access", API + "argus_value_access.c")],
  "Paths up to 6 (7) unconstrained bytes, chains of depth 0 to 2; chains of up to 4 (5) commands out of two per level with colliding option names and paths over their names and dots; every length of chain with an option of any level read plainly, from the root and by every whole path; names of up to some hundred bytes that differ in one place only.", "Longer paths, deeper chains.", ("argus_get", "argus_is_set", "argus_count"))
A("P10", "Integers are read exactly or rejected",
  "Text is accepted as an integer exactly when all of it is a decimal integer, and the value read back is that integer across the whole signed 64-bit range; anything malformed or beyond the range is rejected, by every way a value can arrive.",
  ["inputs"], "Every text up to 8 bytes and every signed number of 8-12 and 17-20 digits, through long, short, positional, repeated positional, map, list and environment.",
  "Tests try a dozen numbers; truncation, overflow and trailing text need the whole range.",
  [H + "int_handler.c", H + "array_int_handler.c", H + "map_int_handler.c", H + "variadic_int_handler.c"], [("scalar", H + "int_handler.c"), ("list", H + "array_int_handler.c"), ("map", H + "map_int_handler.c"), ("repeating positional", H + "variadic_int_handler.c")],
  "Up to 8 (10) unconstrained bytes; sign and 8-12 or 17-20 symbolic digits; 9 ways: long, short, attached, positional, repeated positional and its later ones, map, list and its later elements, environment; 9 prefixes with up to 3 free characters for an option that also has any of a default, an unlimited range, flags, an earlier value, a hint.", "Leading white space (accepted as strtoll does); longer texts.")
A("P11", "Numbers with fractions keep full double precision, or are rejected",
  "Text is accepted as a number exactly when all of it is one, and what is read back is the double nearest to what was written; number, integer, boolean and text defaults are read back unchanged.",
  ["inputs", "configurations"], "Every text up to 3 bytes, decimals over digits, sign and point, exponents, long decimals; every double, float and 64-bit default; all ways a value can arrive.",
  "Tests compare a few decimals with a tolerance that hides single precision.",
  [H + "float_handler.c", H + "array_float_handler.c", H + "map_float_handler.c", H + "variadic_float_handler.c", "includes/argus/options.h"], [("scalar", H + "float_handler.c"), ("list", H + "array_float_handler.c"), ("map", H + "map_float_handler.c"), ("defaults", "includes/argus/options.h: DEFAULT")],
  "Up to 3 (4) unconstrained bytes; 6 (8) over digits, point and sign; exponents; 9-11 digit decimals; 20 numbers at the middle between two doubles or at the ends of the range with up to 2 (3) free digits more; 7 prefixes with up to 3 free characters for an option that also has any of a default, flags, an earlier value, a hint; defaults unconstrained; the same ways.", "The decimal conversion of the C library itself, which is trusted and shared with the oracle.")
A("P12", "Booleans and flags read the documented words only",
  "A boolean is true or false exactly for the documented words in any letter case, everything else is rejected, and the last one given wins, over a default too. A flag set through the environment reads as the boolean the variable holds.",
  ["inputs"], "Every word up to the stated length by every way a boolean can arrive.", "Tests try some words in lower case.",
  [H + "bool_handler.c", H + "map_bool_handler.c", H + "flag_handler.c"], [("boolean words", H + "bool_handler.c: string_to_bool"), ("map of booleans", H + "map_bool_handler.c"), ("flag", H + "flag_handler.c")],
  "Words up to 6 (7) unconstrained bytes, 6 ways (a flag's variable among them), and with every other attribute declared beside it; all pairs of documented words.", "Longer words.")
A("P13", "Lists hold exactly the elements given, in order, with ranges expanded",
  "A list option holds one value per non-empty comma-separated element of every occurrence, in the order given, and an integer range stands for every integer between its bounds, both included, ascending, up to the limits of 64 bits. A list with any malformed element is rejected.",
  ["inputs"], "Every list text up to the stated length over the letters that matter and over unconstrained bytes, given once or twice, for strings, integers and numbers.",
  "Tests use well-formed lists; empty elements, negative bounds, reversed and one-element ranges, and the 64-bit limits combine freely.",
  [H + "array_int_handler.c", H + "array_string_handler.c", H + "array_float_handler.c", U + "strings.c"], [("splitting", U + "strings.c: split"), ("ranges", H + "array_int_handler.c"), ("append", U + "multi_values.c")],
  "Strings up to 7 (9) bytes; integer lists of up to 5 (7) characters over 0 1 - : , x, up to 5 (6) over 1 - + : and 3 unconstrained bytes; number lists of up to 5 (6); ranges at both ends of the 64-bit integers; lists of up to some dozen elements with symbolic contents, empty and malformed ones among them; lists and ranges of 1025 to 66000 elements; lists of every kind by all ways, limits, variables and descriptions declared beside them.",
  "Ranges of more elements than memory holds.")
A("P14", "Maps hold exactly the last value given for every key",
  "A map option holds one entry per distinct key over all occurrences, with the value given last, the key being everything before the first equals sign. A map with an element that has no equals sign or whose value is malformed is rejected.",
  ["inputs", "histories"], "Every map text up to the stated length over the letters that matter and over unconstrained bytes, given once or twice, for strings, integers, numbers and booleans.",
  "Tests use well-formed maps with distinct keys.",
  [H + "map_string_handler.c", H + "map_int_handler.c", H + "map_float_handler.c", H + "map_bool_handler.c"], [("entries", H + "map_string_handler.c: set_kv_pair"), ("key lookup", U + "multi_values.c: map_find_key")],
  "Up to 7 bytes over k l 1 = , and unconstrained bytes; two occurrences; maps of up to some dozen entries whose keys collide or extend each other; every documented boolean word with up to 2 (3) unconstrained bytes after it; keys of up to some hundred bytes that differ in one place only; maps of every kind by all ways, limits, variables and descriptions declared beside them.", "Longer texts.", ("argus_parse", "argus_map_get", "argus_map_next"))
A("P15", "Ordered and unique collections are exactly that, losing nothing else",
  "A collection declared sorted holds its values in ascending order of the values (or keys), one declared unique holds each distinct value once, and neither drops, adds or alters anything else, however the values were given.",
  ["inputs", "configurations"], "All value tuples within the stated sizes for every element type, every combination of the ordering flags, given as one list, repeated options or repeated operands.",
  "Tests sort a few small positive values; order by value, negative and large values, and duplicates across occurrences are not sampled.",
  [U + "multi_values.c"], [("sorting", U + "multi_values.c: sort_int_values and its siblings"), ("unique", U + "multi_values.c: make_int_values_unique and its siblings")],
  "4 integers, 3 numbers of two digits, 3 strings of up to 2 letters, 3 map entries of every type with values at full width (numbers less than one apart included); all flag combinations; up to a dozen elements in any order given in any of the ways; texts of up to some hundred bytes that differ in one place only; lists by all ways with other attributes declared beside the flags.",
  "Numbers closer than the library's equality threshold of 1e-7 (outside the statement's domain: the library treats them as equal); more elements.")
A("P16", "Range, length, count and choice limits accept exactly what they state",
  "A value is accepted by a declared range, length, element count or choice list exactly if it lies within it, bounds included, for all bounds that a signed 64-bit value can express, by whatever way the value arrives; any other value is rejected with the status of that limit.",
  ["inputs", "configurations"], "Every bound pair and every value, symbolic at full width for integer ranges; every text, count and choice list within the stated sizes.",
  "Tests use small positive bounds; truncation, signedness and off-by-one errors need full-width bounds.",
  [VAL + "range_validator.c", VAL + "length_validator.c", VAL + "count_validator.c", VAL + "choices_validator.c"], [("range", VAL + "range_validator.c"), ("length", VAL + "length_validator.c"), ("count", VAL + "count_validator.c"), ("choices", VAL + "choices_validator.c"), ("order of validation", CORE + "post_parse_validation.c")],
  "Integer ranges: bounds and value unconstrained 64-bit; numbers: any double against bounds up to 2^53; lengths up to 6 bytes and of 18 sizes from 31 to 65537, counts up to 6 and of 15 sizes from 7 to 257, with unconstrained 64-bit bounds; choice lists of 3 entries over symbolic texts, any 64-bit integer and any double, and of up to 20 (40) entries, or of long texts that differ in one place only; limits at any level of chains of up to 5 (10) commands.",
  "Longer choice lists; number ranges with fractional bounds (the interface has none).", ("argus_parse",))
A("P17", "Validators and handlers run in the documented order and their verdict stands",
  "Validators of the raw text run before the value is stored and validators of the value after all arguments are read, each for every option that has a value, in table order; the first status other than success is returned unchanged and the value it refused is not stored. A pattern accepts a text exactly as the pattern engine says, and a custom handler receives each text given.",
  ["inputs", "configurations"], "Every status a validator or handler may return, every outcome of the pattern engine, every combination of set options.",
  "Tests use validators that succeed or fail in fixed ways.",
  [CORE + "execute_callbacks.c", CORE + "post_parse_validation.c", VAL + "regex_validator.c"], [("raw text validators", CORE + "execute_callbacks.c"), ("value validators", CORE + "post_parse_validation.c"), ("patterns", VAL + "regex_validator.c")],
  "Up to 3 options with up to 3 validators of either kind, statuses unconstrained 32-bit; chains of up to 4 (5) commands with six validators a level; up to a dozen validators in mixed order on one option; four on an option of each of 12 kinds given up to 3 (4) times; pattern outcomes match, no match, error, bad pattern.",
  "What PCRE2 matches (see P31).", ("argus_parse",))
A("P18", "Required, dependent, conflicting and exclusive options are enforced exactly",
  "A parse succeeds exactly if every required option and positional has a value, every option a given one depends on is given, no option it conflicts with is given and no exclusive group has two members given; otherwise the status names one of the violated rules. Defaults and environment values satisfy requirements.",
  ["inputs", "configurations"], "Every subset of options given, every dependency and conflict relation, every assignment of required flags and group boundaries within the stated sizes, at the root and in commands.",
  "Tests check single relations; rules interact through subsets and table positions.",
  [CORE + "post_parse_validation.c"], [("rules", CORE + "post_parse_validation.c")],
  "4 options, all 16 subsets, symbolic relation lists of up to 2 names, lists of up to 12 names with one exception anywhere, three names of every kind of entry, names that differ in one place only, symbolic required flags and group boundaries; every state of two levels in chains of up to 4 (10) commands.", "More options; relations to names that do not exist (rejected when the table is checked).", ("argus_parse",))
A("P19", "Environment variables fill exactly what the command line left open",
  "An option bound to an environment variable takes that variable's value, read exactly like an argument, if it was not given on the command line or is declared to be overridden by it; the variable's name is the declared or derived one with the program's prefix. No other variable has any effect.",
  ["inputs", "configurations"], "Every variable name up to the stated length, every value, every option type, with and without command line value, default, prefix and override, at the root and in commands.",
  "Tests set the expected variables only.", [CORE + "load_env_vars.c"], [("name and precedence", CORE + "load_env_vars.c")],
  "Variable names up to 8 bytes; names of 15 to 90 bytes with prefixes up to 36 (126 together); values up to 4; prefixes none, with and without trailing underscore; all option types; chains of up to 5 commands with variables at every level.", "Names longer than the documented 128-byte buffer; a declared name that already starts with the prefix (used as is).", ("argus_parse", "argus_get"))
A("P20", "Reading results is total and consistent",
  "Every accessor returns the stored value or a zero value with the matching error status for any name, index and key; counts, indexed reads, keyed reads and iterators agree with each other, iterators visit every element once in order and can be restarted, and reading never changes anything.",
  ["inputs", "histories"], "Every option type, every name, index and key within the stated sizes, every sequence of two accessor calls.",
  "Tests read what they stored; wrong types, indices, keys and repeated use are sampled once.", [API + "argus_value_access.c"], [("accessors", API + "argus_value_access.c"), ("helpers", "includes/argus/api.h")],
  "All 14 option types set with symbolic values, unconstrained 64-bit index, keys up to 3 bytes, 0-3 elements; tables of many options, collections of up to 66000 elements, long keys that differ in one place only.", "Collections of more than 66000 elements.", ("argus_get", "argus_array_get", "argus_map_get", "argus_array_next", "argus_map_next"))
A("P21", "Help and version stop the program successfully, before anything else is enforced",
  "Whenever a help or version option is reached at any command level the corresponding text is printed to standard output, everything is released and the process ends with status 0, whatever required options are missing and whatever follows; an error that comes earlier on the line still wins.",
  ["inputs", "configurations"], "Every placement of the help or version option among valid and invalid arguments, in every spelling, at three command levels.",
  "Tests print help in a few placements.", [H + "help_handler.c", H + "version_handler.c", API + "argus_parse.c"], [("exit", API + "argus_parse.c"), ("handlers", H + "help_handler.c, " + H + "version_handler.c")],
  "Symbolic words before and after, positions 0-3, levels 0-2; chains of up to 7 commands with the option at any level; options of the application that end the program, with and without a value.", "Output redirection failures.", ("argus_parse", "exit status", "standard output"))
A("P22", "Collections grow without losing or mixing elements",
  "However many elements are given, in one list, in repeated options, as operands or as a range, all are kept, in order and intact, across every growth of the storage.",
  ["inputs"], "Every element value in collections of 0 to 20 elements of every type, every way of giving them.", "Tests stay below the initial capacity or check the count only.",
  [U + "multi_values.c"], [("growth", U + "multi_values.c: adjust_array_size, adjust_map_size"), ("append", H)],
  "0-20 elements (ranges up to 60 in thorough), symbolic element contents; lists of every type, repeated options, operands, maps of every type; the stated sizes up to 66000.", "Other sizes beyond 60.", ("argus_parse", "argus_array_get", "argus_map_get"))
A("P23", "A table is accepted when it is consistent and rejected when it is not",
  "The structure check accepts every table that keeps its rules and ends the program with failure and a message for every one that breaks a rule: a name or letter repeated within a level; a missing or malformed name, help text or handler; a flag that does not fit the kind of entry; a relation to an option that does not exist, or one both required and conflicting; a default on a flag, on a required positional, or that its own validators refuse; operands in an impossible order; commands beside required operands; nesting beyond the limit, also by a level that leads back to itself; a level without its help option. This holds wherever in the table, and at whatever command level, the fault is.",
  ["configurations"], "Every table of up to four entries over symbolic kinds, names, letters, flags and relations, at the root and inside a command.", "Tests build one table per error.",
  ["source/core/validation/"], [("options", "source/core/validation/validate_arguments.c"), ("containers", "source/core/validation/validate_containers.c"), ("table walk", "source/core/validation/validate_structure.c")],
  "Names of up to 2 (3) unconstrained bytes over pairs of entries of all kinds, 1 (2) over triples; every letter; every flag set of 15 bits against all 17 kinds; every order of 4 (5) entries of 8 kinds; relation lists of up to 2 names of up to 2 bytes; each missing part at three levels; chains of up to 10 levels with the fault at any of them; long names that differ in one place only.", "Bigger tables; optional operands beside commands, a required option with a default and nested or open groups, on which the documentation is silent.", ("argus_init", "exit status"))
A("P24", "Help shows every visible option with all it declares, and no hidden one",
  "Help lists every option, positional and command of the level that is not hidden, exactly once, under its group, with both its names, its description in full, its default, bounds (also those an application's own validator describes) and environment variable, each wrapped word whole; nothing hidden appears.",
  ["configurations"], "Every assignment of kinds, names, descriptions, defaults, groups and hidden flags within the stated sizes.", "Tests grep a few substrings of fixed tables.",
  [D], [("layout", D + "help/help_formatter.c"), ("grouping", D + "help/help_organizer.c"), ("sections", D + "help/help_renderer.c")],
  "Tables of up to 5 entries; descriptions up to 8 symbolic words characters; names of many lengths around the description column; widths symbolic in the wrapping function's domain; bounds at full width, choices, defaults of every type, attributes.", "Columns and blank lines (layout taste); hints beyond the fixed buffers (64 and 256 bytes).", ("argus_print_help", "standard output"))
A("P25", "Every status has its own fixed message",
  "Every status the library can return, and every other number, has a constant non-empty message; documented statuses have distinct ones.",
  ["inputs"], "Every 32-bit status.", "Tests look at some statuses.", ["source/core/error.c", "includes/argus/errors.h"], [("messages", "source/core/error.c: argus_strerror")],
  "Unconstrained 32-bit status.", "The wording.", ("argus_strerror",))
A("P26", "Capturing output always gives the stream back",
  "After output was redirected and restored, in any order and with any system call that starts a capture failing, the standard streams are where they were, no descriptor leaks, and what was captured is what was written, no more and no less, whatever was still buffered before.",
  ["fault_sequences", "histories"], "Every sequence of up to four redirect, restore and cleanup calls with one system call failing at any point.", "Tests redirect and restore once, with no failures.",
  [U + "stream.c"], [("redirect and restore", U + "stream.c")],
  "Sequences of up to 5 (6) steps of redirecting, writing, flushing, reading and restoring over two streams, one failing pipe, dup or dup2 call at any point while a capture starts, captures of up to some thousand bytes read in pieces.", "Writers in other threads; outputs beyond a pipe's capacity; failures of dup2 while restoring and of fcntl.", ("redirect_stream", "restore_stream"))
A("P27", "Every rejection explains itself, and acceptance is silent",
  "A rejected command line leaves a message beginning with the program's name and the way to get help on standard error and the usage of the command reached on standard output, an accepted one prints nothing, and the status kept for the application is the one returned.",
  ["inputs"], "Every one of the rejections of P05-P19 triggered by symbolic arguments, at three levels, and every accepted vector within the sizes.", "Tests ignore what is printed.",
  ["source/core/error.c", API + "argus_parse.c", D + "usage_display.c"], [("report", API + "argus_parse.c"), ("message", "source/core/error.c"), ("usage", D + "usage_display.c")],
  "Two symbolic words of up to 3 (4) bytes around nested commands; every kind of rejection at the end of chains of 1 to 7 (14) commands with symbolic names; limits of every kind with bounds of -1 to 2, from the command line and the environment; a fault after up to 9 (14) flags of a bundle.", "The wording.", ("standard error", "standard output", "argus_parse"))
A("P28", "Execution runs exactly the chosen command's action",
  "Parsing runs no action; executing runs the action of the innermost command given, once, with the caller's data, and returns its result unchanged; without a command or without an action nothing runs and the caller is told which of the two it is.",
  ["inputs", "configurations"], "Every chain over a two-level table with and without actions, every option flag around it, every result value.", "Tests run one command each.",
  [API + "argus_exec.c"], [("execution", API + "argus_exec.c: argus_exec")], "8 chains, 8 flag patterns, unconstrained 32-bit results; chains of 1 to 8 commands with every subset of actions, of 1 to 4 with every subset of actions and hidden commands, grouped or not.", "Actions that reparse.", ("argus_exec", "argus_has_command"))
A("P29", "The usage line and command overview list what is really there",
  "The usage line shows the program, the commands reached, and every positional in order, marked as required or optional, and whether options and commands exist; the overview shown when no command is given lists every visible command of the first two levels that has an action, with its description.",
  ["configurations"], "Every set of entries, required and hidden flags within the stated sizes.", "Tests look for the word Usage.",
  [D + "usage_display.c", D + "command_display.c"], [("usage", D + "usage_display.c"), ("overview", D + "command_display.c")], "Up to 5 entries, 2 levels; names of 11 lengths from 2 to 240 bytes; the line that says how to get help, at every level.", "Deeper overviews than two levels (not shown by design).", ("argus_print_usage", "argus_exec"))
A("P30", "Parsing leaves its inputs alone, and parsers do not influence each other",
  "Parsing, reading, showing, executing and freeing leave the argument vector, the environment, the parser's settings and everything a table declares as they were, only results change; two parsers with tables of their own, interleaved in any order or nested in one another's actions, each give what they give alone; and what was parsed, rejected or shown before does not change what the next parser does or prints.",
  ["inputs", "histories"], "Every value of every kind of option, every short argument, and the stated orders of two parsers.", "Tests parse once, with one parser, and never look at what they passed in afterwards.",
  ["source/api", "source/core/parsing", "source/utils", "source/display"], [("in-place splitting", "source/utils/multi_values.c"), ("static buffers", "source/core/parsing/load_env_vars.c, source/display/help/help_formatter.c"), ("freeing", "source/utils/value_utils.c")],
  "Values to 5 bytes of 20 kinds of option; free arguments of 4+2 bytes; environment values to 4 bytes; up to 10 operands; two parsers in 3 orders x 2 orders of freeing with values of 2 and 1 bytes; 6 later command lines after any of the stated earlier ones.",
  "Parsing twice into the same table without freeing; threads (the library keeps static buffers and promises nothing).", ("argus_parse", "argus_get", "argus_free", "argus_print_help"))
A("P31", "Predefined patterns accept exactly the texts they are documented to accept",
  "A text is accepted by an option with one of the library's predefined patterns exactly if the whole text is of the documented kind (IPv4 and IPv6 address, domain name, URL, HTTP URL, port, basic and strict e-mail address, ISO date and datetime, username, password, UUID, Unix path, file name, semantic version, positive, negative, decimal and hexadecimal number), the shorthand validators apply the pattern of their name, and a pattern of one's own is found anywhere in the text, case-sensitively, unless it says otherwise. What the patterns accept does not depend on what the application is compiled with; a library built without pattern support accepts no value that has a pattern.",
  ["inputs"], "Every text up to the stated length for each predefined pattern, both ways of declaring it, and for a set of custom patterns.", "Tests match a few samples per predefined pattern; a missing anchor or a wrong range passes them.", ["includes/argus/regex.h", VAL + "regex_validator.c"], [("predefined patterns", "includes/argus/regex.h"), ("application", VAL + "regex_validator.c")],
  "Texts of any bytes: IPv4 to 17 bytes, IPv6 to 7 (to 23 over a9F:, whole addresses of up to 9 groups, dotted tails after prefixes of up to 8 bytes), domain to 14 (labels of 61-64 bytes, totals to 267), URL to 16, HTTP to 20, port to 9, e-mail to 14 (labels of 60-65), date to 13, datetime 15-22, username to 26, password to 18, UUID 33-38, path to 14, file name to 18, semver to 14, integers to 14, decimals to 18, hex to 24; own patterns: a class, alternation with anchors, two patterns of the documentation, the empty pattern, any 3-letter literal. Header with and without ARGUS_REGEX: every predefined pattern; texts of 2 bytes where they differ.",
  "IPv6 zone suffixes (%); which dotted IPv6 forms beyond ::a.b.c.d and ::ffff:a.b.c.d are accepted; length of a domain's last label; the pattern dialect is PCRE2's, interpreted by models/regex_sym.c over symbolic text (each trace and counterexample is replayed on the real PCRE2).", ("argus_parse",))
A("P32", "Values of an application's own type belong to its own functions",
  "An application's handler is called once for every value given to its option, wherever and however it is given, with exactly that text (no text for a flag); what it stores is what validators see and what is read back; its refusal is returned unchanged; and everything it stored is released exactly once by the application's free handler, whatever that returns: when the parser is freed, when the command line is rejected, also by the handler itself after storing, or when help ends the program. What it stored without allocating is never released.",
  ["inputs", "histories"], "Every sequence of the stated tokens, every failing call, every status.", "Tests use one custom handler once and never make it fail.",
  ["source/core/parsing/execute_callbacks.c", "source/utils/value_utils.c", "source/api", "includes/argus/options.h"], [("calling handlers", "source/core/parsing/execute_callbacks.c"), ("releasing", "source/utils/value_utils.c")],
  "Up to 4 tokens of 11 kinds with values of 1 byte, any 7-bit status of the failing call, before or after storing; up to 3 tokens with an environment variable; commands to 8 levels.",
  "What becomes of an earlier value when an option of an own type is given twice: it may be released by the library or left to the handler, but by one of them.", ("argus_parse", "argus_get", "argus_free"))
A("P33", "What is written in a declaration is what is declared",
  "Every declaration macro gives an entry of its kind with exactly the names, texts, flags, limits, relations and functions written in it, in whatever order they are written, and nothing else; a default of any integer, boolean, text or floating type keeps its value and is what is read when the option is not given; limits, choices, patterns and data of validators are kept unchanged; flags and value types never share a bit.",
  ["inputs"], "Every letter, flag word, default value, bound, choice and datum; every kind of entry with none, some and all attributes in two orders.", "Tests declare tables with small constants and never look at the entries.",
  ["includes/argus/options.h", "includes/argus/types.h", "includes/argus/regex.h"], [("declaration macros", "includes/argus/options.h"), ("flags and types", "includes/argus/types.h")],
  "22 kinds of entries x 5 sets of attributes with symbolic values of full width; defaults of 12 types; validators of 9 kinds with up to 3 choices.",
  "Other orders and subsets of attributes than those written in harness/declare.c (they are fixed when it is compiled); C++ compilers.", ("OPTION_*", "POSITIONAL_*", "SUBCOMMAND", "V_*", "argus_get"))
A("P34", "What a rejection says about the rule is so",
  "The message of a rejection names what broke the rule: the value and both limits for a range, length or count, the value and every choice, the missing option and the one that asks for it, the two options of a conflict or of an exclusive group, the missing positional, the element, key or operand that cannot be read wherever it stands, the letter of a bundle, the option without its value, the commands an abbreviation could mean, a pattern's hint; and it names no option or command that is not at fault. What an application's own handler or validator reports arrives whole, after the program's name, with the status it gave.",
  ["inputs"], "Every combination of required, requiring, conflicting and exclusive options against every subset given; limits and choices across the 64-bit range; texts, commands and positions symbolic.", "Tests look at status codes, and at most at one message for one input.",
  ["source/core/parsing/post_parse_validation.c", "source/callbacks/validators", "source/callbacks/handlers", "source/core/parsing/parse_args.c", "source/core/error.c"], [("post-parse rules", "source/core/parsing/post_parse_validation.c"), ("validator messages", "source/callbacks/validators"), ("ambiguous commands", "source/core/parsing/parse_args.c")],
  "Five options in all 32 x 32 combinations; limits and integer choices from ten values between the smallest and the largest 64-bit integer; up to 4 choices of 3 bytes, 3 elements (5 thorough), 4 commands (6); own messages to 300 bytes (1200).",
  "The wording around the facts; floating point facts other than those listed in harness/facts.c.", ("argus_parse", "stderr"))
A("P35", "Help and version as a whole",
  "Help puts positionals first, then the groups in the order they are first used, then other options, then commands; a section has its heading exactly once and only when it shows an entry; entries stand in the order declared and all descriptions start in one column; when commands are shown, the way to a command's help is shown once and names the commands entered. The version text is the program's name, its version and its description, without those not given. Asking with -h, --help, -V or --version at any level, alone or in a bundle, shows byte for byte what the print functions show.",
  ["inputs"], "Every sequence of entries of every kind at every level, with names of any length; any version, description and program name.", "Tests print a help page or two and look for a word in it.",
  ["source/display", "source/callbacks/handlers/help_handler.c", "source/callbacks/handlers/version_handler.c", "source/api/argus_display.c"], [("organising entries", "source/display/help/help_organizer.c"), ("rendering sections", "source/display/help/help_renderer.c"), ("version", "source/display/version_display.c")],
  "Tables of 4 entries (5 thorough) of 11 kinds at the top, 3 (4) one or two commands down; names up to 60 bytes longer than 3; versions up to 4 bytes (9), descriptions up to 4 (60).",
  "The words of the headings other than those documented; terminals of other widths (P24 covers wrapping).", ("argus_print_help", "argus_print_version", "argus_parse"))

A("P36", "What only describes an option does not change what is accepted",
  "Help texts, hints, plain groups, the marks hidden, advanced, deprecated and experimental, and the order in which options and commands are declared change how things are shown, never what a command line means: whether it is accepted, the status, every value and what is executed stay the same.",
  ["inputs", "configurations"], "Every value of every kind of option, every short argument, every set of marks, against the same table without them.", "Tests set these where they test the display, and parse with tables that do not have them.",
  ["source/core/parsing", "source/api"], [("reading arguments", "source/core/parsing/parse_args.c"), ("finding options", "source/utils/option_lookup.c"), ("rules", "source/core/parsing/post_parse_validation.c"), ("variables", "source/core/parsing/load_env_vars.c")],
  "One table of some 30 entries of every kind in two versions; values of up to 2 bytes (thorough 5) of 20 kinds of option; free arguments of 2+1 (4+2) bytes; a command and its arguments of up to 2+1 bytes; up to 3 (6) operands; pairs (triples) out of 10 arguments that touch rules; variables of up to 3 bytes; a table with required, needed, excluded and exclusive entries on two levels, each set of required ones, with up to 2 of 9 arguments and one more of the command or the operands, or a variable. Marks symbolic for every entry, three texts, three groupings, three orders.",
  "The status and the words of a rejection when the order differs (which of two faults is reported first is not promised).", ("argus_parse", "argus_get", "argus_exec"))
A("P37", "Help follows the layout its parser asks for",
  "For every setting of the parser's layout: entries are indented by what is asked for, descriptions start in the column asked for, on the entry's own line or the next, and no line of a description is longer than the width asked for; a limit stands in place of the value's type if it is not longer than the length asked for and has no space or spaces are allowed, and in the description otherwise, never twice and never nowhere. Asking on the command line shows the same as the print functions.",
  ["inputs", "configurations"], "Every length for hints (64 bits) and both settings for spaces, indents and columns up to the stated size, against every kind of entry and limit.", "Tests use the settings the library starts with, at most one other hint length.",
  ["source/display"], [("names and hints", D + "help/help_formatter.c"), ("places", D + "help/help_renderer.c"), ("commands", D + "command_display.c")],
  "Indents 0-6 (11), columns 0-29 (47), names up to 5 (9) bytes of 8 kinds, on up to 3 levels and in groups; limits of up to 2100 bytes; 17 limits on 10 kinds of entry with the length unconstrained; texts of 4 or 14 words with one of about or twice the width, 11 widths from 8 to 120 in 6 columns; texts of up to 7 (9) unconstrained bytes in widths up to 4.",
  "Indents that leave no room before the column (descriptions move to the next line, as checked, whatever the threshold).", ("argus_print_help", "argus_exec", "argus_parse"))

def main():
    import sys; sys.path.insert(0, V + "/bin")
    from config import CHECKS
    rows, checks, na = [], [], []
    for id, p in sorted(PR.items()):
        if id not in CHECKS and not p["na"]: continue
        rows.append(dict(id=id, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                         anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=None)))
        if p["na"]: na.append(dict(property=id, reason=p["na"])); continue
        checks.append(dict(property=id, quick_cmd="python3 bin/check.py %s --tier quick" % id, thorough_cmd="python3 bin/check.py %s --tier thorough" % id, evidence_file="evidence/%s.json" % id,
                           technique="symbolic execution of the LLVM IR of the real sources, z3 deciding the assertions (bounded)", level="model_checking",
                           level_note="Exhaustive over every value within the bounds (%s) Trusts the C library and PCRE2 models in models/, clang's IR generation and z3; counterexamples are replayed on a native sanitizer build before they are reported. Outside: %s" % (p["bounds"], p["outside"])))
    with open(V + "/properties.jsonl", "w") as f:
        for r in rows: f.write(json.dumps(r) + "\n")
    with open(V + "/MANIFEST.json", "w") as f: json.dump(dict(version=1, setup_cmd="engine/build.sh", checks=checks, not_applicable=na, notes="Every check compiles /repo's sources to LLVM IR on each run and executes them with engine/symx.cpp; see DESIGN.md. No hooks in /repo."), f, indent=1); f.write("\n")
if __name__ == "__main__": main()
