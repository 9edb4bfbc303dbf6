import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
LIB="src/chanoma.rs"
p("C01","Tracing and logging never change the result",
"For every pipeline, including one with no stages, and every text, a traced run ends with exactly the text that the plain run returns. The plain run also returns that same text whatever the log level of the program is, and neither run fails in any of these settings.",
["inputs","configurations"],"every text, every pipeline (any stages in any order, none included), every log level",
"The tests compare both runs on about twenty fixed sentences with the one neologdn pipeline and never with logging enabled or with no stage.",
[LIB,"src/modifier.rs","src/modifier_kind.rs","src/modifier/"],
[("plain path folds modify","src/chanoma.rs normalize"),("traced path chains modify_with_positions","src/chanoma.rs normalize_with_positions"),("each stage implements both","src/modifier/*.rs")],
["Chanoma::normalize return value","Chanoma::normalize_with_positions(..).text()","log level of the process"])
p("C02","Table conversion maps every character once and independently",
"Normalising with a table of one-character entries with distinct sources replaces every occurrence of a listed source by its target and leaves every other character as it is, keeping order and number of characters. The replacement is simultaneous: a character produced by one entry is never converted again by another entry of the same table. Converting two texts joined together gives the two converted texts joined together.",
["inputs","configurations"],"every text and every conversion table (empty, chained, cyclic and large ones included)",
"The tests convert a few short strings with tables that have no chains, no cycles and no repeated characters.",
["src/modifier/character_converter.rs",LIB],
[("occurrence index per distinct character","src/modifier/character_converter.rs modify"),("table lookup","CharacterConverter::from_tables")],
["normalize output of a pipeline made from a table"])
p("C03","The preset converts exactly the documented characters",
"With the preset, full-width digits, full-width Latin letters and full-width forms of ASCII punctuation (except ＂ ＇ ～, but with ” ’ 〜 ￥ standing for the double quote, the apostrophe, the tilde and ¥) become their half-width counterparts; half-width katakana letters and the half-width marks ､｡･｢｣ become full-width; the ideographic space becomes an ASCII space. Every other character (the half-width ｰ ﾞ ﾟ included) stays as it is, wherever it stands in the text. Applying the preset twice changes nothing more than applying it once.",
["inputs"],"every Unicode scalar value in every context",
"The tests show a handful of the 170 conversions; a wrong, missing or additional entry among 1.1 million characters goes unnoticed.",
["src/characters_set.rs","src/characters_set/",LIB,"src/table.rs"],
[("one constant per conversion, summed","src/characters_set/{alphabets,digits,kanas,punctuations}.rs items"),("union","src/characters_set.rs All"),("preset table","src/chanoma.rs all_characters_set, src/table.rs preset")],
["Chanoma::preset().normalize","use_preset","TableBuilder::preset + from_table"])
p("C04","Neologdn output is in normal form, and normalising again is a no-op",
"For every text, the neologdn result holds none of the following: a full-width ASCII form other than ＂ ＇ ＝, half-width katakana or its voicing and sound marks, an ideographic space, a tilde of any kind, a hyphen-like or long-vowel-like variant character, two long vowel marks ー in a row, a kana of the k, s, t or h row or う/ウ followed by ゛, a kana of the h row followed by ゜, or an ASCII space that does not stand alone between two ASCII letters or digits. Normalising the result again returns it unchanged.",
["inputs"],"every text, in particular ones where deleting a tilde or a space brings other characters together",
"The tests normalise twenty fixed sentences once; none brings characters together by a deletion and none is normalised twice.",
["src/modifier/neologdn.rs","src/modifier/","src/characters_set/"],
[("stage sequence of the preset","src/modifier/neologdn.rs modify, modify_with_positions"),("character sets","CHOONPUS, HYPHENS, TILDES, KANA_TEN, KANA_MARU")],
["Chanoma::neologdn().normalize","use_neologdn","neologdn stage of a YAML configuration"])
p("C05","Neologdn makes only its documented changes",
"For every text, the neologdn result is the text obtained by these changes in turn and no others: convert the preset's characters except ＝, half-width voicing marks to ゛ and ゜, hyphen-like characters to - and long-vowel-like characters to ー; collapse runs of ー; drop every space run except between two ASCII letters or digits, where one space stays; delete the six tilde characters; join a kana with a following ゛ or ゜ into the voiced kana; collapse runs of ー that this brought together. All other characters are kept, in their order.",
["inputs"],"every text and every character in every context",
"The tests cover a few examples per rule; the interplay of the rules and the characters outside the examples are not covered.",
["src/modifier/neologdn.rs","src/modifier/"],
[("stage sequence","src/modifier/neologdn.rs modify"),("rule tables","src/modifier/neologdn.rs constants and Neologdn::new")],
["Chanoma::neologdn().normalize and its traced variant"])
p("C06","The deletion stage removes the listed characters and nothing else",
"A configured character-deletion stage returns the input without any occurrence of the listed characters. Every other character is kept, in order and in number.",
["inputs","configurations"],"every text and every list of characters",
"There is no behavioural test of this stage outside neologdn; a configuration test only checks that it is parsed.",
["src/modifier/character_eliminator.rs"],[("membership filter","src/modifier/character_eliminator.rs modify")],
["normalize output of a pipeline loaded from a YAML file"])
p("C07","The repetition stage collapses runs of its character and nothing else",
"A configured repetition stage turns every maximal run of its character, of any length and at any place, into exactly one occurrence. Every other character is kept as it is, repeated or not.",
["inputs","configurations"],"every text, every run length and every character (of any encoded length)",
"Only one run of four ー at the end of a word is tested.",
["src/modifier/consecutive_character_reducer.rs"],[("run state machine","src/modifier/consecutive_character_reducer.rs modify and modify_with_positions")],
["normalize and traced text of a pipeline loaded from a YAML file"])
p("C08","The space stage keeps one space between ASCII alphanumerics only",
"A configured space stage replaces every run of ASCII spaces that stands between two ASCII letters or digits by exactly one space, and removes every other ASCII space, also at both ends of the text. Every other character, other kinds of white space included, is kept in its order.",
["inputs","configurations"],"every text",
"The stage is tested only through about ten neologdn sentences.",
["src/modifier/dotted_space_eliminator.rs"],[("previous character and pending space state","src/modifier/dotted_space_eliminator.rs modify")],
["normalize output of a pipeline loaded from a YAML file"])
p("C09","The trim stage removes leading and trailing ASCII spaces only",
"A configured trim stage returns the input without its leading and its trailing ASCII spaces. Everything between the first and the last character that is not an ASCII space is kept exactly, and no other kind of white space is removed.",
["inputs","configurations"],"every text, texts made of spaces only and empty ones included",
"No test runs this stage; a configuration test only checks that it is parsed.",
["src/modifier/trim.rs"],[("trim_matches on both ends","src/modifier/trim.rs")],
["normalize and traced text of a pipeline loaded from a YAML file"])
p("C10","The ligature stage replaces exactly the configured sequences",
"For rules that do not interfere (no source overlaps another source or itself, and no target is empty or contains a character of a source), a ligature stage replaces every occurrence of each source sequence by its target and leaves everything else unchanged. For any rules, interfering ones included, the same rules give the same result for the same text every time, in every instance and every process.",
["inputs","configurations"],"every text and every rule set",
"One ligature in one sentence is tested; rule order effects show only with several rules and over several instances.",
["src/modifier/ligature_translator.rs"],[("replace per rule in a fixed order","src/modifier/ligature_translator.rs modify")],
["normalize output of pipelines loaded repeatedly from one YAML file"])
p("C11","Edits reported by a traced run are true places and explain the output",
"In a traced run, every edit reported for a conversion, repetition or trim stage points into that stage's input: its byte offset and byte length, and equally its character offset and character length, delimit exactly the original text it names. The edits of a stage are in ascending order and do not overlap, and replacing each named part by its replacement turns the stage's input into exactly the stage's output.",
["inputs","configurations"],"every text and every pipeline, with characters of one to four bytes and changes at the start, inside and at the end of the text",
"No test looks at a reported position.",
["src/position.rs","src/modifier/character_converter.rs","src/modifier/consecutive_character_reducer.rs","src/modifier/trim.rs","src/modifier.rs"],
[("positions collected while modifying","modify_with_positions of the three stages")],
["records of normalize_with_positions: text and positions of each stage"])
p("C12","Stages run in the order they were added, each on the previous output",
"A pipeline built by any sequence of adding the preset, neologdn, tables or a loaded configuration applies its stages in the order of the calls, each to the output of the one before; a traced run holds one record per added stage, in that order, each with the text after that stage. Creating a pipeline directly with a stage is the same as adding that stage to an empty pipeline. A pipeline with no stages returns every text unchanged.",
["histories","inputs"],"every sequence of builder calls and every text",
"Tests and examples use pipelines with a single stage.",
[LIB,"src/modifier.rs"],[("ordered list of stages folded over the text","src/chanoma.rs")],
["normalize and normalize_with_positions of pipelines built by random call sequences"],
[("modifiers","ordered stages","src/chanoma.rs Chanoma")])
p("C13","Adding and removing table entries is set union and set difference",
"After any sequence of adding and removing correspondences, on a table, on a table builder or with the + - += -= operators, the entries are exactly those of set union and set difference over (source, target) pairs, in sorted order, and without repetition once something was added. The right-hand operands and copies taken earlier are unchanged, and the order in which correspondences are added makes no difference.",
["histories","inputs"],"every sequence of additions and removals of arbitrary correspondences, the published character sets included",
"The unit tests use at most two entries and one operation.",
["src/corr.rs","src/corr/","src/table.rs"],
[("hash set union then sort","src/corr.rs Add, AddAssign"),("filter then sort","src/corr.rs Sub, SubAssign")],
["Table::items, Table::corr, Correspondence::items, =="],
[("corr","entries of the table","src/table.rs Table")])
p("C14","Published character sets are single-valued and agree with Unicode",
"Every published character set has exactly one entry per source, and every source is a single character. The digit, letter, punctuation and kana sets hold exactly the conversions of the preset, which agree with Unicode compatibility decomposition where Unicode defines one. Each constant for one character holds exactly the entry that its name says. The CJK compatibility set has one entry for each of the 256 characters U+3300 to U+33FF, whose expansion is the Unicode one apart from writing the micro sign as µ, the division slash as / and ㏍ ㏗ ㏙ in their customary letter forms.",
["inputs"],"every entry of every published set, and sets combined with one another",
"No test reads the sets; the neologdn sentences touch a part of three of them and nothing touches the CJK set.",
["src/characters_set.rs","src/characters_set/"],[("one constant per conversion","src/characters_set/*.rs")],
["items() of each set and of ALL"])
p("C15","CSV tables load every data row exactly",
"Loading a CSV table skips the header row and turns each further row, whose last field is the target and whose other fields are sources, into one entry per source, in file order and with nothing added or lost. This holds for rows of different lengths, quoted fields, either line ending, a missing final newline and empty lines. Every way of loading the file (table, builder, builder addition, whole configuration) works with the same entries.",
["inputs"],"every well-formed CSV file",
"One four-line file without quoting is loaded by the tests.",
["src/file.rs","src/table.rs","src/configuration.rs"],[("flexible csv reader","src/file.rs table_from_csv_path")],
["table_from_csv_path items","TableBuilder::from_csv_path, add_from_csv","Chanoma::from_config_file + normalize"])
p("C16","YAML tables load in both documented spellings",
"A YAML table given as a list of from/to pairs and one given as a mapping from each target to its source or list of sources both load as exactly the entries written, in file order, with nothing added or lost. Any YAML way of writing the strings (plain, quoted, escaped, block or flow style) is the same. A YAML file without such a section loads as an empty table.",
["inputs"],"every YAML file with an items section in either spelling",
"One file in the mapping spelling is loaded by the tests; the spelling that the documentation shows is not tested.",
["src/file.rs","src/table.rs","README.md"],[("items section walker","src/file.rs table_from_yaml_path")],
["table_from_yaml_path items","TableBuilder::from_yaml_path, add_from_yaml","Chanoma::from_config_file + normalize"])
p("C17","A YAML configuration runs its stages as written, then its table",
"A pipeline loaded from a YAML configuration applies the listed stages in file order, each with the parameters written for it, and then the table of the same file. A CSV configuration gives exactly its table. Nothing outside the file influences the pipeline.",
["configurations","inputs"],"every YAML configuration made of any subset of the stages in any order with any parameters, and every text",
"One file is parsed and compared structurally; no pipeline loaded from a configuration with stages is ever run.",
["src/configuration.rs","src/file.rs","src/modifier_kind.rs","src/modifier/"],
[("stages in mapping order","src/file.rs modifiers_from_yaml_path"),("table appended","src/configuration.rs load_file_with_ext"),("parameter parsing","from_yaml_value of each stage")],
["Chanoma::from_config_file(..).normalize"])
p("C18","Exported tables load back with the same entries",
"Writing any table as YAML and loading it gives a table with the same entries; writing it as CSV below a header line and loading it does too. What the table dump program prints in either format is a file that loads as exactly the preset table.",
["inputs"],"every table of text entries",
"A five-entry export is compared with a fixed string; nothing is loaded back, and the dump program has no test.",
["src/file.rs","src/corr.rs","src/bin/output.rs"],
[("grouping by target","src/corr.rs item_map"),("writers","src/file.rs to_csv_writer, to_serialized_corr"),("dump program","src/bin/output.rs")],
["bytes written by the exporters, reloaded through the loaders","standard output of the output program"])
p("C19","Loading a configuration either succeeds or returns an error",
"For every file content and every path, loading a configuration or a table returns a usable result or an error value; it never panics, aborts or hangs, and whatever was loaded can then normalise any text. A missing file, a path without a supported extension (.csv, .yaml, .yml), a file that is not valid CSV or YAML, and an unknown or wrongly parameterised stage are reported as errors.",
["inputs","fault_sequences"],"every byte content, every path and extension, unreadable and vanished files, truncated and corrupted valid files",
"Only loading a nonexistent file is tested.",
["src/file.rs","src/configuration.rs","src/file_extension.rs","src/modifier_kind.rs","src/modifier/","src/error.rs","src/table.rs"],
[("error type","src/error.rs"),("extension check","src/file_extension.rs"),("parsing","src/file.rs, from_yaml_value of each stage")],
["Result of from_config_file, load_rc, table_from_*_path, modifiers_from_yaml_path, TableBuilder loaders","panics"])
p("C20","The documented configuration files are found and used in order",
"If CHANOMARC is set, exactly that file is loaded, and an error is returned if it does not exist or is not a .csv, .yaml or .yml file; nothing else is consulted. Otherwise every existing documented file is used: in $HOME/.config/chanoma, then $HOME, then the current directory, in each the chanomarc files before the .chanomarc files and of each name .csv before .yaml before .yml, all applied in this order. With no such file the pipeline is empty, and a file that is found but cannot be loaded makes the whole loading fail.",
["configurations","fault_sequences"],"every combination of present, absent, broken and non-regular files at the documented places, and every value of CHANOMARC",
"The unit tests check helper functions on one path each; one Python test loads one file from the current directory.",
["src/configuration.rs","src/file_extension.rs","README.md"],
[("environment variable first","src/configuration.rs file_paths, valid_file_path"),("candidate order","auto_load_dirs, auto_load_paths_from_dir, exists_file_paths")],
["Chanoma::load_rc result and normalisation by it, in processes with their own HOME, working directory and CHANOMARC"])
p("C21","The command prints the library's result for its options and input",
"The command prints exactly the normalised text and a newline and exits with success: normalised by the discovered configuration, then the preset if asked for, then neologdn if asked for. The text is its argument or, without one, the first line of standard input. The debug option changes nothing on standard output, and a configuration that cannot be loaded gives a failure exit and no normalised text.",
["inputs","configurations"],"every argument and input line, every combination of options and configuration files",
"The command has no tests.",
["src/main.rs",LIB,"src/configuration.rs"],[("option handling","src/main.rs")],
["standard output and exit status of the chanoma command"])
p("C22","The Python module returns exactly what the library returns",
"For every text and every combination of the Python options (table, preset, neologdn, rc, configfile), normalising in Python returns exactly what the Rust library returns for the same pipeline: the configuration file if given, otherwise the discovered configuration if asked for, followed by the table, the preset and neologdn. Tables built in Python from the preset, files, character sets and correspondences hold the same entries as those built in Rust. Files that cannot be loaded raise OSError, and later changes to a table do not affect objects built from it.",
["inputs","configurations","histories"],"every text and every combination of options, tables and files",
"Twelve Python tests use one option at a time and mostly the same five letters.",
["bindings/python3/src/lib.rs","bindings/python3/src/characters_set.rs"],
[("option order","bindings/python3/src/lib.rs Chanoma::new"),("table construction","bindings/python3/src/lib.rs Table"),("sets","bindings/python3/src/characters_set.rs")],
["chanoma.Chanoma(...).normalize, chanoma.Table, exceptions, in a Python process"])
p("C23","One instance can be used from many threads at once",
"Any number of threads may normalise, plainly and traced, with one shared pipeline at the same time: every call returns what it returns when run alone. No call changes the pipeline, no call influences another one, and there is no data race.",
["schedules","inputs"],"every interleaving of calls on shared and separate pipelines",
"No test uses more than one thread on a pipeline.",
[LIB,"src/modifier/"],[("normalising takes a shared reference and keeps no state","src/chanoma.rs, src/modifier/*.rs")],
["results per thread against results run alone","ThreadSanitizer and Miri reports"])
p("C24","Results do not depend on instance, process, repetition or history",
"The same configuration and the same text give the same text and the same trace (texts and edits, in the same order) in every instance, every repetition and every process, whatever was normalised before. Tables list their entries, and exports write them, in the same order every time.",
["histories","configurations"],"every configuration and text, over repeated calls, rebuilt instances and restarted processes with different hash seeds",
"Tests run every case once in one process; the hash seed differs from process to process.",
[LIB,"src/modifier/","src/corr.rs","src/file.rs"],[("sorting of entries and edits, no state between calls","src/corr.rs, src/modifier/*.rs")],
["digests of results, traces, items and exports over processes"])
p("C25","Every text can be normalised",
"For every text (empty, very long, with control characters, noncharacters, combining marks and characters of any plane) and every loaded pipeline, normalising returns a valid text, plainly and traced, without panic, abort or endless loop. Unless a ligature target is longer than its source, the result has no more characters than the text.",
["inputs","configurations"],"every valid Unicode text and every pipeline that can be built or loaded",
"The tests use short, ordinary Japanese and English sentences.",
[LIB,"src/modifier/"],[("character-wise processing","src/modifier/*.rs")],
["return of normalize and normalize_with_positions under overflow checks, address checks and resource limits"])
p("C26","Work and memory grow linearly, and nothing is retained",
"Normalising a text, plainly or traced, takes work and memory at most proportional to its length for a given pipeline. After the result is dropped no memory stays in use, however often and with whatever different texts one pipeline is used. Dropping pipelines, tables and builders releases their memory too.",
["inputs","histories"],"texts of growing length and every shape (uniform, alternating, all distinct characters), and long histories of calls",
"No test looks at resources; the benchmarks are not run and assert nothing.",
[LIB,"src/modifier/","src/corr.rs"],[("one pass per stage, buffers owned by the call","src/modifier/*.rs")],
["executed instructions (valgrind) and allocated bytes per call over growing texts"])
p("C27","A failed addition leaves a table builder as it was",
"If adding a table file to a builder fails, for whatever reason, the builder holds exactly the entries it held before, and can be used on. If it succeeds, the builder holds exactly the union of what it held and the file's entries, no matter how many additions failed before.",
["fault_sequences","histories"],"every sequence of builder calls in which any file addition fails by a missing, unreadable, truncated or malformed file",
"No test makes a builder addition fail.",
["src/table.rs","src/file.rs"],[("load first, then add","src/table.rs add_from_csv, add_from_yaml")],
["Table::items after random builder histories with failing loads"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
