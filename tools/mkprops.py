import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,title
    P.append(d)
MIN=["pico_minify.py","pico_rename.py","pico_constfold.py","pico_output.py","pico_parse.py","pico_tokenize.py"]
p("C01","Safe minification never changes what a program does",
 "For every valid PICO-8 program, the program produced by --minify-safe-only (with any --focus-* combination and any --no-minify-* switches) performs exactly the same observable API calls, prints, results and error outcome as the original. It stays a program that PICO-8's Lua accepts.",
 ["programs","configurations"],"all valid PICO-8 Lua programs x all focus / no-minify combinations",
 "The suite runs a handful of carts through a few option sets and compares text; no test executes arbitrary programs before and after.",
 MIN,[("node/token rewriting, shorthand creation, assignment merging","pico_minify.py"),("scope-aware renaming","pico_rename.py"),("constant folding","pico_constfold.py"),("whitespace-minimal output","pico_output.py")],
 ["output cart code executed in a real z8lua VM: trace of API calls"])
p("C02","Full minification preserves behaviour under the documented assumptions",
 "For every valid program that keeps the README's documented assumptions (no mixing of identifier and string keys except through hints, no builtin overriding via _ENV, no reliance on fresh assignments inside metamethods), the output of --minify behaves identically to the original. This holds for every focus, every --no-minify-* switch and every partial --*-safe-only switch.",
 ["programs","configurations"],"all assumption-respecting programs x all minify configurations",
 "Sample carts exercise only a few member-renaming and reordering patterns.",
 MIN,[("member renaming and assignment merging","pico_minify.py, pico_rename.py")],["VM traces before/after"])
p("C03","Constant folding yields exactly the runtime value",
 "Whenever an expression, condition or --const/--str-const/--[[const]] value is evaluated at minification time, the value (or taken branch) put in the output is exactly the one the PICO-8 (or Picotron) runtime would compute. Overflow, negative operands, shifts past the width, division and modulo signs, string conversions and short-circuiting included; expressions that would raise an error keep raising it.",
 ["inputs","programs"],"all operator/operand combinations over the 16:16 fixed-point range, strings, booleans and nil, at any nesting",
 "Tests fold a fixed list of expressions; the edge values of 40 operators cannot be listed by hand.",
 ["pico_constfold.py","pico_defs.py"],[("operator evaluation tables","pico_constfold.py"),("fixnum helpers","pico_defs.py")],["folded literals in output vs. VM evaluation / independent Lua 5.4 model"])
p("C04","Respelled literals keep their value",
 "Every number and string literal that the minifier writes in another spelling denotes exactly the same value to the PICO-8 (or Picotron) runtime as the literal in the source. This includes hexadecimal, binary, fractional, exponent, negative, overlong numerals and every escape sequence, byte value and long-bracket form.",
 ["inputs"],"all numeral spellings and all byte strings in all quoting forms, under every focus",
 "Tests include a few dozen literals; the value spaces are 2^32 numbers, all doubles and all byte strings.",
 ["pico_output.py","pico_tokenize.py","pico_minify.py"],[("format_fixnum / format_luanum / format_string_literal","pico_output.py"),("numeral and string parsing","pico_tokenize.py")],["literals of the output as the VM reads them"])
p("C05","Renaming preserves every name binding",
 "After minification every variable, upvalue, label and implicit-environment reference resolves to the same declaration as before: no captured, merged or split variables, no clash with builtins, keywords or preserved names. The names in the output are related to the source names by a consistent one-to-one mapping per declared entity, and each pair of distinct globals stays distinct.",
 ["programs","configurations"],"all programs with arbitrary nesting/shadowing x rename options",
 "Capture bugs need particular nesting/shadowing shapes and many-identifier programs that the few carts do not contain.",
 ["pico_rename.py","pico_parse.py"],[("scope conflict analysis and id assignment","pico_rename.py")],["resolution of source and output by an independent parser/resolver"])
p("C06","Preserve options and hints are obeyed exactly",
 "Every name covered by --preserve (wildcards and .member forms included), --builtin/--not-builtin, --local-builtin, --global-builtins-only, preserve/nameof/member/global-style hints in comments is renamed or kept exactly as documented. Negated and overlapping patterns resolve as documented and nothing else is affected.",
 ["configurations","programs"],"all pattern/hint combinations over all identifiers of a program",
 "Tests check a few fixed pattern lists against golden text.",
 ["pico_rename.py","pico_process.py","run_shrinko.py","pico_tokenize.py"],[("preserve patterns","pico_rename.py"),("hint parsing","pico_tokenize.py")],["identifiers in the output"])
p("C07","Each disabled minification leaves its aspect of the code untouched",
 "With renaming, token changes and constant folding disabled, the output has exactly the source's token sequence; whitespace and comment removal alone never merges, splits or reorders tokens nor breaks line-sensitive syntax. Each --no-minify-X switch leaves that aspect (names, spaces, lines, comments, tokens, constants, statement order) as it was in the source.",
 ["programs","configurations"],"all programs with arbitrary spacing/comments x every subset of the switches",
 "Only a few switch combinations on one or two carts have golden outputs.",
 ["pico_output.py","pico_minify.py","run_shrinko.py"],[("whitespace-minimal output","pico_output.py"),("switch handling","run_shrinko.py")],["token stream of output vs. source by an independent lexer"])
p("C08","Kept comments survive minification exactly once",
 "Every comment marked to be kept survives into the minified output with its text intact (at most its line breaks adapt where a one-line shorthand surrounds it), and the comments never alter the code around them. When tokens, constants and statement order are left alone, each appears exactly once and in source order; no comment that isn't marked appears. With comment minification disabled no comment text is lost or altered.",
 ["programs","configurations"],"all comment kinds/positions x minify options",
 "Comment survival depends on which neighbouring tokens get removed or folded away; tests place comments in few spots.",
 ["pico_output.py","pico_parse.py","pico_tokenize.py"],[("comment attachment and re-attachment","pico_parse.py")],["comments of the output by an independent lexer"])
p("C09","Unminify changes only layout and is stable",
 "--unminify outputs a program with the same tokens (except documented normalisations) and the same behaviour as its input, one statement per line, correctly indented by block depth with the requested indent. Unminifying its own output changes nothing.",
 ["programs","configurations"],"all programs x indent settings",
 "Two golden files cover a small part of the grammar.",
 ["pico_unminify.py","pico_output.py"],[("statement layout","pico_unminify.py")],["token stream, VM trace and line structure of the output"])
p("C10","Minified code never needs a newer PICO-8 than the cart's version",
 "When the cart (or --version) declares an older PICO-8 version, the minifier's output uses no syntax that this version lacks (such as 'do' in place of 'then', nested shorthands, '~' for xor, or complex long strings) beyond what the source already used. Versions accepted on the command line are recorded in the output as documented.",
 ["configurations","programs"],"all format versions x all programs x minify options",
 "Version gates are each tested with at most one version.",
 ["pico_minify.py","pico_parse.py","pico_cart.py"],[("ctxt.version gates","pico_minify.py")],["syntax features of the output by an independent parser"])
p("C12","The rename map matches the renaming that was done",
 "The file written by --rename-map has exactly one line per identifier subject to renaming (local, global, member or label), giving its kind, its name in the output and its name in the source. Preserved and builtin identifiers aren't listed; no other output identifier is missing from it or described wrongly.",
 ["programs","configurations"],"all programs x rename options",
 "Only one map is compared to a golden file.",
 ["pico_rename.py","pico_process.py","run_shrinko.py"],[("rename map output","pico_rename.py")],["map file vs. positions of identifiers in source/output"])
p("C13","Renamed string contents follow the identifiers they name",
 "Strings hinted as member/global/split-list names have exactly the embedded identifiers renamed like the real identifiers and every other character (separators, numbers, spaces, empty items) is kept, so that key lookups through such strings keep working at run time. Unhinted strings never change value.",
 ["programs","inputs"],"all string contents x hint kinds x rename results",
 "Golden outputs cover a couple of strings.",
 ["pico_rename.py","pico_process.py","pico_tokenize.py"],[("string-name hints","pico_tokenize.py"),("string renaming","pico_rename.py")],["VM traces of programs that look members up through hinted strings"])
p("C20","Code compression is lossless and honestly sized",
 "Every code text written in a binary cart decompresses to exactly the same text, with every compression setting (default, fast, old, forced, kept), according to an independent implementation of the decompressor. Compressed code never exceeds the space reported by the tool's counts nor spills over other cart data.",
 ["inputs","configurations"],"all code texts (any bytes, repetitive, incompressible, up to the size limits) x all compression settings",
 "Round trips of a few carts cannot exercise match-length/offset boundaries, move-to-front states or literal runs.",
 ["pico_compress.py"],[("pxa and old compression","pico_compress.py")],["bytes of the written .rom/.png decoded by an independent decoder"])
p("C21","Cart conversions lose nothing",
 "Converting a cart between p8, png, rom, tiny-rom, clipboard, url, lua, label and spritesheet formats preserves all the data the formats have in common: code, graphics, map, flags, sound, music, label, title/meta text, version and platform. The written files are well formed according to independent readers of these formats.",
 ["inputs","configurations"],"all section contents (any bytes) x all format pairs",
 "A few sample carts leave most byte patterns (shared map area, sfx/music flag bits, label colours, trimmed tails) untouched.",
 ["pico_cart.py","media_utils.py","pico_utils.py"],[("readers/writers per format","pico_cart.py")],["written files as decoded by independent readers"])
p("C23","Corrupted PNG carts are noticed",
 "When any stored data byte of a png/clip/rom cart image with an integrity hash (or the hash itself) is altered, every operation that reads it reports the corruption and fails without an output instead of silently accepting it. An intact cart, or one without a hash (all zeros, or no trailer), never triggers the report.",
 ["fault_sequences","inputs"],"all single/multiple byte alterations of the hashed data of all carts",
 "Tests never read a corrupted cart.",
 ["pico_cart.py"],[("hash check on read","pico_cart.py")],["stderr/exit code of reads of mutated images"])
p("C24","P8SCII and Unicode text convert back and forth without loss",
 "Every PICO-8 character is written in its published Unicode form (or, with --unicode-caps, italic capitals) and reading that form back yields the same character, next to any other character. Characters outside of PICO-8's set are read as the bytes of their UTF-8 form. Every code text survives writing and reading in every text and binary format.",
 ["inputs"],"all 256 characters in all adjacent combinations",
 "Tests convert one text file.",
 ["pico_utils.py","pico_cart.py","utils.py"],[("charset tables","pico_utils.py")],["bytes of written text files"])
p("C25","Exports keep and edit exactly the addressed carts",
 "Carts stored in or extracted from html/js or binary exports come out unchanged, --list and --dump show exactly the stored carts, and insert/replace/delete/rename operations change only the addressed cart while all others and the surrounding file stay as they were.",
 ["histories","inputs"],"all sequences of edit operations x cart contents",
 "No test can create exports offline; operation sequences are not covered.",
 ["pico_export.py","shrinko8.py","run_shrinko.py"],[("export containers","pico_export.py")],["export files decoded independently"])
p("C26","Picotron cart conversions keep every file",
 "Converting Picotron carts between p64, p64.png, p64.rom and directory forms keeps every contained file's path, contents and metadata, and extract/insert/filter/delete operations affect exactly the addressed files.",
 ["inputs","histories","configurations"],"all file trees/contents x all formats x operation sequences",
 "One sample cart with few files is converted.",
 ["picotron_cart.py","picotron_fs.py","shrinkotron.py"],[("p64 readers/writers","picotron_cart.py")],["files found by an independent p64 reader"])
p("C27","Picotron data encodings round-trip",
 "Every Lua value and userdata stored through the pod, lz4 and pxu encodings is decoded to the same value, compressed streams are decodable by an independent decoder, and re-encoding under --uncompress-pods/--base64-pods/--keep-pod-compression keeps the value.",
 ["inputs"],"all pod values, all byte buffers for lz4, all userdata shapes/types for pxu",
 "Only the pods in one sample cart are converted.",
 ["picotron_fs.py","picotron_cart.py","pico_compress.py"],[("pod/pxu/lz4 codecs","picotron_fs.py")],["encoded bytes decoded independently"])
p("C28","Merging and section filters copy exactly the named sections",
 "--merge replaces exactly the listed sections of the cart with those of the other cart, and --output-sections keeps exactly the listed sections; every other section stays byte-identical. Unknown section names are refused.",
 ["configurations","inputs"],"all subsets of sections x all cart contents",
 "One merge with one section list is compared to a golden file.",
 ["pico_cart.py","run_shrinko.py"],[("merge_cart / section filters","pico_cart.py")],["written sections decoded independently"])
p("C30","Reported token, character and compressed-size counts are right",
 "The counts printed by --count, --input-count and --parsable-count equal PICO-8's own counting rules: tokens, characters and compressed code size, for any program. They describe the cart actually read or written.",
 ["programs","configurations"],"all programs x count options",
 "A few golden counts exist; token counting rules interact with every syntax form.",
 ["pico_process.py","pico_tokenize.py","pico_compress.py","run_shrinko.py"],[("count_tokens","pico_process.py"),("size reporting","pico_compress.py")],["printed counts vs. an independent counter and the bytes written"])
p("C31","Lint reports exactly the documented problems",
 "--lint reports every undefined global, unused local and duplicate local of the program (subject to its options, hints and _ documented exceptions) at its location, and nothing else. The exit code distinguishes lint findings from errors.",
 ["programs","configurations"],"all programs x lint options/hints",
 "Golden lint output for three files only.",
 ["pico_lint.py"],[("lint analysis","pico_lint.py")],["lint output vs. an independent scope analysis"])
p("C32","Diagnostics point at the real source position",
 "Every error or warning names the file, tab and line (and column) at which the offending text really is, including through #include, multiple tabs, multi-line tokens and different newline styles.",
 ["programs","inputs"],"all error kinds x all positions/layouts",
 "Golden error files cover a few layouts.",
 ["pico_process.py","pico_tokenize.py","pico_preprocess.py"],[("source mapping","pico_preprocess.py, pico_process.py")],["positions printed vs. positions planted"])
p("C33","#include preprocessing inserts exactly the included code",
 "Every #include line is replaced by precisely the named file's code (lua file, cart, or single tab of a cart), wherever the rules say it is active and nowhere else (not in strings or comments), with missing files reported. Including is equivalent to pasting the text by hand.",
 ["inputs","programs"],"all texts around/inside includes x file kinds x tab selectors",
 "A few include lines are tested.",
 ["pico_preprocess.py","pico_cart.py"],[("preprocess_code","pico_preprocess.py")],["code of the output cart vs. independent expansion"])
p("C34","Malformed input is refused cleanly",
 "Any malformed or truncated program makes the tool stop with an error message that names a position inside the file and a failing exit code, without an internal exception, an endless loop or a written output. Corrupted cart files never make it loop endlessly: reading them either fails with a failing exit code and no written output, or gives a sound cart that can be written and read again.",
 ["inputs","fault_sequences"],"all mutations/truncations of programs and of all supported file formats",
 "Tests contain no malformed carts and one syntax-error file.",
 ["pico_cart.py","pico_tokenize.py","pico_parse.py","pico_compress.py","picotron_cart.py","run_shrinko.py"],[("check()/CheckError handling","utils.py, shrinko8.py"),("parser errors","pico_parse.py")],["exit code, messages, output files; step-counted termination"])
p("C35","Output is a deterministic function of input and options",
 "Running the tool twice on the same inputs and options produces byte-identical outputs, regardless of hash randomisation, working directory, earlier runs in the same process or the order of unrelated files.",
 ["configurations","histories"],"all inputs/options x hash seeds x process histories",
 "The suite runs with one fixed hash seed (PYTHONHASHSEED=0).",
 ["pico_rename.py","pico_minify.py","pico_cart.py","picotron_cart.py"],[("ordered data structures in renaming","pico_rename.py")],["output bytes over processes with different hash seeds"])
p("C36","All ways of naming inputs and outputs are equivalent",
 "The result does not depend on whether formats are given explicitly or guessed from extensions/contents, input comes from a file or stdin, output goes to a file, stdout or extra outputs, or operations are done in one run or several, with or without a script that changes nothing. Each extra output is what a separate run would have written (for Picotron, up to the compression of pods and the removal of the label, which follow the main output).",
 ["configurations"],"all format/route combinations x carts",
 "Each route is tested at most once.",
 ["run_shrinko.py","pico_cart.py","shrinko8.py"],[("read/write dispatch","run_shrinko.py")],["bytes written through the different routes"])
p("C37","Oversized carts are refused, never truncated",
 "Code or files exceeding the limits of the target format (65535 characters, 15616 bytes of compressed code, the length of an education-edition url, 256 KB for picotron png carts) are refused with a message and a failing exit code, and neither a new output file nor an edited export is written with cut code; anything at or below the limits is accepted and stored completely.",
 ["inputs"],"all code sizes around each limit x formats",
 "Limits are not tested at their boundary.",
 ["pico_compress.py","pico_cart.py","run_shrinko.py"],[("size checks on write","pico_compress.py, pico_cart.py")],["exit code and written cart near the limits"])
p("C38","Every valid program is accepted",
 "Every program that PICO-8's Lua accepts (and, for Picotron, Lua 5.4 with its extensions) is parsed by every operation of the tool without errors, at any length and any nesting the compiler allows, and its code is written back unchanged when no transformation was asked for.",
 ["programs"],"all syntactically valid PICO-8 programs",
 "Syntax coverage of the sample carts is limited.",
 ["pico_tokenize.py","pico_parse.py"],[("tokenizer and parser","pico_tokenize.py, pico_parse.py")],["exit code on programs that the z8lua compiler accepts"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
